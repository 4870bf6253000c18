"""A seed fully determines a population run.

Whole-program provenance analysis of random-number generators (see prov.py).
Every function of the sampling, evolution and utility code is interpreted
abstractly in the situation "the caller supplied a generator"; each draw, each
generator handed to a callee and each generator stored in an object must then be
the supplied one.  The origin of the population's own generator (a function of
seed, job number, metallicity and rank only) and its hand-over to the steps are
followed by symbolic value numbering.
"""
import ast

from .. import vn
from ..ev import Evaluator
from ..prov import Prov, good, words
from ..repo import AnalysisBroken, Func
from ..vn import c, mk, sym
from .c19 import load_step, mentions, subnodes

EXPLANATION = __doc__
ASSUMPTIONS = [
    "generators stored in containers other than option mappings and object "
    "attributes are not followed",
    "numpy and scipy routines that are not handed a generator draw no random numbers "
    "except numpy.random.*, random.*, rvs and DataFrame.sample",
]
SCOPE = ("posydon/popsyn/", "posydon/binary_evol/", "posydon/utils/")
# analysis of finished populations, not part of sampling or evolving one
POST = ("posydon/popsyn/GRB.py", "posydon/popsyn/transient_select_funcs.py",
        "posydon/popsyn/rate_calculation.py", "posydon/popsyn/analysis.py",
        "posydon/utils/compress_mesa_files.py")
CLOCK = {"time", "time_ns", "perf_counter", "monotonic", "getpid", "urandom", "uuid4",
         "uuid1", "id", "hash", "now", "gethostname", "getrandbits", "randbits"}


def classes(repo):
    for m in repo.modules.values():
        yield from m.classes.values()


def scope(repo):
    for f in repo.functions():
        if f.mod.rel.startswith(SCOPE) and f.mod.rel not in POST \
                and "tests" not in f.mod.rel:
            yield f


def check(ctx):
    repo = ctx.repo
    ctx.rule("N-draw", "with a generator supplied, every random draw comes from it", 25)
    ctx.rule("N-root", "functions analysed with a generator supplied", 60)
    ctx.rule("N-hold", "a class that keeps a generator keeps the one it was given", 3)
    ctx.rule("N-seed", "the population's generator is a function of the seed, the job "
             "number, the rank and the metallicity", 3)
    ctx.rule("N-load", "every step that uses random numbers receives the population's "
             "generator", 6)
    P = Prov(repo)
    for f in scope(repo):
        if f.parent is not None:
            continue
        if f.key not in P.relevant:
            continue
        ctx.instance("N-root", f.key)
        try:
            P.root(f)
        except RecursionError:
            ctx.note("recursion in " + f.key)
    for (fk, what), (line, path, msg) in P.events.items():
        if fk.split(":")[0] in POST:
            continue
        ctx.find("N-draw", fk + "|" + what, fk, "line %d: %s%s" % (
            line, msg, "" if len(path) < 2 else " (reached via %s)" % " -> ".join(
                x.split(":")[1] for x in path)))
    for d in sorted(P.draws):
        ctx.instance("N-draw", "%s line %d" % d[:2])
    ctx.count("calls followed", P.calls)
    for u in sorted(P.unknown):
        ctx.note("receiver of unknown origin: %s line %d .%s()" % u)
    holders(ctx, P)
    seeds(ctx)
    loading(ctx)


def holders(ctx, P):
    """Constructor with RNG given: self.RNG is it."""
    repo = ctx.repo
    for C in list(classes(repo)):
        if not C.mod.rel.startswith(SCOPE) or C.mod.rel in POST:
            continue
        uses = [m for m in C.methods.values() if any(
            isinstance(x, ast.Attribute) and x.attr == "RNG" and
            isinstance(x.value, ast.Name) and x.value.id == "self"
            for x in ast.walk(m.node))]
        if not uses:
            continue
        init = repo.find_method(C, "__init__")
        if init is None or C.name in ("BinaryPopulation",):
            continue
        b = P.given(init)
        names = [x.arg for x in init.node.args.args]
        o = P.instance(C, {})
        b[names[0]] = frozenset([o])
        _, st = P.body(init, b, {})
        v = st.get((o[2], "RNG"))
        if v is None:
            # set through a generic loop over the options: decided by N-load
            continue
        ctx.instance("N-hold", C.key)
        if not good(v):
            ctx.find("N-hold", C.key, init.key,
                     "constructed with a generator, %s keeps %s" % (
                         C.name, "another one" if v & {"F", "S"} else "none of it"))


def population_rng(ctx, mode):
    """Value of BinaryPopulation().RNG for one way of running."""
    repo = ctx.repo
    BP = repo.cls("BinaryPopulation")
    init = repo.find_method(BP, "__init__")
    vn.reset()
    ev = Evaluator(repo, ctx.consts, max_depth=4)
    ev.no_exc = True
    me = sym("self")
    items = [("entropy", sym("ENTROPY")), ("metallicity", sym("MET")),
             ("metallicities", sym("METS")), ("population_properties", sym("POPP")),
             ("number_of_binaries", sym("NBIN"))]
    if mode == "mpi":
        items += [("comm", sym("COMM"))]
    if mode == "job":
        items += [("JOB_ID", sym("JOB")), ("RANK", sym("RANK")), ("size", sym("SIZE"))]
    d = ev.mkdict([(c(k), v) for k, v in items])
    pc = vn.TRUE
    for s in [v for _, v in items]:
        pc = vn.and_(pc, vn.not_(vn.atomcond(mk("isnone", s))))
    v, h, rp, fr = ev.run(init, {init.node.args.kwarg.arg: d}, self_node=me, pc=pc)
    if h is None:
        raise AnalysisBroken("BinaryPopulation.__init__ never completes (%s)" % mode)
    r = h.get((me, "RNG"))
    if r is None:
        raise AnalysisBroken("BinaryPopulation.RNG is not set (%s)" % mode)
    return settle(vn.under(r, pc)), ev, h, me


def settle(r):
    """Drop the branches excluded by assumption."""
    while r.k == "ite" and "dontcare" in (r.a[1].k, r.a[2].k):
        r = r.a[2] if r.a[1].k == "dontcare" else r.a[1]
    return r


def seeds(ctx):
    want = {"single": ["ENTROPY"], "mpi": ["ENTROPY", "rank"], "job": ["RANK"]}
    init = ctx.repo.find_method(ctx.repo.cls("BinaryPopulation"), "__init__")
    for mode, need in want.items():
        r, ev, h, me = population_rng(ctx, mode)
        ctx.instance("N-seed", mode + ": " + vn.show(r)[:200])
        leaves, calls = set(), set()
        for x in subnodes(r):
            if x.k == "sym":
                leaves.add(x.a[0])
            elif x.k == "call":
                calls.add(str(x.a[0]))
        txt = leaves | calls
        for w in need:
            if w == "rank":
                ok = any("Get_rank" in t for t in txt) or any(
                    "Get_rank" in str(x.a[0]) for x in subnodes(r)
                    if x.k in ("attr", "call"))
            else:
                ok = w in leaves
            if not ok:
                ctx.find("N-seed", "%s:%s" % (mode, w), init.key,
                         "population run (%s): the generator does not depend on %s: %s"
                         % (mode, w.lower(), vn.show(r)[:300]))
        bad = {t.split(".")[-1] for t in calls} & CLOCK
        if bad:
            ctx.find("N-seed", "%s:clock" % mode, init.key,
                     "the generator is seeded from %s" % ", ".join(sorted(bad)))
        if not any("default_rng" in t or "Generator" in t for t in calls):
            ctx.find("N-seed", mode + ":kind", init.key, "the population's generator is "
                     "not built from a seed: " + vn.show(r)[:200])
        # handed on to the generator of binaries
        kw = h.get((me, "kwargs"))
        if kw is not None and kw.k == "dict":
            got = [v for k, v in kw.a if k is c("RNG")]
            if not got or got[0] is not h.get((me, "RNG")):
                ctx.find("N-seed", mode + ":kwargs", init.key, "the options handed to "
                         "the population manager do not carry the generator")


def loading(ctx):
    """Steps that read self.RNG hold the generator handed to load_steps."""
    repo = ctx.repo
    SP = repo.cls("SimulationProperties")
    users = []
    for C in list(classes(repo)):
        if not C.mod.rel.startswith("posydon/binary_evol/"):
            continue
        if repo.find_method(C, "__call__") is None:
            continue
        dk = None
        for k in repo.mro(C):
            if "DEFAULT_KWARGS" in k.assigns:
                dk = k
                break
        if dk is None:
            continue
        if any("RNG" in words(m.node) for k in repo.mro(C) for m in k.methods.values()):
            users.append(C)
    ls = repo.find_method(SP, "load_steps")
    la = repo.find_method(SP, "load_a_step")
    if ls is None or la is None:
        raise AnalysisBroken("SimulationProperties.load_steps/load_a_step not found")
    for C in users:
        vn.reset()
        ev, h, me, rp = load_step(ctx, "step_X", C, {}, )
        o = None
        for k, v in (h or {}).items():
            if k[0] is me and str(k[1]) not in ("kwargs",) and v.k == "inst" \
                    and v.a[0] == C.name:
                o = v
        if o is None:
            for k in (h or {}):
                if k[0].k == "inst" and k[0].a[0] == C.name:
                    o = k[0]
        if o is None:
            raise AnalysisBroken("loading of %s could not be followed" % C.name)
        ctx.instance("N-load", C.name)
        r = h.get((o, "RNG"))
        if r is None:
            ctx.find("N-load", C.name, C.key, "loaded step has no generator although "
                     "its methods use one")
        else:
            r = settle(vn.under(r, vn.not_(vn.atomcond(mk("isnone", sym("RNG"))))))
            if r is not sym("RNG"):
                ctx.find("N-load", C.name, la.key, "the generator of the loaded step %s "
                         "is not the one handed to load_a_step: %s" % (
                             C.name, vn.show(r)[:200]))
    # load_steps passes its generator to load_a_step: decided by N-draw's call rule
    P = Prov(repo)
    got = []

    def spy(n, f, pos, kw, dd, stars, env, fr, shared=False):
        if f is la:
            a = [x.arg for x in la.node.args.args]
            v = kw.get("RNG")
            if v is None and "RNG" in a and len(pos) > a.index("RNG"):
                v = pos[a.index("RNG")]
            if v is None and dd:
                v = P.lookup(dd)
            got.append(v)
            return frozenset()
        return Prov.invoke(P, n, f, pos, kw, dd, stars, env, fr, shared)
    P.invoke = spy
    P.root(ls)
    if not got:
        raise AnalysisBroken("load_steps does not reach load_a_step")
    for v in got:
        ctx.instance("N-load", "load_steps -> load_a_step")
        if v is None or not good(v):
            ctx.find("N-load", "load_steps", ls.key, "load_steps does not hand its "
                     "generator to load_a_step")
    # the population hands its own generator to load_steps
    BP = repo.cls("BinaryPopulation")
    P = Prov(repo)
    got = []

    def meth(n, f, o, pos, kw, dd, env, fr, fk):
        if f.attr in ("load_steps", "load_a_step"):
            v = kw.get("RNG")
            a = [x.arg for x in repo.find_method(SP, f.attr).node.args.args][1:]
            if v is None and "RNG" in a and len(pos) > a.index("RNG"):
                v = pos[a.index("RNG")]
            if v is None and dd:
                v = P.lookup(dd)
            got.append((fr["f"].key, n.lineno, v))
            return frozenset()
        return Prov.method(P, n, f, o, pos, kw, dd, env, fr, fk)
    P.method = meth
    for m in list(BP.methods.values()) + list(repo.cls("PopulationManager").methods
                                              .values()):
        if "load_steps" in words(m.node) or "load_a_step" in words(m.node):
            P.root(m)
    if not got:
        raise AnalysisBroken("BinaryPopulation never loads the steps")
    for key, line, v in got:
        ctx.instance("N-load", key)
        if v is None or not good(v):
            ctx.find("N-load", key, key, "line %d: the steps are loaded without the "
                     "population's generator" % line)
