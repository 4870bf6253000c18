"""Shipped configuration and step parameters agree.

The loading of every step of the shipped configuration is followed symbolically
(`SimulationProperties.load_a_step` with every option an unknown): module and
class must exist, the option must be accepted, and after construction the step
(or the track matcher it is given) must hold exactly the value handed in.
Options replaced by the code are only accepted under an explicit test of an
option against a constant or None.  Then: an option nobody knows is rejected,
the process switches reach the integrated object, every accepted parameter is
read by code that runs the step, grid paths and population options are consumed
and the configured output columns exist.
"""
import ast

from .. import labels, vn
from ..consts import UNKNOWN, Ref
from ..ev import Evaluator
from ..repo import AnalysisBroken, Cls, Func
from ..vn import FALSE, NONE, TRUE, c, mk, sym

EXPLANATION = __doc__
ASSUMPTIONS = ["no exception is raised while loading grids and interpolators",
               "values are compared up to copies (float(), copy())"]
NOINLINE = ["convert_metallicity_to_string", "load_psyTrackInterp", "load_Interp",
            "_find_boundaries", "create_root0_h", "create_root0_he",
            "train_scalers", "data_download"]
AUTO = {"metallicity", "RNG", "track_matcher", "grid_path", "grid_Hrich",
        "grid_strippedHe"}
IMPORTS = ("import", "absolute_import")


def subnodes(n, seen=None):
    """All nodes below n (iterative)."""
    seen = set() if seen is None else seen
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, vn.N) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        todo.extend(x.a)


def mentions(n, s):
    return any(x is s for x in subnodes(n))


def explicit(atom, val):
    """Does atom==val say that something is None or equals a named case?"""
    if atom.k in ("isnone", "eq"):
        return val
    return atom.k in ("in", "call") and val and "in" == str(atom.a[0])


def load_step(ctx, name, C, options, extra=()):
    """Value-number load_a_step(name, (C, options)); -> (evaluator, heap, self)."""
    repo = ctx.repo
    SP = repo.cls("SimulationProperties")
    f = repo.find_method(SP, "load_a_step")
    if f is None:
        raise AnalysisBroken("SimulationProperties.load_a_step not found")
    ev = Evaluator(repo, ctx.consts, max_depth=12, noinline=NOINLINE)
    ev.no_exc = True
    me = sym("self")
    ev.types[me.id] = SP
    ev.instantiate = {C.key, repo.cls("TrackMatcher").key}
    for e in ("detached_evolution", "double_CO_evolution"):
        try:
            k = repo.cls(e)
        except AnalysisBroken:
            k = None
        if k is not None:
            ev.instantiate.add(k.key)
    d = ev.mkdict([(c(k), v) for k, v in options.items()])
    h0 = {(me, "track_matchers"): ev.mkdict([]), (me, "grids_Hrich"): ev.mkdict([]),
          (me, "grids_strippedHe"): ev.mkdict([])}
    v, h, rp, fr = ev.run(f, {"step_name": c(name),
                              "step_tup": mk("tuple", ev.obj(Ref(C)), d),
                              "verbose": c(False), "from_ini": c("")},
                          self_node=me, heap=h0)
    return ev, h, me, rp


def paths(n, s, conds=()):
    """Leaves of nested ite that do not mention s, with the tests leading there."""
    if n.k == "ite":
        yield from paths(n.a[1], s, conds + ((n.a[0], True),))
        yield from paths(n.a[2], s, conds + ((n.a[0], False),))
    elif not mentions(n, s):
        yield n, conds


def literal(txt):
    try:
        return ast.literal_eval(txt)
    except Exception:
        return UNKNOWN


def check(ctx):
    repo, consts = ctx.repo, ctx.consts
    ctx.rule("G-import", "modules and classes named in the configuration exist", 14)
    ctx.rule("G-param", "every configured option is accepted", 100)
    ctx.rule("G-stored", "the step holds the value of every parameter it was given",
             150)
    ctx.rule("G-reject", "an unknown option is rejected", 8)
    ctx.rule("G-evo", "process switches reach the integrated object", 20)
    ctx.rule("G-value", "the shipped values do not make a step refuse to load", 10)
    ctx.rule("G-effect", "every accepted parameter is read by code that uses it", 50)
    ctx.rule("G-plumb", "generator, metallicity and grid of a step are the given ones",
             10)
    ctx.rule("G-paths", "grid paths of configuration and code agree", 6)
    ctx.rule("G-section", "every configured step reaches the simulation", 10)
    ctx.rule("G-pop", "every population option is consumed", 30)
    ctx.rule("G-cols", "configured output columns exist", 30)
    ini = labels.read_ini(repo)
    tm = repo.cls("TrackMatcher")
    tm_def = consts.class_attr(tm, "DEFAULT_KWARGS")
    if tm_def is UNKNOWN:
        raise AnalysisBroken("TrackMatcher.DEFAULT_KWARGS is not constant")
    steps = {}
    for s, d in ini.items():
        for k, txt in d.items():
            if not (k == "import" or k.startswith("import_")):
                continue
            v = literal(txt)
            ctx.instance("G-import", s + ":" + k)
            C = None
            if isinstance(v, (list, tuple)) and len(v) == 2 and v[0] in repo.modules:
                C = repo.resolve(repo.modules[v[0]], v[1])
            if not isinstance(C, (Cls, Func)):
                ctx.find("G-import", s + "." + k, labels.INI,
                         "section [%s] imports %s, which does not exist" % (s, txt))
                continue
            if s.startswith("step_"):
                if not isinstance(C, Cls):
                    ctx.find("G-import", s + "." + k, labels.INI,
                             "%s is not a step class" % txt)
                    continue
                steps[s] = C
            elif isinstance(C, Cls):        # hooks
                for hk in ("pre_evolve", "pre_step", "post_step", "post_evolve"):
                    ctx.instance("G-import", v[1] + "." + hk)
                    if repo.find_method(C, hk) is None:
                        ctx.find("G-import", v[1] + "." + hk, C.key,
                                 "hook class %s has no %s" % (v[1], hk))
    for s, C in sorted(steps.items()):
        one_step(ctx, s, C, ini[s], tm, tm_def)
    effects(ctx, steps, tm)
    grid_paths(ctx, ini)
    sections(ctx, ini)
    population(ctx, ini)
    columns(ctx, ini)


def accepted(ctx, C):
    """Parameters of a step: its table and the explicit ones of __init__."""
    tab = ctx.consts.class_attr(C, "DEFAULT_KWARGS")
    names = set(tab) if isinstance(tab, dict) else set()
    expl = {}
    for b in ctx.repo.mro(C):
        f = b.methods.get("__init__")
        if f is not None:
            for a in (f.node.args.args + f.node.args.kwonlyargs)[1:]:
                expl[a.arg] = b
    return names, set(expl)


def one_step(ctx, s, C, sec, tm, tm_def):
    repo = ctx.repo
    vn.reset()
    table, expl = accepted(ctx, C)
    uses_tm = "track_matcher" in table
    ok = table | expl | (set(tm_def) if uses_tm else set())
    opts = [k for k in sec if not k.startswith(IMPORTS)]
    for o in opts:
        ctx.instance("G-param", s + "." + o)
        if o not in ok:
            ctx.find("G-param", s + "." + o, labels.INI,
                     "option %s of [%s] is not a parameter of %s%s" % (
                         o, s, C.name, " nor of TrackMatcher" if uses_tm else ""))
    given = sorted(((table | expl | (set(tm_def) if uses_tm else set())) - AUTO))
    syms = {o: sym("opt_" + o) for o in given}
    ev, h, me, rp = load_step(ctx, s, C, syms)
    x = h.get((me, s)) if h else None
    if not given and repo.find_method(C, "__init__") is None:
        return
    if x is None or x.k != "inst":
        ctx.find("G-stored", s, "SimulationProperties.load_a_step",
                 "loading %s with its own parameters does not give a %s" % (
                     s, C.name))
        return
    t = h.get((x, "track_matcher")) if uses_tm else None
    if uses_tm and (t is None or t.k != "inst"):
        ctx.find("G-plumb", s + ".track_matcher", C.key,
                 "step %s is loaded without its track matcher" % s)
        t = None
    for o in given:
        holders = []
        if uses_tm and o in tm_def:
            if t is not None:
                holders.append(("TrackMatcher", t))
            if o in table and o in ("metallicity", "verbose"):
                holders.append((C.name, x))
        else:
            holders.append((C.name, x))
        for hn, node in holders:
            ctx.instance("G-stored", "%s.%s -> %s" % (s, o, hn))
            v = h.get((node, o))
            if v is None:
                # a parameter consumed on the spot must still be mentioned
                if not any(k[0] is node and mentions(y, syms[o])
                           for k, y in h.items()):
                    ctx.find("G-stored", "%s.%s" % (hn, o), C.key,
                             "value given for %s of %s is dropped" % (o, hn))
                continue
            if v is syms[o]:
                continue
            if not mentions(v, syms[o]):
                ctx.find("G-stored", "%s.%s" % (hn, o), C.key,
                         "value given for %s of %s is replaced by %s" % (
                             o, hn, vn.show(v)[:120]))
                continue
            for leaf, conds in paths(v, syms[o]):
                if not any(explicit(q, pos) for q, pos in conds):
                    ctx.find("G-stored", "%s.%s" % (hn, o), C.key,
                             "value given for %s of %s is replaced by %s although "
                             "no option is None or names that case" % (
                                 o, hn, vn.show(leaf)[:100]))
    # plumbing
    for p, src in (("RNG", sym("RNG")), ("metallicity", sym("metallicity"))):
        if p in table:
            ctx.instance("G-plumb", s + "." + p)
            v = h.get((x, p))
            if v is None or not mentions(v, src):
                ctx.find("G-plumb", s + "." + p, C.key,
                         "%s given when loading %s does not reach it" % (p, s))
    if "grid_path" in table:
        ctx.instance("G-plumb", s + ".grid_path")
        want = s.replace("step_", "", 1) + "_path"
        v = h.get((x, "grid_path"))
        if v is None or not any(n.k == "attr" and n.a[1] == want
                                for n in subnodes(v)):
            ctx.find("G-plumb", s + ".grid_path", C.key,
                     "%s reads the grid %s instead of %s" % (
                         s, vn.show(v)[:60] if v is not None else None, want))
    if t is not None:
        for g, a in (("grid_Hrich", "single_HMS_path"),
                     ("grid_strippedHe", "single_HeMS_path")):
            ctx.instance("G-plumb", s + "." + g)
            v = h.get((t, g))
            if v is None or not any(n.k == "attr" and n.a[1] == a
                                    for n in subnodes(v)):
                ctx.find("G-plumb", s + "." + g, tm.key,
                         "%s of the track matcher is not read from %s" % (g, a))
        ctx.instance("G-plumb", s + ".matcher metallicity")
        v = h.get((t, "metallicity"))
        if v is None or not mentions(v, sym("metallicity")):
            ctx.find("G-plumb", s + ".matcher", tm.key,
                     "the track matcher of %s has another metallicity" % s)
    # switches of the integrated object
    evo = h.get((x, "evo"))
    if evo is not None and evo.k == "inst":
        for o in sorted(table):
            if not (o.startswith("do_") or o == "magnetic_braking_mode"):
                continue
            ctx.instance("G-evo", s + "." + o)
            v = h.get((evo, o))
            if v is syms[o]:
                continue
            shipped = literal(sec[o]) if o in sec else UNKNOWN
            if v is not None and v.k == "c" and v.a[0] == shipped and \
                    type(v.a[0]) is type(shipped):
                continue        # fixed by the class to the shipped value
            ctx.find("G-evo", s + "." + o, C.key,
                     "switch %s of %s does not reach the integrated object: %s" % (
                         o, s, vn.show(v)[:80] if v is not None else None))
    # unknown option
    vn.reset()
    ctx.instance("G-reject", s)
    if repo.find_method(C, "__init__") is None or not table:
        init = repo.find_method(C, "__init__")
        if init is not None and init.node.args.kwarg is not None:
            ctx.find("G-reject", s, C.key, "unknown options of %s are swallowed" % s)
    else:
        _, h2, _, rp2 = load_step(ctx, s, C, {
            **{o: sym("opt_" + o) for o in given}, "no_such_option_": sym("x")})
        if not (rp2 is TRUE or h2 is None):
            ctx.find("G-reject", s, C.key,
                     "an option %s does not know is accepted silently" % s)
    # shipped values
    vn.reset()
    ctx.instance("G-value", s)
    vals = {}
    for o in opts:
        v = literal(sec[o])
        ev0 = Evaluator(repo, ctx.consts)
        n = None if v is UNKNOWN else ev0.const_node(v)
        vals[o] = n if n is not None else sym("opt_" + o)
    _, h3, _, rp3 = load_step(ctx, s, C, vals)
    if rp3 is TRUE or h3 is None:
        ctx.find("G-value", s, labels.INI,
                 "the shipped values of [%s] are refused by %s" % (s, C.name))


def effects(ctx, steps, tm):
    """Attribute reads by class family (prints excluded)."""
    repo = ctx.repo
    fam = {}
    for C in list(steps.values()) + [tm]:
        for b in repo.mro(C):
            own = any(isinstance(st, (ast.Assign, ast.AnnAssign)) and
                      "DEFAULT_KWARGS" in ast.unparse(st).split("=")[0]
                      for st in b.node.body)
            if own and isinstance(ctx.consts.class_attr(b, "DEFAULT_KWARGS"), dict):
                fam.setdefault(b.key, (b, set()))
    for b, mods in fam.values():
        for k in repo.mro(b) + list(repo.subclasses(b)):
            mods.add(k.mod.rel)
    reads = {}
    for f in repo.functions():
        if f.name == "__repr__":
            continue
        skip = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == "print":
                skip |= {id(m) for m in ast.walk(n)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
                    id(n) not in skip:
                base = ast.unparse(n.value)
                reads.setdefault(n.attr, set()).add((f.mod.rel, base))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == "getattr" and len(n.args) > 1 and \
                    isinstance(n.args[1], ast.Constant):
                reads.setdefault(n.args[1].value, set()).add(
                    (f.mod.rel, ast.unparse(n.args[0])))
    for b, mods in fam.values():
        for k in sorted(ctx.consts.class_attr(b, "DEFAULT_KWARGS")):
            if k in AUTO:
                continue        # handed over while loading: G-plumb
            ctx.instance("G-effect", b.name + "." + k)
            r = [x for x in reads.get(k, ()) if x[0] in mods or
                 x[1].endswith("track_matcher") or "step" in x[1]]
            if not r:
                ctx.find("G-effect", b.name + "." + k, b.key,
                         "parameter %s of %s is accepted but never used" % (
                             k, b.name))


def grid_paths(ctx, ini):
    SP = ctx.repo.cls("SimulationProperties")
    tab = ctx.consts.class_attr(SP, "default_grid_paths")
    if not isinstance(tab, dict):
        # names only
        tab = {}
        for st in SP.node.body:
            if isinstance(st, ast.Assign) and ast.unparse(st.targets[0]) == \
                    "default_grid_paths" and isinstance(st.value, ast.Dict):
                tab = {k.value: None for k in st.value.keys
                       if isinstance(k, ast.Constant)}
    have = set(ini.get("grid_paths", {}))
    for k in sorted(set(tab) | have):
        ctx.instance("G-paths", k)
        if k not in tab:
            ctx.find("G-paths", k, labels.INI, "grid path %s is unknown to "
                     "SimulationProperties" % k)
        elif k not in have:
            ctx.find("G-paths", k, labels.INI, "grid path %s cannot be set from the "
                     "shipped configuration" % k)
    for f in ctx.repo.functions():
        if f.cls is None or f.cls.name != "SimulationProperties":
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                    n.value.id == "self" and n.attr.endswith("_path") and \
                    n.attr not in ("set_path",):
                ctx.instance("G-paths", f.qual + ":" + n.attr)
                if n.attr not in tab:
                    ctx.find("G-paths", "self." + n.attr, f.key,
                             "%s is not one of the grid paths" % n.attr)


def sections(ctx, ini):
    vn.reset()
    repo = ctx.repo
    SP = repo.cls("SimulationProperties")
    f = repo.find_method(SP, "__init__")
    ev = Evaluator(repo, ctx.consts, max_depth=3, noinline=["set_path",
                                                           "preload_imports"])
    me = sym("self")
    names = [s for s in ini if s.startswith("step_") or s in ("flow", "extra_hooks")]
    a = f.node.args
    params = {x.arg for x in a.args + a.kwonlyargs}
    args, kw = {}, []
    for s in names:
        v = mk("tuple", sym("class_" + s), sym("kwargs_" + s)) \
            if s != "extra_hooks" else ev.mkdict([]) and mk("list")
        if s in params:
            args[s] = v
        elif a.kwarg:
            kw.append((c(s), v))
        else:
            ctx.find("G-section", s, f.key, "section [%s] is not accepted by "
                     "SimulationProperties" % s)
    for p in ini.get("grid_paths", {}):
        kw.append((c(p), sym(p)))
    if a.kwarg:
        args[a.kwarg.arg] = ev.mkdict(kw)
    ev.no_exc = True
    _, h, rp, _ = ev.run(f, args, self_node=me)
    d = h.get((me, "kwargs")) if h else None
    if d is None or d.k != "dict":
        raise AnalysisBroken("SimulationProperties.kwargs is not a dictionary")
    got = {k.a[0]: v for k, v in d.a if vn.isstr(k)}
    for s in names:
        ctx.instance("G-section", s)
        if s == "extra_hooks":
            if s not in got:
                ctx.find("G-section", s, f.key, "extra hooks are dropped")
            continue
        v = got.get(s)
        if v is None or v.k != "tuple" or v.a[0] is not sym("class_" + s) or \
                v.a[1] is not sym("kwargs_" + s):
            ctx.find("G-section", s, f.key,
                     "the configuration of %s is replaced by %s" % (
                         s, vn.show(v)[:80] if v is not None else None))


def population(ctx, ini):
    repo = ctx.repo
    keys = {}
    for s in ("BinaryPopulation_options", "BinaryStar_output",
              "SingleStar_1_output", "SingleStar_2_output"):
        for k in ini.get(s, {}):
            keys.setdefault(k, "[%s] of the configuration" % s)
    tab = ctx.consts.get("posydon/popsyn/defaults.py", "default_kwargs")
    if not isinstance(tab, dict):
        raise AnalysisBroken("popsyn.defaults.default_kwargs is not constant")
    for k in tab:
        keys.setdefault(k, "popsyn/defaults.py")
    used = {}
    for f in repo.functions():
        if not f.mod.rel.startswith(("posydon/popsyn/", "posydon/binary_evol/")):
            continue
        a = f.node.args
        for x in a.args + a.kwonlyargs:
            if f.mod.rel.startswith("posydon/popsyn/"):
                used.setdefault(x.arg, f.key)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and \
                    isinstance(n.slice, ast.Constant):
                used.setdefault(n.slice.value, f.key)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ("get", "pop") and n.args and \
                    isinstance(n.args[0], ast.Constant):
                used.setdefault(n.args[0].value, f.key)
    for k, where in sorted(keys.items()):
        ctx.instance("G-pop", k)
        if k not in used:
            ctx.find("G-pop", k, where, "population option %s is read nowhere" % k)


def columns(ctx, ini):
    B = ctx.consts.get("posydon/binary_evol/binarystar.py", "BINARYPROPERTIES")
    S = ctx.consts.get("posydon/binary_evol/singlestar.py", "STARPROPERTIES")
    if B is UNKNOWN or S is UNKNOWN:
        raise AnalysisBroken("property tables are not constant")
    for s, tab in (("BinaryStar_output", set(B)), ("SingleStar_1_output", set(S)),
                   ("SingleStar_2_output", set(S))):
        v = literal(ini.get(s, {}).get("only_select_columns", "[]"))
        if v is UNKNOWN:
            raise AnalysisBroken("only_select_columns of [%s] is not a literal" % s)
        for col in v:
            ctx.instance("G-cols", s + ":" + col)
            if col not in tab:
                ctx.find("G-cols", s + "." + col, labels.INI,
                         "selected column %s is not a property" % col)
