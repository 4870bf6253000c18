"""Detached physics is symmetric under exchange of the two stars.

Every prescription and the right-hand side of the detached orbit integration is
brought into gated normal form (value numbering with inlining of all helpers);
the same normal form with primary/secondary and their spins exchanged must be
the normal form of the exchanged output.  Decided separately for every process
switch and every magnetic-braking mode.
"""
import ast

from .. import vn
from ..ev import Evaluator
from ..mirror import Swap, describe, mirror_heap
from ..repo import AnalysisBroken, Cls, Func
from ..vn import FALSE, TRUE, c, mk, sym

ASSUMPTIONS = [
    "arithmetic is compared up to real-number algebra, not floating point rounding",
    "external numerical functions (numpy, scipy) are pure functions of their arguments",
]
FLAGS = {"do_tides": "tides", "do_gravitational_radiation": "gravitational radiation",
         "do_magnetic_braking": "magnetic braking", "do_wind_loss": "orbital winds",
         "do_stellar_evolution_and_spin_from_winds": "spin from winds"}


def swap_ps():
    return Swap(syms=[("primary", "secondary"), ("O_pri", "O_sec")],
                attrs=[("primary", "secondary")], regex=False)


def modes(ctx, cls):
    """String constants self.magnetic_braking_mode is compared with."""
    out = []
    for m in cls.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Compare) and len(n.comparators) == 1:
                l, r = n.left, n.comparators[0]
                if "magnetic_braking_mode" in ast.dump(l):
                    for x in ast.walk(r):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            out.append(x.value)
            if isinstance(n, ast.Dict):
                ks = [k.value for k in n.keys if isinstance(k, ast.Constant)
                      and isinstance(k.value, str)]
                if "RVJ83" in ks:
                    out += ks
    return list(dict.fromkeys(out))


def evolution(ctx, on, mode=None):
    """Normal form of the right-hand side with exactly the processes `on`."""
    repo = ctx.repo
    cls = repo.cls("detached_evolution",
                   "posydon/binary_evol/DT/step_detached.py")
    f = repo.find_method(cls, "__call__")
    if f is None:
        raise AnalysisBroken("detached_evolution.__call__ not found")
    ev = Evaluator(repo, ctx.consts, max_depth=8)
    me = sym("self")
    heap = {(me, "primary"): sym("primary"), (me, "secondary"): sym("secondary"),
            (me, "verbose"): FALSE}
    if on is not None:
        for fl in FLAGS:
            heap[(me, fl)] = TRUE if fl in on else FALSE
    if mode is not None:
        heap[(me, "magnetic_braking_mode")] = c(mode)
    y = mk("list", sym("a"), sym("e"), sym("O_sec"), sym("O_pri"))
    v, h, rp, fr = ev.run(f, args={"y": y, "t": sym("t")}, self_node=me, heap=heap)
    return v, h, ev, f


def check(ctx):
    repo = ctx.repo
    ctx.rule("M-rhs", "rates with one process on are the mirror of themselves", 8)
    ctx.rule("M-pres", "each prescription function is mirror symmetric", 7)
    ctx.rule("M-event", "the paired integration events are mirrors", 3)
    ctx.rule("M-props", "per-star state prepared for the integration is mirrored", 4)
    cls = repo.cls("detached_evolution", "posydon/binary_evol/DT/step_detached.py")
    md = modes(ctx, cls)
    cases = [([fl], None) for fl in FLAGS if fl != "do_magnetic_braking"]
    cases += [(["do_magnetic_braking"], m) for m in md]
    cases += [([], None)]
    called = {}
    for on, mode in cases:
        vn.reset()
        v, h, ev, f = evolution(ctx, on, mode)
        label = (FLAGS[on[0]] if on else "all processes off") + \
            (" (%s)" % mode if mode else "")
        if v is None or v.k not in ("list", "tuple") or len(v.a) != 4:
            raise AnalysisBroken("right-hand side is not a list of 4 rates: %s" % v)
        sw = swap_ps()
        memo = {}
        w = [vn.rebuild(x, sw, memo) for x in v.a]
        ctx.count("functions inlined", len(ev.inlined))
        for i, j, nm in ((0, 0, "da"), (1, 1, "de"), (2, 3, "dOmega")):
            ctx.instance("M-rhs", label + ":" + nm)
            if w[i] is not v.a[j]:
                ctx.find("M-rhs", "%s:%s" % (label, nm),
                         "%s (inlining %s)" % (f.key, ", ".join(sorted(
                             k.split(":")[1] for k in ev.inlined))),
                         "rate %s is not symmetric in the stars: %s"
                         % (nm, describe(v.a[j], w[i])))
        # what is stored on the stars
        bad, n = mirror_heap(h, sw, lambda k: k[0] is not sym("self"))
        ctx.instance("M-props", label, n=n)
        for k, a, b in bad:
            ctx.find("M-props", "%s.%s" % (vn.show(k[0]), k[1] if isinstance(
                k[1], str) else vn.show(k[1])), f.key,
                "stored value is not mirrored: %s" % describe(a, b))
    # the single prescriptions, also when no switch selects them
    for rel in [m.rel for m in repo.modules.values()
                if m.rel.startswith("posydon/binary_evol/DT/")]:
        for f in repo.module(rel).functions.values():
            names = [a.arg for a in f.node.args.args]
            if not {"primary", "secondary"} <= set(names) or names[0] == "self":
                continue
            vn.reset()
            ev = Evaluator(repo, ctx.consts, max_depth=8)
            v, h, rp, fr = ev.run(f, args={"verbose": FALSE})
            if v is None:
                continue
            sw = swap_ps()
            memo = {}
            vals = list(v.a) if v.k in ("tuple", "list") else [v]
            w = [vn.rebuild(x, sw, memo) for x in vals]
            n = len(vals)
            pairs = {1: [(0, 0)], 2: [(0, 1)], 4: [(0, 0), (1, 1), (2, 3)]}.get(n)
            if pairs is None:
                ctx.note("prescription %s returns %d values, skipped" % (f.key, n))
                continue
            if n == 2 and {"a", "e"} <= set(names) and not _spin(f):
                pairs = [(0, 0), (1, 1)]
            for i, j in pairs:
                ctx.instance("M-pres", f.qual)
                if w[i] is not vals[j]:
                    ctx.find("M-pres", "%s:%d" % (f.qual, i), f.key,
                             "result %d is not mirror symmetric: %s"
                             % (i, describe(vals[j], w[i])))
    # paired events
    pairs = [("ev_rlo1", "ev_rlo2"), ("ev_rel_rlo1", "ev_rel_rlo2"),
             ("ev_max_time1", "ev_max_time2")]
    for a, b in pairs:
        fa, fb = repo.find_method(cls, a), repo.find_method(cls, b)
        if fa is None or fb is None:
            ctx.note("event pair %s/%s not found" % (a, b))
            continue
        ctx.instance("M-event", a + "/" + b)
        # any normalisation under which both sides coincide is a proof
        for noin in ({"roche_lobe_radius", "orbital_separation_from_period"}, ()):
            vn.reset()
            res = []
            for f in (fa, fb):
                ev = Evaluator(repo, ctx.consts, max_depth=6, noinline=noin)
                me = sym("self")
                res.append(ev.run(f, self_node=me, heap={
                    (me, "primary"): sym("primary"),
                    (me, "secondary"): sym("secondary")})[0])
            m = vn.rebuild(res[0], swap_ps())
            if m is res[1]:
                break
        if m is not res[1]:
            ctx.find("M-event", a + "/" + b, fb.key,
                     "event of one star is not the mirror of the other: %s"
                     % describe(res[1], m))
        # the integrator attributes (terminal, direction) must agree as well
        da = [ast.unparse(d) for d in fa.node.decorator_list]
        db = [ast.unparse(d) for d in fb.node.decorator_list]
        if da != db:
            ctx.find("M-event", a + "/" + b + ":decorator", fb.key,
                     "events differ in their solver attributes: %s / %s" % (da, db))


def _spin(f):
    """Two-valued prescriptions returning spins (rather than da, de)."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
            t = ast.unparse(n.value).lower()
            return "omega" in t or "sec" in t
    return False
