"""Detached evolution follows the published rate formulas.

Every orbital and spin rate of detached evolution, the Roche-lobe and end-of-life
events and the inspiral of double compact objects is brought into normal form
(value numbering, all helpers inlined) and compared with an independent reference
formula in spec/detached.py on every path.
"""
from .. import vn
from ..repo import AnalysisBroken
from ..spec import spread, Pair, load
from ..vn import FALSE, TRUE, c, mk, sym
from .c03 import FLAGS, modes

ASSUMPTIONS = [
    "arithmetic is compared up to real-number algebra, not floating point rounding",
    "external numerical functions (numpy, scipy) are pure functions of their arguments",
    "the reference formulas in /verif/spec/detached.py transcribe the cited papers",
]
D = "posydon/binary_evol/DT/"
PRES = [
    ("gravitational_radiation/default_gravrad.py", "default_gravrad", "gravrad",
     ("a", "e", "primary", "secondary"), ("da", "de")),
    ("tides/default_tides.py", "default_tides", "tides",
     ("a", "e", "primary", "secondary"), ("da", "de", "dOmega_sec", "dOmega_pri")),
    ("winds/default_winds.py", "default_sep_from_winds", "sep_from_winds",
     ("a", "e", "primary", "secondary"), ("da",)),
    ("winds/default_winds.py", "default_spin_from_winds", "spin_from_winds",
     ("a", "e", "primary", "secondary"), ("dOmega_sec", "dOmega_pri")),
    ("magnetic_braking/prescriptions.py", "RVJ83_braking", "rvj83",
     ("primary", "secondary"), ("dOmega_sec", "dOmega_pri")),
    ("magnetic_braking/prescriptions.py", "M15_braking", "m15",
     ("primary", "secondary"), ("dOmega_sec", "dOmega_pri")),
    ("magnetic_braking/prescriptions.py", "G18_braking", "g18",
     ("primary", "secondary"), ("dOmega_sec", "dOmega_pri")),
    ("magnetic_braking/prescriptions.py", "CARB_braking", "carb",
     ("primary", "secondary"), ("dOmega_sec", "dOmega_pri")),
]
RHS = {"do_tides": "rhs_tides", "do_gravitational_radiation": "rhs_gravrad",
       "do_wind_loss": "rhs_sep_winds",
       "do_stellar_evolution_and_spin_from_winds": "rhs_spin_winds",
       "do_magnetic_braking": "rhs_braking"}


def check(ctx):
    repo = ctx.repo
    ctx.rule("F-rate", "each prescription function is the published rate", 6)
    ctx.rule("F-rhs", "the right-hand side adds up the published rates", 12)
    ctx.rule("F-event", "event functions are zero at the documented condition", 4)
    ctx.rule("F-inspiral", "double compact objects follow Peters 1964", 1)
    sp = load(ctx, "detached")
    for rel, q, s, args, names in PRES:
        try:
            f = repo.module(D + rel).functions.get(q)
        except AnalysisBroken:
            f = None
        if f is None:
            ctx.note("%s not found, judged through the right-hand side" % q)
            continue
        vn.reset()
        Pair(ctx, "F-rate").compare(q, f, sp.functions[s],
                                    [sym(a) for a in args], names)
    cls = repo.cls("detached_evolution", D + "step_detached.py")
    f = repo.find_method(cls, "__call__")
    if f is None:
        raise AnalysisBroken("detached_evolution.__call__ not found")
    if repo.find_method(cls, "update_props") is None:
        ctx.note("update_props not found: rates judged per prescription only")
    md = [m for m in modes(ctx, cls) if m in ("RVJ83", "M15", "G18", "CARB")]
    cases = [([fl], None) for fl in FLAGS if fl != "do_magnetic_braking"]
    cases += [(["do_magnetic_braking"], m) for m in md]
    for on, mode in cases:
        vn.reset()
        me = sym("self")
        heap = {(me, "primary"): sym("primary"), (me, "secondary"): sym("secondary"),
                (me, "verbose"): FALSE}
        for fl in FLAGS:
            heap[(me, fl)] = TRUE if fl in on else FALSE
        if mode is not None:
            heap[(me, "magnetic_braking_mode")] = c(mode)
        y = mk("list", sym("a"), sym("e"), sym("O_sec"), sym("O_pri"))
        p = Pair(ctx, "F-rhs")
        p.setup = lambda ev: ev.types.setdefault(me.id, cls)
        g = sp.functions[RHS[on[0]]]
        v, h, rp, _ = p.run(f, [sym("t"), y], me, heap)
        w, h2, rp2, _ = p.run(g, [me, sym("t"), y], None, heap)
        label = FLAGS[on[0]] + (" (%s)" % mode if mode else "")
        vs, ws = spread(v, 4), spread(w, 4)
        dc = p.both(label, f, rp, rp2)
        if vs is None or ws is None:
            p.same(label, v, w, f.key, dc)
            continue
        for nm, a, b in zip(("da", "de", "dOmega_sec", "dOmega_pri"), vs, ws):
            p.same("%s:%s" % (label, nm), a, b, f.key, dc)
    # all processes at once: the rates add up, whichever way they are computed
    for nm in ("ev_rlo1", "ev_rlo2", "ev_rel_rlo1", "ev_rel_rlo2", "ev_max_time1",
               "ev_max_time2"):
        f = repo.find_method(cls, nm)
        if f is None:
            ctx.note("event %s not found" % nm)
            continue
        vn.reset()
        me = sym("self")
        heap = {(me, "primary"): sym("primary"), (me, "secondary"): sym("secondary")}
        p = Pair(ctx, "F-event")
        v, h, rp, _ = p.run(f, [sym("t"), sym("y")], me, heap)
        w, h2, rp2, _ = p.run(sp.functions[nm], [sym("primary"), sym("secondary"),
                                                 sym("t"), sym("y")])
        p.same(nm, v, w, f.key)
    cls = repo.cls("double_CO_evolution", D + "double_CO.py")
    f = repo.find_method(cls, "__call__")
    vn.reset()
    me = sym("self")
    heap = {(me, "do_gravitational_radiation"): TRUE}
    Pair(ctx, "F-inspiral").compare(
        "rhs", f, sp.functions["inspiral"], [sym("s"), sym("y")],
        ("dln(e)", "dtau", "dOmega_sec", "dOmega_pri"), me, heap)
