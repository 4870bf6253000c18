"""The detached step ends where its integration ends and records it in the
documented units.

The step, its output times, its bookkeeping of both stars and the binary, and
the inspiral of two compact objects are brought into normal form and compared
with the reference behaviour in spec/detached_step.py.
"""
import ast

from .. import vn
from ..repo import AnalysisBroken
from ..spec import Pair, load, spread
from ..vn import FALSE, TRUE, NONE, c, ite, mk, or_, sym

ASSUMPTIONS = [
    "arithmetic is compared up to real-number algebra, not floating point rounding",
    "the integrator of scipy returns the solution and events it documents",
    "the reference in /verif/spec/detached_step.py transcribes the documented "
    "behaviour and units",
]
REL = "posydon/binary_evol/DT/step_detached.py"
DCO = "posydon/binary_evol/DT/double_CO.py"


def check(ctx):
    ctx.rule("D-values", "stored quantities are the integrated ones, in their unit", 10)
    ctx.rule("D-times", "output times end at the end of the integration", 1)
    ctx.rule("D-event", "the event that stops the integration is the one reported", 4)
    ctx.rule("D-start", "the integration starts from the binary and stops at events", 4)
    ctx.rule("D-inspiral", "inspiral of two compact objects", 3)
    values(ctx)
    compact(ctx)
    times(ctx)
    start(ctx)
    events(ctx)
    inspiral(ctx)


def values(ctx):
    repo = ctx.repo
    sp = load(ctx, "detached_step")
    cls = repo.cls("detached_step", REL)
    f = repo.find_method(cls, "update_after_evo")
    if f is None:
        raise AnalysisBroken("no update_after_evo in detached_step")
    for order in (0, 1):
        vn.reset()
        me, b, P, S, t = [sym(x) for x in ("self", "binary", "PRI", "SEC", "t")]
        vn.DISTINCT.update([b, P, S])
        heap = {(b, "star_1"): S if order else P, (b, "star_2"): P if order else S,
                (P, "co"): FALSE, (S, "co"): FALSE}
        heap[me, "translate"] = made(ctx, cls, me, "translate")
        p = Pair(ctx, "D-values", noinline={"zero_negative_values", "ev_rel_rlo1", "ev_rel_rlo2"})
        p.setup = lambda ev: ev.types.setdefault(me.id, cls)
        v, h, rp, _ = p.run(f, [t, b, P, S], me, heap)
        p.setup = None
        g = sp.functions["record_star"]
        for star, which, nm in ((P, 3, "primary"), (S, 2, "secondary")):
            v2, h2, rp2, _ = p.run(g, [me, t, star, c(which)], None, heap)
            for (o, k) in sorted((x for x in h2 if x[0] is star), key=str):
                if k == "co":
                    continue
                p.same("%s star:%s" % (nm, k), h.get((o, k)), h2[o, k], f.key,
                       or_(rp or FALSE, rp2 or FALSE))
        v2, h2, rp2, _ = p.run(sp.functions["record_binary"], [me, t, b, P, S], None, heap)
        for (o, k) in sorted((x for x in h2 if x[0] is b), key=str):
            if k in ("star_1", "star_2"):
                continue
            p.same("binary%d:%s" % (order, k), h.get((o, k)), h2[o, k], f.key,
                   or_(rp or FALSE, rp2 or FALSE))


def made(ctx, cls, me, name):
    """The value the constructor gives to an attribute."""
    f = ctx.repo.find_method(cls, "__init__")
    p = Pair(ctx, "D-values", noinline={"init_evo_kwargs"}, depth=2)
    p.setup = lambda ev: ev.types.setdefault(me.id, cls)
    v, h, rp, _ = p.run(f, {"kwargs": mk("dict")}, me, {})
    if (me, name) not in h:
        raise AnalysisBroken("detached_step sets no %s" % name)
    return h[me, name]


def compact(ctx):
    """Compact objects do not change while the companion evolves."""
    repo = ctx.repo
    cls = repo.cls("detached_step", REL)
    for nm in ("update_after_evo", "update_co_stars"):
        f = repo.find_method(cls, nm)
        if f is None:
            continue
        vn.reset()
        me, b, P, S, t = [sym(x) for x in ("self", "binary", "PRI", "SEC", "t")]
        vn.DISTINCT.update([b, P, S])
        heap = {(b, "star_1"): S, (b, "star_2"): P, (P, "co"): TRUE, (S, "co"): FALSE,
                (me, "translate"): made(ctx, cls, me, "translate")}
        p = Pair(ctx, "D-values", noinline={"zero_negative_values", "ev_rel_rlo1",
                                            "ev_rel_rlo2"})
        p.setup = lambda ev: ev.types.setdefault(me.id, cls)
        v, h, rp, _ = p.run(f, {"t": t, "binary": b, "primary": P, "secondary": S}, me,
                            heap)
        for (o, k), x in sorted(((k, x) for k, x in h.items() if k[0] is P
                                 and isinstance(k[1], str)), key=lambda z: z[0][1]):
            if k == "co" or k.endswith("_history"):
                continue
            p.same("%s: compact object:%s" % (nm, k), x, mk("attr", P, k), f.key,
                   rp or FALSE)
        if nm == "update_co_stars":
            v, h2, rp2, _ = p.run(load(ctx, "detached_step").functions["record_co"],
                                  [t, P], None, heap)
            for (o, k) in sorted((x for x in h2 if x[0] is P), key=lambda z: z[1]):
                if k.endswith("_history"):
                    p.same("%s: compact object:%s" % (nm, k), h.get((o, k)), h2[o, k],
                           f.key, or_(rp or FALSE, rp2 or FALSE))


def times(ctx):
    repo = ctx.repo
    sp = load(ctx, "detached_step")
    cls = repo.cls("detached_step", REL)
    f = repo.find_method(cls, "get_time_after_evo")
    vn.reset()
    me, b = sym("self"), sym("binary")
    p = Pair(ctx, "D-times")
    p.setup = lambda ev: ev.types.setdefault(me.id, cls)
    v, h, rp, _ = p.run(f, [b], me, {})
    w, h2, rp2, _ = p.run(sp.functions["times"], [me, b], None, {})
    dc = p.both("output times", f, rp, rp2)
    p.same("output times", v, w, f.key, dc)


SKIP = {"set_stars", "ev_rlo1", "ev_rlo2", "ev_rel_rlo1", "ev_rel_rlo2", "bondi_hoyle",
        "check_state_of_star", "get_time_after_evo", "get_next_step_name",
        "all_step_names"}


def events(ctx):
    repo = ctx.repo
    sp = load(ctx, "detached_step")
    cls = repo.cls("detached_step", REL)
    tm = repo.cls("TrackMatcher")
    f = repo.find_method(cls, "__call__")
    g = sp.functions["detached"]
    HE, CO = "stripped_He_Core_He_burning", "BH"
    for swap in (0, 1):
        for pco in ("star", "co", "none", "both"):
            for only in (FALSE, TRUE):
                vn.reset()
                me, b, P, S, T, R = [sym(x) for x in ("self", "binary", "PRI", "SEC",
                                                      "t", "RES")]
                vn.DISTINCT.update([b, P, S])
                ev4 = [sym("event%d" % i) for i in range(4)]
                heap = {(b, "star_1"): S if swap else P, (b, "star_2"): P if swap else S,
                        (P, "co"): TRUE if pco in ("co", "both") else FALSE,
                        (S, "co"): TRUE if pco == "both" else FALSE,
                        (R, "t_events"): mk("list", *ev4)}
                if pco == "none":
                    heap[P, "state"] = c("massless_remnant")
                elif pco == "co":
                    heap[P, "state"] = c("BH")
                marks = []

                def mark(name):
                    def fn(ev, args, kw, st, fr):
                        a = list(args) + list(kw.values())
                        who = [x for x in a if x is P or x is S]
                        for x in who:
                            st.heap[x, name] = TRUE
                        return NONE
                    return fn
                def rec(name, result):
                    m = repo.find_method(cls, name)
                    ps = [x.arg for x in m.node.args.args][1:] if m else []

                    def fn(ev, args, kw, st, fr):
                        a = [x for x in args if x is not me]
                        d = dict(zip(ps, a))
                        d.update(kw)
                        st.heap[me, "call " + name] = mk("tuple", *[
                            d.get(x, c("missing")) for x in ps])
                        return result
                    return fn
                p = Pair(ctx, "D-event", noinline=SKIP, overrides={
                    "do_matching": lambda *a: mk("tuple", P, S, only),
                    "solve_ODEs": rec("solve_ODEs", R),
                    "get_time_after_evo": lambda *a: T,
                    "update_after_evo": rec("update_after_evo", NONE),
                    "update_co_stars": rec("update_co_stars", NONE),
                    "set_binary_to_failed": lambda *a: NONE,
                    "get_star_final_values": mark("final values"),
                    "get_star_profile": mark("final profile")})

                def setup(ev):
                    ev.no_exc = True
                    ev.types.setdefault(me.id, cls)
                    ev.types[mk("attr", me, "track_matcher").id] = tm
                p.setup = setup
                v, h, rp, _ = p.run(f, [b], me, heap)
                v, h2, rp2, _ = p.run(g, [me, b, P, S, only], None, heap)
                lab = "%s %s%s" % ("secondary=star_1" if swap else "secondary=star_2",
                                   pco, " CO only" if only is TRUE else "")
                dc = p.both(lab, f, rp, rp2)
                for o, on, keys in (
                        (b, "binary", ("state", "event", "separation", "orbital_period",
                                       "eccentricity", "time", "V_sys")),
                        (P, "primary", ("state", "lg_mdot", "mass", "t_max", "t_offset",
                                        "final values", "final profile", "radius")),
                        (S, "secondary", ("state", "lg_mdot", "mass", "t_max", "t_offset",
                                          "final values", "final profile")),
                        (mk("attr", P, "interp1d"), "primary track", ("offset",)),
                        (mk("attr", S, "interp1d"), "secondary track", ("offset",)),
                        (me, "step", ("max_time", "call solve_ODEs",
                                      "call update_after_evo", "call update_co_stars"))):
                    for k in keys:
                        d = mk("attr", o, k)
                        p.same("%s: %s.%s" % (lab, on, k), h.get((o, k), d),
                               h2.get((o, k), d), f.key, dc)
                rows(ctx, f, lab, h, {"star": (P, S), "co": (P, S), "none": (S,),
                                      "both": ()}[pco])


def root(n):
    while n.k in ("concat", "upd", "idx"):
        n = n.a[0]
    return n


def inner(v):
    for x in vn.leaves(v):
        if x.k == "loop":
            yield from inner(x.a[2])
        else:
            yield x


def rows(ctx, f, lab, h, evolving):
    """The rows added to the history of an evolving star are classified from that
    star and that row."""
    seen = {s: 0 for s in evolving}
    for (o, k), v in h.items():
        if k == "state_history" and o in seen:
            seen[o] += 1
        if not isinstance(k, vn.N):
            continue
        r = root(o)
        if r.k != "attr" or r.a[1] not in ("state_history", "lg_mdot_history"):
            continue
        seen[r.a[0]] = seen.get(r.a[0], 0) + 1
        for x in inner(v):
            if x.k != "call" or "check_state_of_star" not in x.a[0]:
                continue
            d = dict(x.a[2]) if len(x.a) > 2 else {}
            a = list(x.a[1]) + list(d.values())
            ctx.instance("D-event", "%s rows of %s" % (lab, vn.show(r)))
            if r.a[0] not in a or k not in a or TRUE in a or r.a[1] != "state_history":
                ctx.find("D-event", "%s rows of %s" % (lab, vn.show(r)), f.key,
                         "row %s of %s is classified by %s" % (
                             vn.show(k)[:60], vn.show(r), vn.show(x)[:150]))
    for s, n in seen.items():
        ctx.instance("D-event", "%s rows of %s" % (lab, vn.show(s)))
        if not n:
            ctx.find("D-event", "%s rows of %s" % (lab, vn.show(s)), f.key,
                     "the rows added to the history are never classified")


def inspiral(ctx):
    repo = ctx.repo
    sp = load(ctx, "detached_step").functions
    cls = repo.cls("DoubleCO", DCO)
    f = repo.find_method(cls, "solve_ODEs")
    vn.reset()
    me, b, P, S, y = [sym(x) for x in ("self", "binary", "PRI", "SEC", "y")]
    vn.DISTINCT.update([b, P, S])
    p = Pair(ctx, "D-inspiral", noinline={"CO_radius"})
    seen = []

    def setup(ev):
        ev.types.setdefault(me.id, cls)
        ev.no_exc = True
    p.setup = setup
    v, h, rp, _ = p.run(f, [b, P, S], me, {})
    if v is None or v.k != "call" or not v.a[0].endswith("solve_ivp"):
        raise AnalysisBroken("DoubleCO.solve_ODEs does not return the result of solve_ivp")
    kw = dict(v.a[2])
    for nm, x in zip(("fun", "t_span", "y0"), v.a[1]):
        kw.setdefault(nm, x)
    p.setup = None
    e = mk("attr", b, "eccentricity")
    circular = vn.not_(vn.lt(c(0), e))
    w = spread(p.run(sp["inspiral_start"], [b, P, S])[0], 6)
    got = (spread(kw.get("t_span"), 2) or [None] * 2) + (spread(kw.get("y0"), 4)
                                                        or [None] * 4)
    for nm, x, z in zip(("start", "contact", "ln e", "tau", "spin 2", "spin 1"), got, w):
        p.same("integration " + nm, x, z, f.key,
               or_(rp or FALSE, circular if nm == "ln e" else FALSE))
    p.same("dense output", kw.get("dense_output"), TRUE, f.key)
    for n in ast.walk(f.node):
        if isinstance(n, ast.FunctionDef) and n is not f.node and n.decorator_list:
            stops(ctx, "D-inspiral", f.mod, f.node, n, 1)
    lam = kw.get("events")
    if lam is not None and lam.k in ("list", "tuple") and len(lam.a) == 1:
        lam = lam.a[0]
    if lam is not None and lam.k == "lam":
        z = p.run(sp["inspiral_event"], [b, P, S, mk("arg", 1, 0)])[0]
        p.same("maximum time", lam.a[1], z, f.key)
    else:
        ctx.note("event function of the inspiral not resolved")
    want = spread(p.run(sp["inspiral_result"], [b, P, S, v])[0], 4)
    yy = mk("attr", v, "y")
    for nm, key, z in (("status", (v, "status"), want[0]), ("separation", (yy, c(0)), want[1]),
                       ("eccentricity", (yy, c(1)), want[2]), ("time", (v, "t"), want[3])):
        x = h.get(key)
        if x is None and key[0] is yy:
            arr = h.get((v, "y"))
            if arr is not None:
                continue
            x = mk("idx", yy, key[1])
        if x is None:
            x = mk("attr", key[0], key[1])
        p.same("result " + nm, x, z, f.key, rp or FALSE)
    mt = h.get((me, "max_time"))
    p.same("maximum time of the step", mt,
           mk("attr", mk("attr", b, "properties"), "max_simulation_time"), f.key)
    d = h.get((v, "sol"))
    dense(ctx, p, sp, d, v, (b, P, S), f)
    ending(ctx, sp, cls)


def dense(ctx, p, sp, d, v, bps, f):
    if d is None or d.k != "call" or not d.a[0].startswith("new:"):
        ctx.note("dense output of the inspiral not resolved")
        return
    cls = ctx.repo.cls(d.a[0][4:], DCO)
    init = ctx.repo.find_method(cls, "__init__")
    call = ctx.repo.find_method(cls, "__call__")
    if cls is None or init is None or call is None:
        return
    ps = [x.arg for x in init.node.args.args][1:]
    args = dict(zip(ps, d.a[1]))
    args.update(dict(d.a[2]) if len(d.a) > 2 else {})
    me, t = sym("self"), sym("t")
    p.setup = lambda ev: ev.types.setdefault(me.id, cls)
    _, h0, _, _ = p.run(init, args, me, {})
    want = spread(p.run(sp["inspiral_dense"], list(bps) + [v])[0], 6)
    sol, a0, unit, t0, lo, hi = want
    if (me, "sol") not in h0:
        ctx.note("dense output of the inspiral keeps its solution elsewhere")
        return
    p.same("dense output solution", h0[me, "sol"], sol, init.key)
    r, h, rp, _ = p.run(call, [t], me, h0)
    from ..vn import div_, sub_
    tau = div_(sub_(t, t0), unit)
    n = set()
    for (o, k), x in h.items():
        if not (isinstance(k, vn.N) and k.k == "tuple" and len(k.a) == 2
                and vn.isnum(k.a[0])):
            continue
        i = k.a[1]
        if i.k == "idx" and i.a[0].k == "elem" and i.a[0].a[0].k == "call" \
                and i.a[0].a[0].a[0] == "enumerate":
            arr = i.a[0].a[0].a[1][0]
            p.same("dense output scaled time", arr, tau, call.key)
            z = spread(p.run(sp["dense_point"], [me, a0, lo, hi, mk("idx", i.a[0], c(1))],
                             None, {})[0], 4)
            val = x.a[2] if x.k == "loop" else x
            j = int(k.a[0].a[0])
            if j in range(4):
                p.same("dense output row %d" % j, val, z[j], call.key)
            n.add(j)
    ctx.count("rows of the dense output resolved", len(n))
    if n and n != {0, 1, 2, 3}:
        ctx.find("D-inspiral", "rows of the dense output", call.key,
                 "rows %s are filled, not the four integrated quantities" % sorted(n))


def ending(ctx, sp, cls):
    f = ctx.repo.find_method(cls, "__call__")
    vn.reset()
    me, b = sym("self"), sym("binary")
    base = ctx.repo.cls("detached_step", REL)
    p = Pair(ctx, "D-inspiral", overrides={
        ctx.repo.find_method(base, "__call__").key: lambda *a: NONE})
    p.setup = lambda ev: ev.types.setdefault(me.id, cls)
    v, h, rp, _ = p.run(f, [b], me, {})
    v, h2, rp2, _ = p.run(sp["inspiral_end"], [me, b], None, {})
    dc = p.both("end of the inspiral", f, rp, rp2)
    for k in ("state", "event", "time", "eccentricity", "separation", "orbital_period",
              "V_sys"):
        q = mk("attr", b, k)
        p.same("end of the inspiral: %s" % k, h.get((b, k), q), h2.get((b, k), q), f.key, dc)


def marks(mod, scope, fn):
    """(terminal, direction) of an event function, None where not set."""
    out = {"terminal": None, "direction": None}
    for d in fn.decorator_list:
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name):
            g = mod.functions.get(d.func.id)
            if g is None:
                continue
            a = g.node.args
            env = {}
            for x, v in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
                env[x.arg] = v
            env.update(zip([x.arg for x in a.args], d.args))
            env.update({k.arg: k.value for k in d.keywords})
            for n in ast.walk(g.node):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) \
                        and n.targets[0].attr in out:
                    v = n.value
                    if isinstance(v, ast.Name):
                        v = env.get(v.id, v)
                    out[n.targets[0].attr] = v
    for n in ast.walk(scope):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) \
                and n.targets[0].attr in out and isinstance(n.targets[0].value, ast.Name) \
                and n.targets[0].value.id == fn.name:
            out[n.targets[0].attr] = n.value
    r = []
    for k in ("terminal", "direction"):
        v = out[k]
        try:
            r.append(None if v is None else ast.literal_eval(v))
        except ValueError:
            r.append("?")
    return r


def stops(ctx, rule, mod, scope, fn, direction):
    """The event stops the integration and sees crossings in its direction."""
    t, d = marks(mod, scope, fn)
    lab = "event function " + fn.name
    ctx.instance(rule, lab)
    where = "%s:%s" % (mod.rel, fn.name)
    if t != "?" and not t:
        ctx.find(rule, lab, where, "the event does not stop the integration")
    if d not in (None, "?") and d * direction < 0:
        ctx.find(rule, lab, where, "the event ignores the crossing it has to detect")


NAMES = ["ev_rlo1", "ev_rlo2", "ev_max_time1", "ev_max_time2"]


def start(ctx):
    repo = ctx.repo
    cls = repo.cls("detached_step", REL)
    evo = repo.cls("detached_evolution", REL)
    for nm, d in zip(NAMES, (1, 1, -1, -1)):
        f = repo.find_method(evo, nm)
        if f is not None:
            stops(ctx, "D-start", f.mod, evo.node, f.node, d)
    f = repo.find_method(cls, "solve_ODEs")
    for exc in (True, False):
        vn.reset()
        me, b, P, S = [sym(x) for x in ("self", "binary", "PRI", "SEC")]
        vn.DISTINCT.update([b, P, S])
        p = Pair(ctx, "D-start", overrides={"set_binary_to_failed": lambda *a: NONE})

        def setup(ev):
            ev.types.setdefault(me.id, cls)
            ev.no_exc = exc
        p.setup = setup
        v, h, rp, _ = p.run(f, [b, P, S], me, {})
        for x in vn.leaves(v):
            if x.k != "call" or not x.a[0].endswith("solve_ivp"):
                continue
            if exc and rp is not None and rp is not FALSE:
                bad = vn.eq(mk("attr", x, "status"), c(-1))
                p.same("integration: raises", ite(bad, c(0), ite(rp, c(1), c(0))), c(0),
                       f.key, what="(an exception for a successful integration)")
            kw = dict(x.a[2])
            for nm, z in zip(("fun", "t_span", "y0", "method"), x.a[1]):
                kw.setdefault(nm, z)
            a = lambda o, k: mk("attr", o, k)
            e = a(me, "evo")
            got = ([kw.get("fun")] + (spread(kw.get("t_span"), 2) or [None] * 2)
                   + (spread(kw.get("y0"), 4) or [None] * 4)
                   + (spread(kw.get("events"), 4) or [None] * 4)
                   + [kw.get("dense_output")])
            want = [e, a(b, "time"), a(me, "max_time"), a(b, "separation"),
                    a(b, "eccentricity"), a(S, "omega0"), a(P, "omega0")] + [
                        a(e, n) for n in NAMES] + [TRUE]
            lab = ["rates", "start", "end", "separation", "eccentricity",
                   "spin of the secondary", "spin of the primary"] + NAMES + ["dense output"]
            for nm, g, w in zip(lab, got, want):
                p.same("integration (%s): %s" % (vn.show(kw.get("method", NONE)), nm), g, w,
                       f.key)
