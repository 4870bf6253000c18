"""Switching an optional process off removes it, switching it on adds it.

Noninterference on the gated normal form of the right-hand side of the detached
integration (prescriptions kept opaque): with a switch off no rate may mention
the process, with it on exactly the documented rates contain its contribution,
and all processes together add up to the sum of the single ones.  The switches
are followed from the step's parameters into the integrated object, and the
supernova step with kicks off must not mention any kick quantity.
"""
from itertools import combinations

from .. import vn
from ..ev import Evaluator
from ..repo import AnalysisBroken, Func
from ..vn import FALSE, NONE, TRUE, add_, c, mk, sym
from .c03 import FLAGS, evolution, modes

# documented effect of every process on (da, de, dOmega_sec, dOmega_pri)
DRIVES = {"do_tides": (1, 1, 1, 1),
          "do_gravitational_radiation": (1, 1, 0, 0),
          "do_magnetic_braking": (0, 0, 1, 1),
          "do_wind_loss": (1, 0, 0, 0),
          "do_stellar_evolution_and_spin_from_winds": (0, 0, 1, 1)}
RATES = ("da", "de", "dOmega_sec", "dOmega_pri")


def prescriptions(ctx, flag, mode):
    """Functions of the package that only run when `flag` is on."""
    vn.reset()
    off = evolution(ctx, [], mode)[2].inlined
    on = evolution(ctx, [flag], mode)[2].inlined
    return {k for k in on - off if ":detached_evolution." not in k}


def check(ctx):
    repo = ctx.repo
    cls = repo.cls("detached_evolution", "posydon/binary_evol/DT/step_detached.py")
    ctx.rule("S-off", "all switches off: every rate is zero", 4)
    ctx.rule("S-drives", "a switch that is on contributes to exactly the rates it "
             "drives", 30)
    ctx.rule("S-add", "processes superpose: all on equals the sum of single ones", 16)
    ctx.rule("S-forward", "switches of the step reach the integrated object", 10)
    ctx.rule("S-kick", "supernova with kicks off mentions no kick quantity", 2)
    md = modes(ctx, cls)
    if len(md) < 2:
        raise AnalysisBroken("magnetic braking modes not found")
    # opaque prescriptions: the top-level functions of the DT sub-packages
    for mode in md:
        vn.reset()
        single = {}
        v0 = evolution(ctx, [], mode)[0]
        for i, nm in enumerate(RATES):
            ctx.instance("S-off", mode + ":" + nm)
            if v0.a[i] is not c(0):
                ctx.find("S-off", nm, "detached_evolution.__call__",
                         "with every process off the rate %s is %s" % (
                             nm, vn.show(v0.a[i])[:200]))
        for fl in FLAGS:
            v = evolution(ctx, [fl], mode)[0]
            single[fl] = v
            for i, nm in enumerate(RATES):
                ctx.instance("S-drives", "%s %s:%s" % (fl, mode, nm))
                has = v.a[i] is not v0.a[i]
                if has != bool(DRIVES[fl][i]):
                    ctx.find("S-drives", "%s:%s" % (fl, nm),
                             "detached_evolution.__call__",
                             "process %s on: rate %s %s" % (
                                 fl, nm, "receives a contribution it must not have"
                                 if has else "does not receive its contribution"))
    # superposition with the prescriptions opaque, so that sums stay small
    pres = set()
    for fl in FLAGS:
        for mode in md:
            pres |= {k.split(":")[1].split(".")[-1]
                     for k in prescriptions(ctx, fl, mode)}
    for mode in md:
        vn.reset()
        vals = {}
        allf = list(FLAGS)
        want = [[f] for f in allf] + [[], allf] + \
            [[g for g in allf if g != f] for f in allf]
        if ctx.tier == "thorough":
            want += [list(x) for r in (2, 3) for x in combinations(allf, r)]
        for on in want:
            vals[tuple(on)] = opaque(ctx, on, mode, pres)
        for on in want:
            if len(on) < 2:
                continue
            for i, nm in enumerate(RATES):
                s = vals[()].a[i]
                for f in on:
                    s = add_(s, vals[(f,)].a[i])
                ctx.instance("S-add", "%s %s:%s" % ("+".join(on), mode, nm))
                if s is not vals[tuple(on)].a[i]:
                    from ..mirror import describe
                    ctx.find("S-add", "%s:%s" % ("+".join(on), nm),
                             "detached_evolution.__call__",
                             "rate %s with {%s} on differs from the sum of the "
                             "single processes: %s" % (
                                 nm, ", ".join(on),
                                 describe(vals[tuple(on)].a[i], s)))
    forwarding(ctx)
    kicks(ctx)


def opaque(ctx, on, mode, pres):
    repo = ctx.repo
    cls = repo.cls("detached_evolution", "posydon/binary_evol/DT/step_detached.py")
    f = repo.find_method(cls, "__call__")
    ev = Evaluator(repo, ctx.consts, max_depth=8, noinline=pres)
    me = sym("self")
    heap = {(me, "primary"): sym("primary"), (me, "secondary"): sym("secondary"),
            (me, "verbose"): FALSE, (me, "magnetic_braking_mode"): c(mode)}
    for fl in FLAGS:
        heap[(me, fl)] = TRUE if fl in on else FALSE
    y = mk("list", sym("a"), sym("e"), sym("O_sec"), sym("O_pri"))
    return ev.run(f, args={"y": y, "t": sym("t")}, self_node=me, heap=heap)[0]


def forwarding(ctx):
    """detached_step.<switch> -> detached_evolution.<switch>."""
    repo = ctx.repo
    step = repo.cls("detached_step", "posydon/binary_evol/DT/step_detached.py")
    evo = repo.cls("detached_evolution", "posydon/binary_evol/DT/step_detached.py")
    names = list(FLAGS) + ["magnetic_braking_mode"]
    # constructor of the integrated object stores what it is given
    init = repo.find_method(evo, "__init__")
    vn.reset()
    ev = Evaluator(repo, ctx.consts, max_depth=4)
    me = sym("self")
    _, h, _, _ = ev.run(init, self_node=me)
    for n in names:
        ctx.instance("S-forward", "detached_evolution(%s)" % n)
        if h.get((me, n)) is not sym(n):
            ctx.find("S-forward", "detached_evolution.__init__:" + n, init.key,
                     "attribute %s is set to %s, not to the argument %s" % (
                         n, h.get((me, n)), n))
    # step constructor hands its own switches on
    init = repo.find_method(step, "__init__")
    vn.reset()
    ev = Evaluator(repo, ctx.consts, max_depth=4)
    seen = []

    def cons(cls, args, kw, st, fr):
        if cls.name == "detached_evolution":
            names_ = [a.arg for a in repo.find_method(cls, "__init__").node.args.args][1:]
            k = dict(zip(names_, args))
            k.update(kw)
            seen.append((k, dict(st.heap)))
        return mk("call", "new:" + cls.name, tuple(args), tuple(sorted(kw.items())))
    ev.construct = cons
    me = sym("self")
    ev.run(init, self_node=me)
    if not seen:
        raise AnalysisBroken("detached_step does not build a detached_evolution")
    for k, h in seen:
        for n in names:
            ctx.instance("S-forward", "detached_step -> detached_evolution: " + n)
            own = h.get((me, n)) or mk("attr", me, n)
            if n not in k and "**" not in k or (n in k and k[n] is not own):
                ctx.find("S-forward", "detached_step:" + n, init.key,
                         "the step's %s is not handed to the integration (%s)"
                         % (n, k.get(n)))


KICK = ("natal_kick_velocity", "natal_kick_azimuthal_angle", "natal_kick_polar_angle",
        "natal_kick_mean_anomaly", "sigma_kick_CCSN_NS", "sigma_kick_CCSN_BH",
        "sigma_kick_ECSN", "mean_kick_CCSN_NS", "mean_kick_CCSN_BH",
        "mean_kick_ECSN", "kick_prescription", "kick_normalisation", "RNG",
        "spin_orbit_tilt_first_SN", "spin_orbit_tilt_second_SN")


def kicks(ctx):
    repo = ctx.repo
    cls = repo.cls("StepSN", "posydon/binary_evol/SN/step_SN.py")
    f = repo.find_method(cls, "__call__")
    for event in ("CC1", "CC2"):
        vn.reset()
        me, b = sym("self"), sym("binary")
        ev = Evaluator(repo, ctx.consts, max_depth=5, noinline={"collapse_star"})
        ev.types[b.id] = repo.cls("BinaryStar")
        v, h, rp, fr = ev.run(f, self_node=me, args={"binary": b}, heap={
            (me, "kick"): FALSE, (b, "event"): c(event), (me, "verbose"): FALSE})
        if h is None:
            raise AnalysisBroken("StepSN.__call__ has no normal exit with kick=False")
        ctx.instance("S-kick", event)
        ctx.count("attributes written with kick off", len(h))
        for (o, at), val in h.items():
            if at in KICK and o is not me:
                ctx.find("S-kick", "%s:%s" % (event, at), f.key,
                         "%s.%s is written although kicks are off" % (vn.show(o), at))
            dep = vn.deps(val, lambda n: n.k == "attr" and n.a[1] in KICK)
            if dep and at not in KICK:
                ctx.find("S-kick", "%s:%s<-%s" % (event, at, dep[0].a[1]), f.key,
                         "%s.%s depends on %s although kicks are off" % (
                             vn.show(o), at, vn.show(dep[0])))
