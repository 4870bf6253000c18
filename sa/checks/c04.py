"""Events and grid processing of star 2 mirror those of star 1.

The handler of an event is brought into gated normal form once for the event of
star 1 and once for the event of star 2; exchanging the two stars (attributes,
roles, label digits) in the first must give the second: same updates of the
binary and both stars, same calls with the same conditions, same error
conditions.  Helpers that treat two bodies alike are proved symmetric first.
"""
import ast

from .. import fp, mirror, vn
from ..ev import Evaluator
from ..mirror import Swap, compare, describe, evaluate, prove_symmetric, same
from ..repo import AnalysisBroken
from ..vn import FALSE, NONE, TRUE, c, mk, sym

ASSUMPTIONS = [
    "arithmetic is compared up to real-number algebra, not floating point rounding",
    "numpy/scipy functions and random draws are functions of their arguments and of "
    "the generator they are drawn from",
]
HELPERS = {"check_state_of_star", "calculate_lambda_from_profile",
           "profile_recomb_energy", "calculate_binding_energy",
           "period_evol_wind_loss", "separation_evol_wind_loss", "roche_lobe_radius",
           "orbital_separation_from_period", "orbital_period_from_separation",
           "inspiral_timescale_from_separation", "calculate_recombination_energy",
           "collapse_star", "rotate", "generate_kick", "get_combined_tilt",
           "bondi_hoyle", "convert_star_to_massless_remnant", "infer_star_state"}
TWINS = ["orbital_period_from_separation", "orbital_separation_from_period",
         "inspiral_timescale_from_separation"]


class Run:
    def __init__(self, ctx):
        self.ctx, self.repo = ctx, ctx.repo
        self.B = self.repo.cls("BinaryStar")
        self.S = self.repo.cls("SingleStar")

    def world(self):
        vn.reset()
        self.me, self.b = sym("self"), sym("binary")
        self.s1, self.s2 = mk("attr", self.b, "star_1"), mk("attr", self.b, "star_2")
        vn.DISTINCT.update([self.s1, self.s2])
        return {self.b: self.B, self.s1: self.S, self.s2: self.S}

    def method(self, cls, name):
        cl = self.repo.cls(cls)
        f = self.repo.find_method(cl, name) if cl else None
        if f is None:
            raise AnalysisBroken("%s.%s not found" % (cls, name))
        return f

    def pair(self, rid, label, f, sides, swap=None, want=lambda k: True,
             noinline=HELPERS, depth=5, overrides=None, budget=60, self_node=True,
             types=None, skip=(), post=None):
        """sides: two dicts(args=, heap=, pc=) evaluated and compared."""
        import time
        ctx = self.ctx
        vn.DEADLINE[0] = time.time() + budget
        res = []
        try:
            for sd in sides:
                ev = Evaluator(self.repo, ctx.consts, max_depth=depth,
                               noinline=noinline)
                ev.overrides.update(sd.get("overrides", {}))
                for n, cl in (types or {}).items():
                    ev.types[n.id] = cl
                v, h, rp, fr = ev.run(
                    f, args=sd.get("args"), self_node=self.me if self_node else None,
                    heap=sd.get("heap"), pc=sd.get("pc"))
                if post is not None:
                    v = post(v)
                pc = sd.get("pc")
                if pc is not None:
                    v = vn.under(v, pc) if v is not None else None
                    rp = vn.under(rp, pc)
                    h = {k: vn.under(x, pc) for k, x in h.items()} if h else h
                res.append(mirror.Side(v, h, rp, ev.effects, ev))
            n0 = len(mirror.UNDECIDED)
            out, n = compare(res[0], res[1], swap or Swap(), want)
        except vn.TooComplex as e:
            ctx.note("%s: not decided (%s)" % (label, e))
            ctx.count("undecided runs")
            return None
        finally:
            vn.DEADLINE[0] = None
        ctx.count("values compared", n)
        ctx.count("functions inlined", len(res[0].ev.inlined))
        if len(mirror.UNDECIDED) > n0:
            ctx.count("undecided values", len(mirror.UNDECIDED) - n0)
            ctx.note("%s: %d values not decided within the budget"
                     % (label, len(mirror.UNDECIDED) - n0))
        ctx.instance(rid, label)
        for what, x, y in out:
            if what in skip:
                continue
            ctx.find(rid, "%s:%s" % (label, what), f.key,
                     "handling for one star is not the mirror of the other: %s"
                     % describe(x, y)[:900])
        return res


def supernova(R):
    ctx = R.ctx
    call = R.method("StepSN", "__call__")
    kick = R.method("StepSN", "orbital_kick")
    types = R.world()
    R.pair("E-sn", "StepSN.__call__ CC1/CC2", call,
           [{"args": {"binary": R.b},
             "heap": {(R.b, "event"): c(e), (R.me, "verbose"): FALSE}}
            for e in ("CC1", "CC2")], types=types,
           noinline=HELPERS | {"orbital_kick"})
    for given in (False, True):
        for snt in ("CCSN", "ECSN", "PPISN", "PISN", "WD"):
            types = R.world()
            heap = {(R.me, "verbose"): FALSE}
            for s in (R.s1, R.s2):
                for a in ("velocity", "azimuthal_angle", "polar_angle", "mean_anomaly"):
                    a = "natal_kick_" + a
                    heap[(s, a)] = mk("given", mk("attr", s, a)) if given else NONE
                heap[(s, "SN_type")] = c(snt)
            R.pair("E-sn", "orbital_kick CC1/CC2 %s kick %s" % (
                snt, "given" if given else "drawn"), kick,
                [{"args": {"binary": R.b}, "heap": dict(heap, **{})
                  | {(R.b, "event"): c(e)}} for e in ("CC1", "CC2")], types=types)


CE_SWAP = [("donor", "comp_star"), ("donor_type", "comp_type"), ("mc1_i", "mc2_i"),
           ("rc1_i", "rc2_i"), ("lambda1_CE", "lambda2_CE"), ("m1_i", "m2_i"),
           ("radius1", "radius2"), ("mc1_f", "mc2_f"), ("rc1_f", "rc2_f"),
           ("Mejected_donor", "Mejected_comp")]


def common_envelope(R):
    ctx = R.ctx
    cls = R.repo.cls("StepCEE")
    if cls is None:
        raise AnalysisBroken("StepCEE not found")
    own = set(cls.methods)
    for name, f in cls.methods.items():
        ps = [a.arg for a in f.node.args.args]
        if "binary" in ps and ("donor" in ps or name == "__call__"):
            for ea, eb in (("oCE1", "oCE2"), ("oDoubleCE1", "oDoubleCE2")):
                types = R.world()
                sides = []
                for e in (ea, eb):
                    st = [R.s1, R.s2] if e.endswith("1") else [R.s2, R.s1]
                    args = {"binary": R.b, "verbose": FALSE, "donor": st[0],
                            "comp_star": st[1],
                            "double_CE": TRUE if "Double" in e else FALSE}
                    sides.append({"args": {k: v for k, v in args.items() if k in ps},
                                  "heap": {(R.b, "event"): c(e),
                                           (R.me, "verbose"): FALSE}})
                R.pair("E-ce", "StepCEE.%s %s/%s" % (name, ea, eb), f, sides,
                       types=types, noinline=HELPERS | {
                           m for m in own if m != name and m.startswith("CEE_")}
                       | {"calculate_lambda_CE"})
        if "donor" in ps and "comp_star" in ps:
            double_ce(R, cls, name, f, ps, own)


def elements(v):
    """Components of a (conditional) tuple result."""
    if v is None:
        return []
    ls = [x for x in vn.leaves(v) if x.k != "dontcare"]
    n = {len(x.a) for x in ls if x.k in ("tuple", "list")}
    if len(n) != 1 or any(x.k not in ("tuple", "list") for x in ls):
        return []
    n = n.pop()
    return [vn.lift(lambda x, i=i: x if x.k == "dontcare" else x.a[i], v, limit=10 ** 6)
            for i in range(n)]


def double_ce(R, cls, name, f, ps, own):
    """In a double common envelope donor and companion are treated alike."""
    ctx = R.ctx
    if "binary" in ps and name != "CEE_adjust_binary_upon_ejection" \
            and name != "CEE_adjust_binary_upon_merger":
        return
    for typ in ("He_core", "CO_core"):
        types = R.world()
        d, cs = sym("donor"), sym("comp_star")
        vn.DISTINCT.update([d, cs])
        types.update({d: R.S, cs: R.S})
        args = {"double_CE": TRUE, "verbose": FALSE, "donor_type": c(typ),
                "comp_type": c(typ)}
        args = {k: v for k, v in args.items() if k in ps}
        ev = Evaluator(R.repo, ctx.consts, max_depth=4, noinline=HELPERS)
        for n, cl in types.items():
            ev.types[n.id] = cl
        try:
            v, h, rp, fr = ev.run(f, args=args, self_node=R.me,
                                  heap={(R.me, "verbose"): FALSE})
        except vn.TooComplex as e:
            ctx.note("double CE %s not decided: %s" % (name, e))
            continue
        sw = Swap(syms=[p for p in CE_SWAP if p[0] in ps and p[1] in ps
                        or p[0] in ("donor", "donor_type")], regex=False)
        memo = {}
        label = "double CE %s %s" % (name, typ)
        el = elements(v)
        if len(el) >= 4:
            perm = [2, 3, 0, 1] + list(range(4, len(el)))
        elif len(el) == 2:
            perm = [1, 0]
        else:
            perm = []
        for i, j in enumerate(perm):
            ctx.instance("E-double", label + " result %d" % i)
            w = vn.rebuild(el[i], sw, memo)
            if not same(el[j], w):
                ctx.find("E-double", "%s:result %d" % (label, j), f.key,
                         "donor and companion of a double common envelope are "
                         "not treated alike: %s" % describe(el[j], w)[:700])
        if h:
            bad, n = mirror.mirror_heap(h, sw, lambda k: k[0] in (d, cs))
            ctx.instance("E-double", label + " stars", n=n)
            for k, a, b in bad:
                if not same(a, b):
                    ctx.find("E-double", "%s:%s.%s" % (label, vn.show(k[0]), k[1]),
                             f.key, "donor and companion of a double common envelope "
                             "are not treated alike: %s" % describe(a, b)[:700])


def merger(R):
    f = R.method("MergedStep", "__call__")
    for ea, eb in (("oMerging1", "oMerging2"), ("oRLO1", "oRLO2")):
        for st in ("merged", "contact"):
            types = R.world()
            R.pair("E-merge", "MergedStep.__call__ %s/%s %s" % (ea, eb, st), f,
                   [{"args": {"binary": R.b}, "heap": {
                       (R.b, "event"): c(e), (R.b, "state"): c(st),
                       (R.me, "verbose"): FALSE}} for e in (ea, eb)], types=types,
                   noinline=HELPERS | {"merged_star_properties", "__call__"})


def grid_steps(R):
    for nm in ("CO_HMS_RLO_step", "CO_HeMS_RLO_step", "CO_HeMS_step"):
        cl = R.repo.cls(nm)
        if cl is None or "__call__" not in cl.methods:
            R.ctx.note("%s not found" % nm)
            continue
        f = cl.methods["__call__"]
        for ea, eb in (("oRLO1", "oRLO2"), (None, None), ("CC1", "CC2")):
            # one compact object: which of the stars it is fixes the direction
            types = R.world()
            types[R.me] = cl
            sides = []
            co = vn.FALSE
            for e, s in ((ea, R.s2), (eb, R.s1)):
                o = R.s1 if s is R.s2 else R.s2
                st = mk("attr", s, "state")
                oth = mk("attr", o, "state")
                isco = FALSE
                noco = TRUE
                for k in ("WD", "NS", "BH"):
                    isco = vn.or_(isco, vn.eq(st, c(k)))
                    noco = vn.and_(noco, vn.not_(vn.eq(oth, c(k))))
                sides.append({"args": {"binary": R.b},
                              "heap": {(R.b, "event"): c(e),
                                       (R.me, "verbose"): FALSE},
                              "pc": vn.and_(isco, noco)})
            R.pair("E-grid", "%s.__call__ %s/%s" % (nm, ea, eb), f, sides, types=types,
                   noinline=HELPERS | {"__call__"},
                   want=lambda k: k[0] is not R.me)


def mt_case(R):
    f = R.repo.find_func("get_binary_state_and_event_and_mt_case")
    for cls in (None, "unstable_MT", "stable_MT", "no_MT", "initial_MT"):
        for hist in (False, True):
            types = R.world()
            sides = []
            i = mk("given", sym("i"))
            for s, o, k, ko in ((R.s1, R.s2, "1", "2"), (R.s2, R.s1, "2", "1")):
                if hist:
                    rl = [mk("idx", mk("attr", R.b, "rl_relative_overflow_%s_history" % x), i)
                          for x in (k, ko)]
                    stt = mk("idx", mk("attr", o, "state_history"), i)
                    gam = mk("idx", mk("attr", o, "center_gamma_history"), i)
                else:
                    rl = [mk("attr", R.b, "rl_relative_overflow_" + x)
                          for x in (k, ko)]
                    stt, gam = mk("attr", o, "state"), mk("attr", o, "center_gamma")
                # the star looked at overflows more (or as the only one known) and
                # the other one is not at the end of its life
                pc = vn.or_(vn.and_(vn.not_(vn.eq(rl[0], NONE)), vn.eq(rl[1], NONE)),
                            vn.and_(vn.and_(vn.not_(vn.eq(rl[0], NONE)),
                                            vn.not_(vn.eq(rl[1], NONE))),
                                    vn.lt(rl[1], rl[0])))
                heap = {(R.b, "dummy"): NONE}
                args = {"binary": R.b, "interpolation_class": c(cls),
                        "verbose": FALSE, "i": i if hist else NONE}
                if not hist:
                    heap[(o, "state")] = c("H-rich_Core_H_burning")
                    heap[(o, "center_gamma")] = NONE
                else:
                    heap[(mk("attr", o, "state_history"), i)] = c("H-rich_Core_H_burning")
                    heap[(mk("attr", o, "center_gamma_history"), i)] = NONE
                sides.append({"args": args, "heap": heap, "pc": pc})
            R.pair("E-mtcase", "mass-transfer state %s%s" % (
                cls, " from history" if hist else ""), f, sides, self_node=False,
                types=types, noinline=HELPERS | {"cumulative_mass_transfer_string",
                                                 "infer_mass_transfer_case"},
                # the third element encodes the star by its digit (see C17)
                post=lambda v: vn.lift(lambda x: mk("list", *x.a[:2])
                                       if x.k == "list" else x, v, limit=10 ** 6))


def flip(R):
    """flip_stars turns every label and per-star value into that of the other."""
    ctx = R.ctx
    f = R.repo.find_func("flip_stars")
    fc = "posydon/binary_evol/flow_chart.py"
    events = ctx.consts.get(fc, "BINARY_EVENTS_ALL")
    states = ctx.consts.get(fc, "BINARY_STATES_ALL")
    for attr, labels in (("event", events), ("state", states)):
        for lab in labels:
            R.world()
            ev = Evaluator(R.repo, ctx.consts, max_depth=3)
            v, h, rp, fr = ev.run(f, args={"binary": R.b},
                                  heap={(R.b, attr): c(lab)})
            ctx.instance("E-flip", "%s %s" % (attr, lab))
            got = h.get((R.b, attr)) if h else None
            if got is not c(mirror.swap_digits(lab)):
                ctx.find("E-flip", "%s:%s" % (attr, lab), f.key,
                         "a binary with %s %r has %s after its stars are exchanged"
                         % (attr, lab, vn.show(got)))
    R.world()
    ev = Evaluator(R.repo, ctx.consts, max_depth=3)
    v, h, rp, fr = ev.run(f, args={"binary": R.b})
    props = ctx.consts.get("posydon/binary_evol/binarystar.py", "BINARYPROPERTIES")
    for p in props:
        q = mirror.swap_digits(p)
        for suf in ("", "_history"):
            if q == p or p.startswith("true_anomaly"):
                continue
            ctx.instance("E-flip", p + suf)
            got = h.get((R.b, p + suf))
            if got is not mk("attr", R.b, q + suf):
                ctx.find("E-flip", p + suf, f.key, "%s is %s after the stars are "
                         "exchanged" % (p + suf, vn.show(got)))
    for a, b in ((R.s1, R.s2), (R.s2, R.s1)):
        got = h.get((R.b, a.a[1]))
        ctx.instance("E-flip", a.a[1])
        if got is None or not vn.deps(got, lambda n: n is b) \
                or vn.deps(got, lambda n: n is a):
            ctx.find("E-flip", a.a[1], f.key, "%s is %s after the stars are exchanged"
                     % (a.a[1], vn.show(got)))


def check(ctx):
    ctx.rule("E-sn", "supernova of star 2 mirrors that of star 1", 4)
    ctx.rule("E-ce", "common envelope of star 2 mirrors that of star 1", 6)
    ctx.rule("E-double", "a double common envelope treats both stars alike", 8)
    ctx.rule("E-merge", "merger labelled 2 mirrors the merger labelled 1", 2)
    ctx.rule("E-grid", "grid steps with the compact object as star 1 mirror those "
             "with it as star 2", 3)
    ctx.rule("E-mtcase", "mass-transfer state and event mirror the overflowing star", 5)
    ctx.rule("E-flip", "exchanging the stars exchanges every label and value", 20)
    R = Run(ctx)
    prove_symmetric(ctx, TWINS)
    import time
    for part in (supernova, common_envelope, merger, grid_steps, mt_case, flip):
        t = time.time()
        part(R)
        ctx.counts["seconds " + part.__name__] = round(time.time() - t, 1)
