"""Mass and energy budgets of common envelopes and mergers.

Both steps are brought into normal form for every option and combination of
stellar states and compared with the reference in spec/budget.py.
"""
from .. import vn
from ..repo import AnalysisBroken
from ..spec import Pair, load, spread
from ..vn import FALSE, TRUE, NONE, c, ite, lt, mk, or_, sym

ASSUMPTIONS = [
    "arithmetic is compared up to real-number algebra, not floating point rounding",
    "core masses of carbon-oxygen are not negative",
    "the reference in /verif/spec/budget.py transcribes the documented prescriptions",
]
CE = "posydon/binary_evol/CE/step_CEE.py"
MG = "posydon/binary_evol/DT/step_merged.py"
KEYS = ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass",
        "center_h1", "center_he4", "center_c12", "center_n14", "center_o16",
        "avg_c_in_c_core", "surface_h1", "surface_he4", "surface_c12", "surface_n14",
        "surface_o16"]


def check(ctx):
    ctx.rule("B-merge", "mass, cores and composition of a merger product", 30)
    ctx.rule("B-remnant", "the absorbed star becomes massless, the product is the other", 6)
    ctx.rule("B-ce", "orbit and masses after a common envelope", 20)
    ctx.rule("B-radius", "an inflated companion is matched to a single star", 4)
    radius(ctx)
    mergers(ctx)
    merge_call(ctx)
    envelopes(ctx)


def states(ctx):
    fc = {n: ctx.consts.get("posydon.binary_evol.flow_chart", n) for n in (
        "STAR_STATES_H_RICH", "STAR_STATES_HE_RICH")}
    for k, v in fc.items():
        if not isinstance(v, (list, tuple)):
            raise AnalysisBroken("no list %s" % k)
    H, He = list(fc["STAR_STATES_H_RICH"]), list(fc["STAR_STATES_HE_RICH"])
    return {"HMS": ["H-rich_Core_H_burning"],
            "PostMS": [x for x in H if x != "H-rich_Core_H_burning"],
            "HeMS": ["stripped_He_Core_He_burning"],
            "PostHeMS": [x for x in He if x not in H and x != "stripped_He_Core_He_burning"],
            "WD": ["WD"], "NS": ["NS", "BH"]}


def mergers(ctx):
    repo = ctx.repo
    sp = load(ctx, "budget").functions
    cls = repo.cls("MergedStep", MG)
    f = repo.find_method(cls, "merged_star_properties")
    if f is None:
        raise AnalysisBroken("no merged_star_properties in MergedStep")
    ks = states(ctx)
    todo = []
    for k1 in ("HMS", "PostMS", "HeMS", "PostHeMS"):
        for k2 in ks:
            if {k1, k2} <= {"HMS", "HeMS", "PostHeMS"} and "HMS" in (k1, k2) \
                    and k1 != k2:
                continue        # not a combination the step accepts
            full = ctx.tier == "thorough"
            for i, s1 in enumerate(ks[k1]):
                for j, s2 in enumerate(ks[k2]):
                    todo.append((k1, k2, s1, s2, full or i == 0 and j == 0))
    for k1, k2, s1, s2, full in todo:
        one(ctx, cls, f, sp, k1, k2, s1, s2, full)


def one(ctx, cls, f, sp, k1, k2, s1, s2, full):
    vn.reset()
    me, B, C = sym("self"), sym("BASE"), sym("COMP")
    vn.DISTINCT.update([B, C])
    heap = {(B, "state"): c(s1), (C, "state"): c(s2)}
    for s, k in ((B, k1), (C, k2)):
        if k in ("HMS", "HeMS"):
            heap[s, "co_core_mass"] = c(0)

    def gone(ev, args, kw, st, fr):
        s = (list(args) + list(kw.values()))[0]
        st.heap[s, "massless"] = TRUE
        return s
    p = Pair(ctx, "B-merge", noinline={"check_state_of_star"},
             overrides={"convert_star_to_massless_remnant": gone})
    p.setup = lambda ev: ev.types.setdefault(me.id, cls)
    v, h, rp, _ = p.run(f, [B, C], me, heap)
    lab = "%s + %s" % (s1, s2)
    v = spread(v, 2) if v is not None else None
    ctx.instance("B-remnant", lab)
    if v is None or rp is TRUE:
        ctx.find("B-remnant", lab, f.key, "the merger has no product")
        return
    hydro = ("HMS", "PostMS")
    if k2 == "NS":
        prod, rest = C, B
        order = (B, C)
    else:
        swap = k2 == "PostMS" and k1 in ("HMS", "HeMS", "PostHeMS")
        prod, rest = (C, B) if swap else (B, C)
        order = (prod, rest)
    if v[0] is not order[0] or v[1] is not order[1] \
            or h.get((rest, "massless")) is not TRUE or (prod, "massless") in h:
        ctx.find("B-remnant", lab, f.key, "the product of the merger is not the %s "
                 "and the massless remnant not the other star" % (
                     "compact object" if k2 == "NS" else "star whose structure is kept"))
        return
    if k2 == "NS":
        for k in KEYS:
            ctx.instance("B-merge", lab)
            if (prod, k) in h:
                ctx.find("B-merge", lab + ":" + k, f.key, "the compact object changes")
        return
    if not full and k1 not in ("HMS",) and k2 != "HMS":
        keys = ["mass", "co_core_mass", "surface_h1", "center_he4"]
    else:
        keys = KEYS if full else ["mass", "surface_h1", "center_he4"]
    co = [heap.get((s, "co_core_mass"), mk("attr", s, "co_core_mass")) for s in (B, C)]
    dc = or_(rp or FALSE, or_(lt(co[0], c(0)), lt(co[1], c(0))))
    if k2 == "WD":
        dc = or_(dc, vn.eq(co[1], NONE))
    for k in keys:
        w = p.run(sp["value"], [me, c(k), c(k1), c(k2), B, C], None, heap)[0]
        got = h.get((prod, k), heap.get((prod, k), mk("attr", prod, k)))
        p.same("%s: %s" % (lab, k), got, w, f.key, dc)
    got = h.get((prod, "surf_avg_omega_div_omega_crit"))
    p.same("%s: rotation" % lab, got, mk("attr", me, "merger_critical_rot"), f.key, dc)
    if (k1, k2) in (("PostMS", "HMS"), ("HMS", "PostMS")):
        for k in ("log_LHe", "log_LZ"):
            p.same("%s: %s" % (lab, k), h.get((prod, k)), mk("attr", prod, k), f.key, dc)
    st = h.get((prod, "state"))
    if (k1, k2) != ("HMS", "HMS"):
        for x in vn.leaves(st):
            ok = x.k == "call" and "check_state_of_star" in x.a[0] and prod in (
                list(x.a[1]) + list(dict(x.a[2]).values()))
            if not ok:
                ctx.find("B-merge", lab + ":state", f.key, "the state of the product is "
                         "%s, not the one of its structure" % vn.show(x)[:80])


def merge_call(ctx):
    repo = ctx.repo
    cls = repo.cls("MergedStep", MG)
    f = repo.find_method(cls, "__call__")
    base = [repo.find_method(b, "__call__") for b in repo.mro(cls)[1:]] \
        if hasattr(repo, "mro") else []
    for st, evt, s1, s2 in (("merged", "oMerging1", None, None),
                            ("merged", "oMerging2", None, None),
                            ("RLO1", "oRLO1", "stripped_He_Core_He_burning",
                             "stripped_He_Core_He_burning"),
                            ("RLO2", "oRLO2", "stripped_He_Core_He_burning",
                             "stripped_He_Core_He_depleted")):
        vn.reset()
        me, b, A, B, M, R = [sym(x) for x in ("self", "binary", "S1", "S2", "MERGED",
                                              "MASSLESS")]
        vn.DISTINCT.update([A, B, M, R])
        heap = {(b, "star_1"): A, (b, "star_2"): B, (b, "state"): c(st),
                (b, "event"): c(evt), (me, "verbose"): FALSE}
        if s1:
            heap[A, "state"], heap[B, "state"] = c(s1), c(s2)
        args = []

        def rec(ev, a, kw, st_, fr):
            args.append([x for x in list(a) + list(kw.values()) if x is not me])
            return mk("tuple", M, R)
        p = Pair(ctx, "B-remnant", overrides={"merged_star_properties": rec})
        for g in base:
            if g is not None:
                p.overrides[g.key] = lambda *a: NONE
        p.setup = lambda ev: ev.types.setdefault(me.id, cls)
        v, h, rp, _ = p.run(f, [b], me, heap)
        first = evt.endswith("1")
        lab = "merger at " + evt
        ctx.instance("B-remnant", lab)
        want = [A, B] if first else [B, A]
        res = (M, R) if first else (R, M)
        if rp is TRUE or args != [want] or (h.get((b, "star_1")), h.get((b, "star_2"))) != res \
                or h.get((b, "state")) is not c("merged"):
            ctx.find("B-remnant", lab, f.key, "the star that caused the merger is not the "
                     "one that absorbs its companion")


def envelopes(ctx):
    repo = ctx.repo
    sp = load(ctx, "budget").functions
    cls = repo.cls("StepCEE", CE)
    f = repo.find_method(cls, "__call__")
    if f is None:
        raise AnalysisBroken("no StepCEE.__call__")
    tm = repo.cls("TrackMatcher")
    after = ["one_phase_variable_core_definition", "two_phases_stableMT",
             "two_phases_windloss"]
    lams = [("default_lambda", None), ("lambda_from_grid_final_values", 0.01),
            ("lambda_from_grid_final_values", 0.1), ("lambda_from_grid_final_values", 0.3),
            ("lambda_from_profile_gravitational", 0.1)]
    don = [("He_core", "H-rich_Core_He_burning"), ("CO_core", "stripped_He_Core_He_depleted")]
    cases = []
    for evt in ("oCE1", "oCE2", "oDoubleCE1", "oDoubleCE2"):
        for kind, st in don:
            for cst in (["H-rich_Core_H_burning", "BH"] if "Double" not in evt
                        else [x[1] for x in don]):
                for a in after:
                    for lam, frac in lams:
                        if ctx.tier != "thorough" and evt.endswith("2") and (
                                a != after[1] or frac in (0.01, 0.3)):
                            continue
                        if kind == "CO_core" and frac in (0.01, 0.3):
                            continue
                        for loss in (FALSE, TRUE):
                            for prof in (0, 1):
                                if (loss is TRUE or "profile" in lam) and (
                                        ctx.tier == "thorough" or a == after[0] or prof):
                                    cases.append((evt, kind, st, cst, a, lam, frac, loss,
                                                  prof))
                                elif prof and loss is FALSE:
                                    cases.append((evt, kind, st, cst, a, lam, frac, loss,
                                                  None))
    for x in cases:
        envelope(ctx, sp, cls, f, tm, dict(don), *x)
    bare(ctx, sp, cls, f)


NOIN = {"check_state_of_star", "check_for_RLO", "orbital_separation_from_period",
        "orbital_period_from_separation", "period_change_stable_MT", "roche_lobe_radius",
        "calculate_lambda_from_profile", "adjust_secondary_radius",
        "calculate_Mejected_for_integrated_binding_energy"}


def envelope(ctx, sp, cls, f, tm, don, evt, kind, st, cst, a, lam, frac, loss,
             prof):
    vn.reset()
    me, b, A, B = [sym(x) for x in ("self", "binary", "S1", "S2")]
    vn.DISTINCT.update([A, B])
    first = evt.endswith("1")
    D, C = (A, B) if first else (B, A)
    double = "Double" in evt
    heap = {(b, "star_1"): A, (b, "star_2"): B, (b, "event"): c(evt), (D, "state"): c(st),
            (C, "state"): c(cst), (me, "prescription"): c("alpha-lambda"),
            (me, "verbose"): FALSE, (me, "common_envelope_option_for_lambda"): c(lam),
            (me, "common_envelope_option_after_succ_CEE"): c(a),
            (me, "mass_loss_during_CEE_merged"): loss,
            (me, "common_envelope_option_for_HG_star"): c("optimistic"),
            (me, "core_definition_H_fraction"): c(frac if frac else 0.1),
            (me, "core_definition_He_fraction"): c(0.1)}
    if prof is not None:
        for o, n in ((D, "profile of the donor"), (C, "profile of the companion")):
            heap[o, "profile"] = NONE
            if prof:
                heap[o, "profile"] = sym(n)
                vn.DISTINCT.update([NONE, heap[o, "profile"]])
    p = Pair(ctx, "B-ce", noinline=NOIN)
    p.setup = lambda ev: ev.types.setdefault(me.id, cls)
    v, h, rp, _ = p.run(f, [b], me, heap)
    ck = {v_: k for k, v_ in don.items()}.get(cst, "none")
    v, h2, rp2, _ = p.run(sp["common_envelope"], [
        me, b, D, C, c(kind), c(ck), c(1 if first else 2), c(double)], None, heap)
    lab = "%s of %s with %s, %s, %s%s%s" % (evt, kind, cst, a, lam, frac or "",
                                            ", mass loss" if loss is TRUE else "")
    if prof is not None:
        lab += ", %s profile" % ("with" if prof else "no")
    dc = p.both(lab, f, rp, rp2)
    for o, on, keys in ((b, "binary", ("state", "event", "separation", "orbital_period",
                                       "eccentricity")),
                        (D, "donor", ("mass", "log_R", "state", "he_core_mass",
                                      "co_core_mass", "he_core_radius", "co_core_radius",
                                      "surface_h1", "surface_he4")),
                        (C, "companion", ("mass", "state", "he_core_mass", "co_core_mass",
                                          "surface_h1", "surface_he4"))):
        for k in keys:
            q = mk("attr", o, k)
            g, w = h.get((o, k), q), h2.get((o, k), q)
            d = dc
            if k in ("log_R", "he_core_radius", "co_core_radius"):
                # a radius has no meaning after a merger
                d = or_(dc, vn.eq(h.get((b, "state"), NONE), c("merged")))
            p.same("%s: %s.%s" % (lab, on, k), g, w, f.key, d)


def bare(ctx, sp, cls, f):
    """Donors without a distinct core merge."""
    for evt in ("oCE1", "oCE2", "oDoubleCE1", "oDoubleCE2"):
        for st, hg in (("H-rich_Core_H_burning", "optimistic"),
                       ("stripped_He_Core_He_burning", "optimistic"),
                       ("accreted_He_Core_He_burning", "pessimistic"),
                       ("H-rich_Shell_H_burning", "pessimistic")):
            vn.reset()
            me, b, A, B = [sym(x) for x in ("self", "binary", "S1", "S2")]
            vn.DISTINCT.update([A, B])
            first = evt.endswith("1")
            D, C = (A, B) if first else (B, A)
            heap = {(b, "star_1"): A, (b, "star_2"): B, (b, "event"): c(evt),
                    (D, "state"): c(st), (me, "prescription"): c("alpha-lambda"),
                    (me, "verbose"): FALSE,
                    (me, "common_envelope_option_for_HG_star"): c(hg)}
            p = Pair(ctx, "B-ce", noinline=NOIN)
            p.setup = lambda ev: ev.types.setdefault(me.id, cls)
            v, h, rp, _ = p.run(f, [b], me, heap)
            v, h2, rp2, _ = p.run(sp["no_envelope"], [me, b, c(1 if first else 2)], None,
                                  heap)
            lab = "%s of %s (%s)" % (evt, st, hg)
            dc = p.both(lab, f, rp, rp2)
            for o, on in ((b, "binary"), (A, "star_1"), (B, "star_2")):
                for k in ("state", "event", "mass", "separation", "orbital_period"):
                    q = mk("attr", o, k)
                    p.same("%s: %s.%s" % (lab, on, k), h.get((o, k), q),
                           h2.get((o, k), q), f.key, dc)


def radius(ctx):
    """The companion, not the donor, is matched whatever role the matching gives it."""
    repo = ctx.repo
    sp = load(ctx, "budget").functions
    cls = repo.cls("StepCEE", CE)
    f = repo.find_method(cls, "adjust_secondary_radius")
    if f is None:
        ctx.note("no StepCEE.adjust_secondary_radius: companion radius not judged")
        ctx.rules["B-radius"]["min"] = 0
        return
    H, He = "H-rich_Core_H_burning", "stripped_He_Core_He_burning"
    for donor in (1, 2):
        for sd, sc in ((H, H), (H, He), (He, H), (He, He)):
            vn.reset()
            me, b, A, B, T, M = [sym(x) for x in ("self", "binary", "S1", "S2", "matcher",
                                                  "MATCHED")]
            vn.DISTINCT.update([A, B, NONE, M])
            D, C = (A, B) if donor == 1 else (B, A)
            heap = {(b, "star_1"): A, (b, "star_2"): B, (D, "state"): c(sd),
                    (C, "state"): c(sc), (me, "verbose"): FALSE, (me, "track_matcher"): T,
                    (A, "interp1d"): NONE, (B, "interp1d"): NONE}
            roles = (A, B)
            if sd != sc:
                roles = (D, C) if sc == H else (C, D)

            def match(ev, args, kw, st, fr):
                for i, n in enumerate(("match_primary", "match_secondary")):
                    k = kw.get(n, TRUE)
                    if vn.truth(k) is TRUE:
                        st.heap[roles[i], "interp1d"] = M
                    elif vn.truth(k) is not FALSE:
                        raise AnalysisBroken("which star is matched is not known")
                return mk("tuple", roles[0], roles[1], FALSE)
            tm = repo.cls("TrackMatcher")
            p = Pair(ctx, "B-radius", noinline={"roche_lobe_radius"}, overrides={
                "do_matching": match,
                "determine_star_states": lambda *a: mk("tuple", roles[0], roles[1], FALSE)})

            def setup(ev):
                ev.types.setdefault(me.id, cls)
                ev.types.setdefault(T.id, tm)
            p.setup = setup
            par = [sym(x) for x in ("mc1", "mc2", "rc1", "rc2", "a")]
            v, h, rp, _ = p.run(f, [C, b] + par, me, heap)
            w = p.run(sp["companion_radius"], [me, C, b, M] + par, None, heap)[0]
            lab = "%s companion of %s star %d" % (sc, sd, donor)
            p.same(lab, v, w, f.key, rp or FALSE)
            p.same(lab + ": donor", h.get((D, "interp1d")), NONE, f.key, rp or FALSE)
