"""Supernova remnants, kicks and post-supernova orbits follow the prescriptions.

Each prescription of the supernova step is brought into normal form for every
option and compared, output by output and path by path, with the reference
formulas in spec/supernova.py.
"""
from .. import vn
from ..repo import AnalysisBroken
from ..spec import Pair, load, spread, strconsts
from ..vn import FALSE, TRUE, NONE, c, mk, or_, sym

ASSUMPTIONS = [
    "arithmetic is compared up to real-number algebra, not floating point rounding",
    "external numerical functions (numpy, scipy, scikit-learn) are pure functions "
    "of their arguments",
    "the reference formulas in /verif/spec/supernova.py transcribe the cited papers "
    "and the documented POSYDON choices",
]
REL = "posydon/binary_evol/SN/step_SN.py"
MECH = ["Fryer+12-rapid", "Fryer+12-delayed", "direct", "Sukhbold+16-engine",
        "Couch+20-engine", "Patton&Sukhbold20-engine", "Maltsev+25-engine"]
ECSN = ["Tauris+15", "Podsiadlowski+04", None]


def check(ctx):
    repo = ctx.repo
    ctx.rule("S-type", "the supernova type follows the core-mass windows", 3)
    ctx.rule("S-remnant", "remnant mass, fallback and type of every mechanism", 20)
    ctx.rule("S-pisn", "pair-instability mass loss", 2)
    ctx.rule("S-engine", "explodability criteria of the engines", 3)
    ctx.rule("S-grav", "gravitational mass, state and spin of the remnant", 3)
    ctx.rule("S-kick", "kick velocity and normalisation of every option", 5)
    ctx.rule("S-orbit", "orbit after the supernova", 6)
    sp = load(ctx, "supernova").functions
    cls = repo.cls("StepSN", REL)
    texts = strconsts(cls, repo)
    me = star = b = base = None

    def meth(n):
        f = repo.find_method(cls, n)
        if f is None:
            ctx.note("StepSN.%s not found" % n)
        return f

    def pair(rule, **kw):
        nonlocal me, star, b, base
        vn.reset()
        me, star, b = sym("self"), sym("star"), sym("binary")
        base = {(me, k): c(v) for k, v in texts.items()}
        base[(me, "verbose")] = FALSE
        p = Pair(ctx, rule, **kw)
        p.setup = lambda ev: ev.types.setdefault(me.id, cls)
        return p

    f = meth("check_SN_type")
    for e in ECSN if f else ():
        p = pair("S-type")
        h = dict(base)
        h[(me, "ECSN")] = c(e)
        a = [sym("m_core"), sym("m_He_core"), sym("m_star")]
        v, _, rp, _ = p.run(f, a, me, h)
        w, _, rp2, _ = p.run(sp["sn_type"], [me] + a, None, h)
        _cmp(p, str(e), f, v, w, p.both(str(e), f, rp, rp2), ("m_rembar", "f_fb", "state", "SN_type"))

    f = meth("compute_m_rembar")
    for m in MECH if f else ():
        for e in ECSN:
            p = pair("S-remnant", noinline={"Patton20_corecollapse",
                                            "Maltsev25_corecollapse"})
            h = dict(base)
            h[(me, "ECSN")] = c(e)
            h[(me, "mechanism")] = c(m)
            a = [star, sym("m_PISN")]
            v, hv, rp, _ = p.run(f, a, me, h)
            w, _, rp2, _ = p.run(sp["remnant"], [me] + a, None, h)
            dc = p.both("%s/%s" % (m, e), f, rp, rp2)
            vs, ws = spread(v, 3), spread(w, 4)
            if vs is None or ws is None:
                p.same("%s/%s" % (m, e), v, w, f.key, dc)
                continue
            vs = vs + [hv.get((star, "SN_type"))]
            for nm, x, y in zip(("m_rembar", "f_fb", "state", "SN_type"), vs, ws):
                p.same("%s/%s:%s" % (m, e, nm), x, y, f.key, dc)

    f = meth("PISN_prescription")
    if f:
        p = pair("S-pisn")
        h = dict(base)
        h[(me, "PISN")] = c("Marchant+19")
        v, _, rp, _ = p.run(f, [star], me, h)
        w, _, rp2, _ = p.run(sp["pisn_marchant"], [me, star], None, h)
        p.same("Marchant+19", v, w, f.key, p.both("Marchant+19", f, rp, rp2))
        p = pair("S-pisn", noinline={"compute_m_rembar"})
        h = dict(base)
        h[(me, "PISN")] = c("Hendriks+23")

        def rem(ev, args, kw, st, *r):
            """The remnant as a function of the masses of the star handed over."""
            vals = [x for x in list(args) + list(kw.values()) if x is not me]
            if not vals:
                return sym("REM")
            s = vals[0]
            vals = vals[1:] + [st.heap.get((s, k), mk("attr", s, k))
                               for k in ("mass", "he_core_mass", "co_core_mass")]
            return mk("tuple", *[mk("call", "remnant%d" % i, tuple(vals), ())
                                 for i in range(3)])
        p.overrides = {"compute_m_rembar": rem}
        v, _, rp, _ = p.run(f, [star], me, h)
        w, _, rp2, _ = p.run(sp["hendriks23"], [me, star], None, h)
        p.same("Hendriks+23", v, w, f.key, p.both("Hendriks+23", f, rp, rp2))

    for nm, s, args, names in (
            ("Patton20_corecollapse", "patton20", None, ("m_rem", "f_fb", "state")),
            ("Maltsev25_corecollapse", "maltsev25", None, ("m_rem", "f_fb", "state")),
            ("explod_crit", "explodes", None, None),
            ("NS_vs_fallbackBH", "ns_or_fallback", None, None),
            ("get_M4_mu4_Patton20", "interpolated", None,
             ("M4", "mu4", "xi", "s_c")),
            ("get_CO_core_params", "co_core", None, ("m_CO", "X_C")),
            ("C_abundance_for_H_stars", "c_frac_H", None, None),
            ("C_abundance_for_He_stars", "c_frac_He", None, None)):
        f = meth(nm)
        if f is None:
            continue
        engines = {"patton20": ["N20", "S19.8", "W15", "W20", "W18", "Ertl2020"],
                   "maltsev25": ["M16"]}.get(s, [None])
        for en in engines:
            p = pair("S-engine", noinline={"get_CO_core_params",
                                           "get_M4_mu4_Patton20",
                                           "calculate_Patton20_values_at_He_depl"}
                     - {nm})
            if en is not None:
                a = [star, c(en), sym("conserve")]
            else:
                a = [sym("x%d" % i) for i in range(len(f.node.args.args) - 1)]
            v, _, rp, _ = p.run(f, a, me, dict(base))
            w, _, rp2, _ = p.run(sp[s], ([] if s == "explodes" else [me]) + a, None,
                                 dict(base))
            _cmp(p, nm + ("/" + en if en else ""), f, v, w, p.both(nm + ("/" + en if en else ""), f, rp, rp2), names)
    for cn, s in (("Couch20_corecollapse", "couch20"),
                  ("Sukhbold16_corecollapse", "sukhbold16")):
        k = repo.cls(cn, REL)
        f = repo.find_method(k, "__call__") if k else None
        if f is None:
            continue
        p = pair("S-engine")
        a = [star, sym("conserve")]
        v, _, rp, _ = p.run(f, a, me)
        w, _, rp2, _ = p.run(sp[s], [me] + a)
        _cmp(p, cn, f, v, w, p.both(cn, f, rp, rp2), ("m_rem", "f_fb", "state"))

    f = meth("_get_kick_velocity")
    for k in ("maxwellian", "log_normal", "asym_ej", "linear") if f else ():
        p = pair("S-kick")
        h = dict(base)
        h[(me, "kick_prescription")] = c(k)
        a = [star, sym("sigma"), sym("mean")]
        v, _, rp, _ = p.run(f, a, me, h)
        w, _, rp2, _ = p.run(sp["kick_velocity"], [me] + a, None, h)
        p.same("velocity " + k, v, w, f.key, p.both("velocity " + k, f, rp, rp2))
    f = meth("_get_kick_normalisation")
    for k in ("one_minus_fallback", "one_over_mass", "NS_one_minus_fallback_BH_one",
              "one", "zero") if f else ():
        p = pair("S-kick")
        h = dict(base)
        h[(me, "kick_normalisation")] = c(k)
        v, _, rp, _ = p.run(f, [star], me, h)
        w, _, rp2, _ = p.run(sp["kick_norm"], [me, star], None, h)
        p.same("normalisation " + k, v, w, f.key, p.both("normalisation " + k, f, rp, rp2))
    f = meth("generate_kick")
    if f:
        p = pair("S-kick")
        a = [star, sym("sigma"), sym("mean")]
        v, _, rp, _ = p.run(f, a, me, dict(base))
        w, _, rp2, _ = p.run(sp["kick"], [me] + a, None, dict(base))
        p.same("generate_kick", v, w, f.key, p.both("generate_kick", f, rp, rp2))
    f = meth("get_combined_tilt")
    if f:
        p = pair("S-orbit", noinline={"rotate"})
        a = [sym("x%d" % i) for i in range(4)]
        v, _, rp, _ = p.run(f, a, me, dict(base))
        w, _, rp2, _ = p.run(sp["combined_tilt"], [me] + a, None, dict(base))
        p.same("combined tilt", v, w, f.key, p.both("combined tilt", f, rp, rp2))


    f = meth("collapse_star")
    for mech in MECH if f else ():
        for opt, ref in (("use_core_masses", "from_cores"),
                         ("allow_spin_None", "without_spin"),
                         ("use_profiles", "from_profile"),
                         ("WD", "white_dwarf")):
            if opt == "use_profiles" and mech not in MECH[:3]:
                continue       # the engines also judge the predicted state
            p = pair("S-grav", noinline={"PISN_prescription", "compute_m_rembar",
                                         "do_core_collapse_BH", "CO_radius",
                                         "get_ejecta_element_mass_at_collapse",
                                         "convert_star_to_massless_remnant",
                                         "check_SN_type"})
            h = dict(base)
            for o in ("use_interp_values", "use_core_masses", "allow_spin_None",
                      "use_profiles"):
                h[(me, o)] = TRUE if o == opt else FALSE
            h[(me, "mechanism")] = c(mech)
            h[(star, "state")] = c("H-rich_Core_C_depleted")
            h[(star, "SN_type")] = c("WD" if opt == "WD" else "CCSN")
            m = sym("M_REMBAR")
            p.overrides = {"compute_m_rembar":
                           lambda ev, a, kw, st, *r: mk("tuple", sym("M_REMBAR"),
                                                        sym("F_FB"), sym("STATE"))}
            v, hv, rp, _ = p.run(f, [star], me, h)
            w, _, rp2, _ = p.run(sp[ref], [me, star, m], None, h)
            ws = spread(w, 5)
            dc = p.both("%s/%s" % (mech, opt), f, rp, rp2)
            if opt != "WD":
                dc = or_(dc, p.run(sp["is_na"], [m])[0])
            if opt == "use_profiles":
                dc = or_(dc, p.run(sp["no_profile"], [star])[0])
            for nm, y in zip(("mass", "state", "spin") + (
                    ("he_core_mass", "co_core_mass") if opt == "WD" else
                    ("m_disk_accreted", "m_disk_radiated")), ws):
                p.same("%s/%s:%s" % (mech, opt, nm), hv.get((star, nm)), y, f.key, dc)

    f = meth("orbital_kick")
    for ev_, sn, co in (("CC1", "star_1", "star_2"),
                        ("CC2", "star_2", "star_1")) if f else ():
        for typ, st, bst in (("CCSN", "BH", "detached"), ("CCSN", "NS", "detached"),
                             ("ECSN", "NS", "detached"), ("PPISN", "BH", "detached"),
                             ("PISN", "massless_remnant", "detached"),
                             ("CCSN", "BH", "disrupted"), ("CCSN", "BH", "merged"),
                             ("CCSN", "BH", "initially_single_star"),
                             ("WD", "WD", "detached"), ("WD", "WD", "disrupted")):
            p = pair("S-orbit", noinline={"generate_kick", "get_combined_tilt",
                                          "separation_evol_wind_loss"})
            S, C = sym("SN"), sym("COMP")
            h = dict(base)
            h[(b, sn)], h[(b, co)] = S, C
            h[(b, "event")] = c(ev_)
            h[(b, "state")] = c(bst)
            h[(S, "SN_type")], h[(S, "state")] = c(typ), c(st)
            h[(C, "state")] = c("H-rich_Core_H_burning")
            v, hv, rp, _ = p.run(f, [b], me, h)
            w, hw, rp2, _ = p.run(sp["orbit_after"], [me, b, S, C], None, h)
            dc = p.both("%s %s %s %s" % (ev_, typ, st, bst), f, rp, rp2)
            for o, attrs in ((b, ("separation", "eccentricity", "V_sys",
                                  "orbital_period", "state", "true_anomaly_first_SN",
                                  "true_anomaly_second_SN",
                                  "first_SN_already_occurred", "time")),
                             (S, ("natal_kick_velocity", "natal_kick_azimuthal_angle",
                                  "natal_kick_polar_angle", "natal_kick_mean_anomaly",
                                  "spin_orbit_tilt_first_SN",
                                  "spin_orbit_tilt_second_SN")),
                             (C, ("spin_orbit_tilt_first_SN",
                                  "spin_orbit_tilt_second_SN"))):
                for a in attrs:
                    x = hv.get((o, a), mk("attr", o, a))
                    y = hw.get((o, a), mk("attr", o, a))
                    if typ == "WD" and a in ("V_sys",) :
                        continue
                    p.same("%s %s %s %s: %s.%s" % (ev_, typ, st, bst, vn.show(o), a),
                           x, y, f.key, dc)


def _cmp(p, label, f, v, w, dc, names):
    if names:
        vs, ws = spread(v, len(names)), spread(w, len(names))
        if vs is not None and ws is not None:
            for nm, x, y in zip(names, vs, ws):
                p.same("%s:%s" % (label, nm), x, y, f.key, dc)
            return
    p.same(label, v, w, f.key, dc)
