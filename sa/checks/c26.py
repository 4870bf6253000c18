"""Elementary relations of posydon.utils.common_functions.

Every function is brought into normal form and compared on every path with an
independent reference in spec/relations.py.
"""
from .. import fp, vn
from ..repo import AnalysisBroken
from ..spec import Pair, load, spread
from ..vn import FALSE, NONE, TRUE, c, mk, or_, sym

ASSUMPTIONS = [
    "arithmetic is compared up to real-number algebra, not floating point rounding",
    "numbers are judged as scalars; arrays are their elements",
    "the reference in /verif/spec/relations.py transcribes the documented relations",
]
M = "posydon/utils/common_functions.py"
PLAIN = [
    ("roche_lobe_radius", None, ("m1", "m2", "a_orb")),
    ("check_for_RLO", None, ("m1", "r1", "m2", "r2", "separation", "tolerance")),
    ("orbital_separation_from_period", None, ("period_days", "m1_solar", "m2_solar")),
    ("orbital_period_from_separation", None, ("separation", "m1", "m2")),
    ("period_evol_wind_loss", None, ("M_current", "M_init", "Mcomp", "P_init")),
    ("separation_evol_wind_loss", None, ("M_current", "M_init", "Mcomp", "A_init")),
    ("period_change_stable_MT", None, ("period_i", "Mdon_i", "Mdon_f", "Macc_i", "alpha",
                                       "beta")),
    ("beta_gw", None, ("star1_mass", "star2_mass")),
    ("inspiral_timescale_from_separation", "inspiral",
     ("star1_mass", "star2_mass", "separation", "eccentricity")),
    ("inspiral_timescale_from_orbital_period", "inspiral_period",
     ("star1_mass", "star2_mass", "orbital_period", "eccentricity")),
    ("stefan_boltzmann_law", None, ("L", "R")),
    ("Schwarzschild_Radius", None, ("M",)),
    ("He_MS_lifetime", None, ("mass",)),
    ("spin_stable_mass_transfer", None, ("spin_i", "star_mass_preMT", "star_mass_postMT")),
    ("profile_recomb_energy", "recombination",
     ("x_mass_fraction_H", "y_mass_fraction_He", "frac_HII", "frac_HeII", "frac_HeIII")),
]
RICH = ["H-rich", "stripped_He", "accreted_He"]
BURN = ["Core_H_burning", "Core_He_burning", "Shell_H_burning", "Core_He_depleted",
        "Core_C_depleted", "non_burning"]


def check(ctx):
    ctx.rule("R-formula", "the function is the documented relation", 8)
    ctx.rule("R-state", "stellar states and mass-transfer cases follow their definition", 20)
    ctx.rule("R-event", "state and event of a binary follow from both stars", 20)
    ctx.rule("R-profile", "binding energies and core boundaries of a profile", 4)
    sp = load(ctx, "relations").functions
    fs = ctx.repo.module(M).functions
    for q, s, names in PLAIN:
        f = fs.get(q)
        if f is None:
            ctx.note("%s not found" % q)
            continue
        vn.reset()
        args = [sym(x) for x in names]
        scalar(ctx, "R-formula", args).compare(q, f, sp[s or q], args)
    remnants(ctx, fs, sp)
    star_states(ctx, fs, sp)
    cases(ctx, fs, sp)
    events(ctx, fs, sp)
    profiles(ctx, fs, sp)


def scalar(ctx, rule, args, **kw):
    p = Pair(ctx, rule, **kw)

    def setup(ev):
        ev.isinst.update({x.id: {"float"} for x in args})
        ev.arrays = True
    p.setup = setup
    return p


def equal(x, y):
    try:
        return fp.different(x, y) is None
    except fp.Unknown:
        return False


def remnants(ctx, fs, sp):
    f = fs.get("CO_radius")
    if f is not None:
        for k in ("BH", "NS", "WD", "other"):
            vn.reset()
            scalar(ctx, "R-formula", []).compare("CO_radius of " + k, f, sp["CO_radius"],
                                                 [sym("M"), c(k)])
    f = fs.get("eddington_limit")
    if f is not None:
        for k in ("NS", "BH", "WD"):
            for first in (1, 2):
                vn.reset()
                b, A, D = sym("binary"), sym("ACC"), sym("DON")
                vn.DISTINCT.update([A, D])
                heap = {(b, "star_%d" % first): A, (b, "star_%d" % (3 - first)): D,
                        (A, "state"): c(k), (D, "state"): c("H-rich_Core_H_burning"),
                        (A, "mass"): sym("m"), (D, "surface_h1"): sym("X")}
                for o, n in ((A, "state"), (A, "mass"), (D, "surface_h1")):
                    heap[o, n + "_history"] = mk("list")
                p = scalar(ctx, "R-formula", [])
                v, h, rp, _ = p.run(f, [b, c(-1)], None, heap)
                w, _, rp2, _ = p.run(sp["eddington_limit"], [c(k), sym("m"), sym("X")])
                dc = p.both("eddington_limit", f, rp, rp2)
                vs, ws = spread(v, 2), spread(w, 2)
                lab = "Eddington limit of a %s as star %d" % (k, first)
                if vs is None:
                    ctx.note("undecided: " + lab)
                    continue
                if k == "WD":
                    # a recorded defect keeps its own key, any other one is reported
                    z = spread(p.run(sp["eddington_grams"],
                                     [c(k), sym("m"), sym("X")])[0], 2)
                    if all(equal(vn.ite(dc, c(0), x), vn.ite(dc, c(0), y))
                           for x, y in zip(vs, z)):
                        ctx.instance("R-formula", lab)
                        ctx.find("R-formula", "Eddington limit of a WD: mass in grams",
                                 f.key, "the radius of the white dwarf is computed from "
                                 "its mass in grams instead of solar masses")
                        continue
                p.same(lab, vs[0], ws[0], f.key, dc)
                p.same(lab + ": efficiency", vs[1], ws[1], f.key, dc)
    f = fs.get("beaming")
    if f is not None:
        vn.reset()
        b = sym("binary")
        p = scalar(ctx, "R-formula", [], overrides={
            "eddington_limit": lambda *a: mk("tuple", sym("edd"), sym("eta"))})
        v, h, rp, _ = p.run(f, [b])
        w, _, rp2, _ = p.run(sp["beaming"], [mk("attr", b, "lg_mtransfer_rate"), sym("edd")])
        dc = p.both("beaming", f, rp, rp2)
        for i, n in enumerate(("rate", "factor")):
            p.same("beaming: " + n, spread(v, 2)[i], spread(w, 2)[i], f.key, dc)


PARS = ("star_mass", "surface_h1", "center_h1", "center_he4", "center_c12", "log_LH",
        "log_LHe", "log_Lnuc")


def star_states(ctx, fs, sp):
    f = fs.get("infer_star_state")
    g = fs.get("check_state_of_star")
    if f is not None:
        for co in (FALSE, TRUE):
            vn.reset()
            args = [sym(x) for x in PARS] + [co]
            scalar(ctx, "R-state", args).compare(
                "state of a %s" % ("compact object" if co is TRUE else "star"), f,
                sp["infer_star_state"], args)
    if g is None:
        return
    for i in (None, -1, 1):
        for k in ("WD", "NS", "BH"):
            vn.reset()
            s = sym("star")
            p = scalar(ctx, "R-state", [], noinline={"infer_star_state"})
            heap = {(s, "state"): c(k), (s, "state_history"): mk("list", c(k), c(k))}
            v, h, rp, _ = p.run(g, [s, NONE if i is None else c(i), TRUE], None, heap)
            lab = "compact object %s(i=%s)" % (k, i)
            ctx.instance("R-state", lab)
            m = mk("attr", s, "mass") if i is None else mk(
                "idx", mk("attr", s, "mass_history"), c(i))
            if k == "WD":
                p.same(lab, v, c("WD"), g.key, rp or FALSE)
            elif v is not None and v.k == "call" and "infer" in v.a[0]:
                kw = dict(v.a[2])
                p.same(lab + ": mass", kw.get("star_mass"), m, g.key)
                p.same(lab + ": compact", kw.get("star_CO"), TRUE, g.key)
            else:
                ctx.find("R-state", lab, g.key, "the state of a compact object is not "
                         "inferred from its mass")
    for i in (None, -1, 0):
        vn.reset()
        s = sym("star")
        p = scalar(ctx, "R-state", [], noinline={"infer_star_state"})
        v, h, rp, _ = p.run(g, [s, NONE if i is None else c(i), FALSE])
        ctx.instance("R-state", "check_state_of_star(i=%s)" % i)
        kw = dict(v.a[2]) if v is not None and v.k == "call" else {}
        for k in PARS:
            n = "mass" if k == "star_mass" else k
            want = mk("attr", s, n) if i is None else mk(
                "idx", mk("attr", s, n + "_history"), c(i))
            if k not in kw and v is not None and v.k == "call" and "infer" in v.a[0]:
                ctx.find("R-state", "check_state_of_star:" + k, g.key,
                         "the state is inferred without %s" % k)
            elif k in kw:
                p.same("check_state_of_star(i=%s): %s" % (i, k), kw[k], want, g.key)


def cases(ctx, fs, sp):
    f = fs.get("infer_mass_transfer_case")
    if f is None:
        return
    for r in RICH:
        for b in BURN:
            vn.reset()
            o, m, d = sym("overflow"), sym("rate"), sym("dominating")
            p = scalar(ctx, "R-state", [])
            v, h, rp, _ = p.run(f, [o, m, c(r + "_" + b), d])
            w, h, rp2, _ = p.run(sp["mt_case"], [o, m, c(r), c(b), d])
            p.same("mass-transfer case of %s_%s" % (r, b), v, w, f.key,
                   p.both("case of %s_%s" % (r, b), f, rp, rp2))


def events(ctx, fs, sp):
    f = fs.get("get_binary_state_and_event_and_mt_case")
    if f is None:
        return
    HMS, G, CO = "H-rich_Core_H_burning", "H-rich_Shell_H_burning", "BH"
    END, HE = "stripped_He_Core_He_depleted", "stripped_He_Core_He_burning"
    for klass, want in (("not_converged", (None, None, "None")),
                        ("initial_MT", ("initial_RLOF", None, "None"))):
        vn.reset()
        p = scalar(ctx, "R-event", [])
        b = sym("binary")
        vn.DISTINCT.update([NONE, b])
        v, h, rp, _ = p.run(f, [b, c(klass), NONE])
        vs = spread(v, 3)
        if vs is None:
            ctx.note("undecided: " + klass)
            continue
        for x, y, n in zip(vs, want, ("state", "event", "case")):
            p.same("%s: %s" % (klass, n), x, NONE if y is None else c(y), f.key, rp or FALSE)
    sts = [(HMS, HMS), (G, HMS), (HMS, G), (G, G), (G, CO), (CO, G), (END, HMS), (G, END),
           (HE, HE), (END, END)]
    for s1, s2 in sts:
        for klass in (None, "unstable_MT", "stable_MT"):
            for n1, n2 in ((1, 2), (0, 0), (0, 2), (4, 0), (3, 5), (8, 9), (9, 9), (0, 6)):
                one_event(ctx, f, sp, s1, s2, klass, n1, n2)
                if klass is not None:
                    one_event(ctx, f, sp, s1, s2, klass, n1, n2, 1)


def one_event(ctx, f, sp, s1, s2, klass, n1, n2, i=None):
    vn.reset()
    b, A, B = sym("binary"), sym("S1"), sym("S2")
    vn.DISTINCT.update([A, B])
    heap = {(b, "star_1"): A, (b, "star_2"): B, (A, "state"): c(s1), (B, "state"): c(s2)}
    lab = "%s + %s, cases %d %d, %s%s" % (s1, s2, n1, n2, klass,
                                          "" if i is None else ", step %d" % i)
    klass = NONE if klass is None else c(klass)

    def at(o, n):
        return mk("attr", o, n) if i is None else mk(
            "idx", mk("attr", o, n + "_history"), c(i))
    if i is not None:
        for o, s in ((A, s1), (B, s2)):
            heap[o, "state_history"] = mk("list", c("non"), c(s), c("sense"))
    o1, o2 = [at(b, "rl_relative_overflow_%d" % j) for j in (1, 2)]
    vn.DISTINCT.update([NONE, b, o1, o2])
    seen = []

    def case(ev, args, kw, st, fr):
        x = list(args) + [kw[k] for k in ("rl_relative_overflow", "lg_mtransfer_rate",
                                          "donor_state", "dominating_star") if k in kw]
        j = 1 if x and x[0] is o2 else 0
        while len(seen) < 2:
            seen.append(None)
        seen[j] = x[:4]
        return c(n2 if j else n1)
    dbl = ("H-rich_Core_H_burning", "stripped_He_Core_He_burning", "WD", "NS", "BH")
    p = scalar(ctx, "R-event", [], overrides={"infer_mass_transfer_case": case})
    setup = p.setup

    def exc_free(ev):
        setup(ev)
        ev.no_exc = True
    p.setup = exc_free
    v, h, rp, _ = p.run(f, [b, klass, NONE if i is None else c(i)], None, heap)
    rate = at(b, "lg_mtransfer_rate")
    want = [[o1, rate, c(s1)], [o2, rate, c(s2)]]
    for j in (0, 1):
        ctx.instance("R-event", lab + " arguments %d" % (j + 1))
        if len(seen) == 2 and seen[j] is not None and seen[j][:3] != want[j]:
            ctx.find("R-event", lab + ": case of star %d" % (j + 1), f.key,
                     "the mass-transfer case of star %d does not use its own overflow and "
                     "state" % (j + 1))
            return
    if len(seen) != 2 or None in seen:
        flat = spread(v, 3)
        if seen or flat is None or any(x.k != "c" for x in flat):
            ctx.note("undecided: " + lab)
        elif flat[0] is NONE:
            ctx.find("R-event", lab, f.key, "a converged binary has no state")
        return
    ge = vn.not_(vn.lt(o1, o2))
    if len(seen[0]) > 3:
        p.same(lab + ": dominating 1", vn.truth(seen[0][3]), ge, f.key)
        p.same(lab + ": dominating 2", vn.truth(seen[1][3]), vn.not_(ge), f.key)
    ends = []
    for s, st in ((A, s1), (B, s2)):
        g = at(s, "center_gamma")
        e = TRUE if "depleted" in st else vn.and_(
            vn.not_(vn.eq(g, NONE)), vn.not_(vn.lt(g, c(10))))
        ends.append(e)
    w, _, rp2, _ = p.run(sp["event_of"], [
        b, c(n1), c(n2), klass, o1, o2, c(s1), c(s2), c(s1 not in dbl), c(s2 not in dbl),
        ends[0], ends[1]], None, heap)
    dc = p.both(lab, f, rp, rp2)
    vs, ws = spread(v, 3), spread(w, 3)
    if vs is None:
        ctx.note("undecided: " + lab)
        return
    for j, n in enumerate(("state", "event", "case")):
        p.same("%s: %s" % (lab, n), vs[j], ws[j], f.key, dc)


def profiles(ctx, fs, sp):
    f = fs.get("calculate_binding_energy")
    arr = lambda n: mk("list", *[sym("%s%d" % (n, i)) for i in range(4)])
    if f is not None:
        for n in (1, 2, 3, 4):
            vn.reset()
            m, r, d, u, k = arr("m"), arr("r"), arr("d"), arr("u"), sym("factor")
            p = scalar(ctx, "R-profile", [])
            v, h, rp, _ = p.run(f, [m, r, d, u, c(n), k, FALSE])
            w, h, rp2, _ = p.run(sp["binding_energy"], [m, r, d, u, c(n), k])
            p.same("binding energy of %d cells" % n, v, w, f.key, rp or FALSE)
    f = fs.get("linear_interpolation_between_two_cells")
    if f is not None:
        for top, bot in ((1, 0), (3, 2)):
            vn.reset()
            y, x, t = arr("y"), arr("x"), sym("target")
            p = scalar(ctx, "R-profile", [])
            v, h, rp, _ = p.run(f, [y, x, t, c(top), c(bot)])
            w, h, rp2, _ = p.run(sp["interpolated"], [y, x, t, c(top), c(bot)])
            p.same("interpolation between cells %d and %d" % (bot, top), v, w, f.key,
                   rp or FALSE)
    f = fs.get("rotate")
    if f is not None:
        vn.reset()
        a = mk("list", *[sym("axis%d" % i) for i in range(3)])
        p = scalar(ctx, "R-formula", [])
        v, h, rp, _ = p.run(f, [a, sym("angle")])
        w, h, rp2, _ = p.run(sp["rotate"], [a, sym("angle")])
        dc = p.both("rotate", f, rp, rp2)
        rows = [spread(x, 3) for x in spread(v, 3) or ()]
        if len(rows) != 3 or None in rows:
            ctx.note("undecided: rotate")
        else:
            for i, r in enumerate(spread(w, 3)):
                for j, y in enumerate(spread(r, 3)):
                    p.same("rotate[%d][%d]" % (i, j), rows[i][j], y, f.key, dc)
    lam(ctx, fs, sp)
    boundary(ctx, fs, sp)
    internal(ctx, fs, sp)
    recombining(ctx, fs, sp)
    parameters(ctx, fs)


def lam(ctx, fs, sp):
    f = fs.get("calculate_lambda_from_profile")
    if f is None:
        return
    arr = lambda n: mk("list", *[sym("%s%d" % (n, i)) for i in range(4)])
    for st, co, el in (("H-rich_Core_He_burning", FALSE, "x_mass_fraction_H"),
                       ("H-rich_Core_He_burning", TRUE, "y_mass_fraction_He"),
                       ("stripped_He_Core_He_depleted", FALSE, "y_mass_fraction_He")):
        for ind in (-1, 0, 1, 2, 3):
            vn.reset()
            m, r, d, u = arr("m"), arr("r"), arr("d"), arr("u")
            cols = {"x_mass_fraction_H": arr("h"), "y_mass_fraction_He": arr("y")}
            pr = mk("dict", *sorted(((c(k), v) for k, v in cols.items()),
                                    key=lambda t: t[0].id))
            x = cols[el]
            p = scalar(ctx, "R-profile", [], overrides={
                "get_mass_radius_dm_from_profile": lambda *a: mk("tuple", m, r, d),
                "get_internal_energy_from_profile": lambda *a: u,
                "calculate_core_boundary": lambda *a: c(ind)})
            fr, al, tol = sym("fraction"), sym("alpha_thermal"), sym("tolerance")
            names = [y.arg for y in f.node.args.args]
            args = {"profile": pr, "donor_star_state": c(st), "m1_i": m.a[0],
                    "radius1": r.a[0], "core_element_fraction_definition": fr,
                    "ind_core": NONE, "common_envelope_alpha_thermal": al,
                    "tolerance": tol, "CO_core_in_Hrich_star": co, "verbose": FALSE,
                    "common_envelope_option_for_lambda":
                        c("lambda_from_profile_gravitational_plus_internal")}
            if set(names) != set(args):
                ctx.note("undecided: lambda from profile (parameters)")
                return
            v, h, rp, _ = p.run(f, [args[n] for n in names])
            w, h, rp2, _ = p.run(sp["lambda_from_profile"], [m, r, d, u, x, c(ind), fr, al,
                                                            tol])
            lab = "%s%s, core at cell %d" % (st, " (CO core)" if co is TRUE else "", ind)
            dc = or_(rp or FALSE, rp2 or FALSE)
            vs, ws = spread(v, 3), spread(w, 3)
            if vs is None:
                ctx.note("undecided: " + lab)
                continue
            for n, a, b in zip(("lambda", "core mass", "core radius"), vs, ws):
                p.same("%s: %s" % (lab, n), a, b, f.key, dc)


def boundary(ctx, fs, sp):
    f = fs.get("calculate_core_boundary")
    if f is None:
        return
    names = ("mass", "radius", "x_mass_fraction_H", "y_mass_fraction_He",
             "z_mass_fraction_metals")
    for st, hyd in (("H-rich_Core_He_burning", 1), ("stripped_He_Core_He_depleted", 0)):
        for co in (FALSE, TRUE):
            vn.reset()
            pr, t = sym("profile"), sym("dtype")
            heap = {(pr, "dtype"): t, (t, "names"): mk("list", *[c(x) for x in names])}
            p = scalar(ctx, "R-profile", [])
            fr = sym("fraction")
            vn.DISTINCT.update([NONE, fr])
            v, h, rp, _ = p.run(f, [sym("donor_mass"), c(st), pr, NONE, fr, co], None, heap)
            w, h, rp2, _ = p.run(sp["core_boundary"], [pr, c(bool(hyd)), co, fr])
            p.same("core boundary of %s%s" % (st, " (CO core)" if co is TRUE else ""), v, w,
                   f.key, rp or FALSE)


def internal(ctx, fs, sp):
    f = fs.get("get_internal_energy_from_profile")
    if f is None:
        return
    base = "lambda_from_profile_gravitational"
    for o in ("", "_plus_internal", "_plus_internal_minus_recombination"):
        vn.reset()
        pr, t, h2, rec = [sym(x) for x in ("profile", "dtype", "h2", "recombination")]
        heap = {(pr, "dtype"): t,
                (t, "names"): mk("list", c("mass"), c("radius"), c("energy"))}
        p = scalar(ctx, "R-profile", [], overrides={
            "calculate_H2recombination_energy": lambda *a: h2,
            "calculate_recombination_energy": lambda *a: rec})
        v, h, rp, _ = p.run(f, [c(base + o), pr], None, heap)
        w, h, rp2, _ = p.run(sp["internal_energy"], [pr, c(base + o), h2, rec])
        p.same("internal energy for " + base + o, v, w, f.key, rp or FALSE)


def recombining(ctx, fs, sp):
    """Recombination energies of a profile with all its columns, of two cells."""
    cols = ("radius", "x_mass_fraction_H", "y_mass_fraction_He", "neutral_fraction_H",
            "neutral_fraction_He", "avg_charge_He")
    f = fs.get("calculate_H2recombination_energy")
    if f is not None:
        vn.reset()
        pr, t = sym("profile"), sym("dtype")
        heap = {(pr, "dtype"): t, (t, "names"): mk("list", *[c(x) for x in cols])}
        p = scalar(ctx, "R-profile", [])
        v, h, rp, _ = p.run(f, [pr], None, heap)
        w, h, _, _ = p.run(sp["h2_recombination"], [pr])
        p.same("H2 recombination energy", v, w, f.key, rp or FALSE)
    f = fs.get("calculate_recombination_energy")
    if f is not None:
        vn.reset()
        t = sym("dtype")
        a = {k: mk("list", *[sym("%s_%d" % (k, i)) for i in (0, 1)]) for k in cols}
        pr = mk("dict", *sorted(((c(k), v) for k, v in a.items()), key=lambda x: x[0].id))
        heap = {(pr, "dtype"): t, (t, "names"): mk("list", *[c(x) for x in cols])}
        p = scalar(ctx, "R-profile", [])
        v, h, rp, _ = p.run(f, [pr], None, heap)
        vs = spread(v, 2)
        if vs is None:
            ctx.note("undecided: recombination energy of a profile")
            return
        for i in (0, 1):
            w, h, _, _ = p.run(sp["ionised_recombination"], [a[k].a[i] for k in cols[1:]])
            p.same("recombination energy of cell %d" % i, vs[i], w, f.key, rp or FALSE)


def parameters(ctx, fs):
    """Core masses and lambdas are stored under the name of their core definition."""
    f = fs.get("CEE_parameters_from_core_abundance_thresholds")
    if f is None:
        return
    for st in ("H-rich_Core_He_burning", "stripped_He_Core_He_burning", "BH", None):
        vn.reset()
        s, pr = sym("star"), sym("profile")
        vn.DISTINCT.update([NONE, pr])
        heap = {(s, "state"): c(st or "H-rich_Core_He_burning"),
                (s, "profile"): pr if st else NONE}

        def got(ev, args, kw, sta, fr):
            k = kw.get("core_element_fraction_definition", c(0.1))
            co = kw.get("CO_core_in_Hrich_star", FALSE)
            return mk("tuple", *[mk("call", "core", (c(n), k, co), ())
                                 for n in ("lambda", "m_core", "r_core")])
        p = Pair(ctx, "R-profile", overrides={
            "calculate_lambda_from_profile": got},
            noinline={"calculate_core_boundary"})
        p.setup = lambda ev: ev.isinst.update({pr.id: {"ndarray"}})
        v, h, rp, _ = p.run(f, [s, FALSE], None, heap)
        for tag, frac in (("1cent", 0.01), ("10cent", 0.1), ("30cent", 0.3),
                          ("pure_He_star_10cent", 0.1)):
            pure = "pure" in tag
            for n in ("lambda", "m_core", "r_core"):
                w = mk("call", "core", (c(n), c(frac), c(bool(pure and "H-rich" in
                                                              (st or "")))), ())
                if st is None or st == "BH":
                    w = vn.NAN if hasattr(vn, "NAN") else c("NaN!")
                elif "stripped" in st and not pure:
                    w = {"lambda": c("NaN!"), "m_core": mk("attr", s, "mass"),
                         "r_core": vn.pow_(c(10), mk("attr", s, "log_R"))}[n]
                k = "%s_CE_%s" % (n, tag)
                p.same("%s of %s" % (k, st or "a star without profile"),
                       h.get((s, k)), w, f.key, rp or FALSE)
