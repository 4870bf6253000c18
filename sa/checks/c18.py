"""C18: populations are weighted with the distributions they were drawn from.

Density and sampler of every distribution class are brought into normal form (an
array stands for one of its elements, a mask for a condition) and compared with the
reference in spec/sampling.py, which pairs them.  For every sampling option the
distribution object the sampler builds and the one the normalisation builds must be
the same class with the same parameters.  Joint density, mean mass and weights are
compared with their definition.
"""
import ast

from .. import vn
from ..repo import AnalysisBroken
from ..spec import Pair, bind, load, spread
from ..vn import FALSE, NONE, TRUE, c, mk, mkcall, sym

ASSUMPTIONS = [
    "arithmetic is compared up to real-number algebra, not floating point rounding",
    "scipy's quad integrates exactly and inverse_sampler, rejection_sampler and truncnorm "
    "draw from the density they are given",
    "options that only the normalisation knows (q_min, q_max, parameters of an initial mass "
    "function) describe a population to compare with, not the simulated one",
]
D = "posydon/popsyn/distributions.py"
I = "posydon/popsyn/IMFs.py"
S = "posydon/popsyn/independent_sample.py"
P = "posydon/popsyn/norm_pop.py"
DIST = [(D, x) for x in ("FlatMassRatio", "PowerLawMassRatio", "Sana12Period",
                         "PowerLawPeriod", "LogUniform", "LogNormalSeparation",
                         "ThermalEccentricity", "UniformEccentricity", "ZeroEccentricity")
        ] + [(I, x) for x in ("Salpeter", "Kroupa1993", "Kroupa2001", "Chabrier2003")]


def mentions(n, y):
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x is y:
            return True
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, vn.N) and x.id not in seen:
            seen.add(x.id)
            todo.extend(x.a)
    return False


def integral(ev, fn, lo, hi, st, fr, extra=()):
    """Definite integral as a term of the integrand's value at a bound variable."""
    y = mk("arg", 0, "integral")
    body = ev.apply(fn, [y] + list(extra), {}, st, fr)
    if not mentions(body, y):
        return vn.mul_(body, vn.sub_(hi, lo))
    return mkcall("integral", (body, lo, hi))


def over(ev, args, kw, st, fr):
    extra = kw.get("args")
    r = integral(ev, args[0], args[1], args[2], st, fr,
                 extra.a if extra is not None and extra.k in ("tuple", "list") else ())
    return mk("tuple", r, sym("error"))


def over2(ev, args, kw, st, fr):
    """Double integral; the inner limits may depend on the outer variable."""
    f, a, b, lo, hi = args[:5]
    m = mk("arg", 1, "integral")

    def at(x):
        return ev.apply(x, [m], {}, st, fr) if callable_(ev, x) else x
    q = mk("arg", 0, "integral")
    body = ev.apply(f, [q, m], {}, st, fr)
    return mk("tuple", mkcall("integral2", (body, at(lo), at(hi), a, b)), sym("error"))


def callable_(ev, x):
    return x.id in ev.values


def uniform(args, kw):
    lo = kw.get("low", args[0] if len(args) > 0 else c(0))
    hi = kw.get("high", args[1] if len(args) > 1 else c(1))
    return vn.add_(lo, vn.mul_(vn.sub_(hi, lo), sym("U")))


def inverse(ev, args, kw, st, fr):
    a = list(args) + [kw[k] for k in ("x", "y") if k in kw]
    return mkcall("inverse", tuple(a[:2]))


def reject(ev, args, kw, st, fr):
    lim, f = kw.get("x_lim"), kw.get("pdf")
    if f is None and len(args) == 3:       # reference
        lo, hi, f = args
    elif lim is not None and f is not None and lim.k in ("list", "tuple"):
        lo, hi = lim.a
    else:
        return mkcall("reject?", tuple(args))
    y = mk("arg", 0, "integral")
    return mkcall("reject", (ev.apply(f, [y], {}, st, fr), lo, hi))


def norm_pdf(ev, args, kw, st, fr):
    return mkcall("truncated", tuple(list(args) + [kw[k] for k in ("loc", "scale")
                                                   if k in kw]))


def norm_rvs(ev, args, kw, st, fr):
    return mkcall("truncated_draw", tuple(list(args) + [kw[k] for k in ("loc", "scale")
                                                        if k in kw]))


OVER = {
    "scipy.integrate.quad": over, "scipy.integrate.dblquad": over2,
    "inverse_sampler": inverse, "rejection_sampler": reject,
    "numpy.linspace": lambda ev, a, kw, st, fr: mkcall("grid", tuple(a[:2])),
    "inverse": inverse, "reject": reject, "truncated": norm_pdf, "truncated_draw": norm_rvs,
    ".uniform": lambda ev, a, kw, st, fr: uniform(a[1:], kw),
    ".random": lambda ev, a, kw, st, fr: sym("U"),
    "scipy.stats.truncnorm.pdf": norm_pdf, "scipy.stats.truncnorm.rvs": norm_rvs,
}


def pair(ctx, rule, more=None, types=(), values=()):
    p = Pair(ctx, rule, overrides=dict(OVER, **(more or {})))

    def setup(ev):
        ev.masks = True
        ev.types.update(types)
        ev.values.update(values)
    p.setup = setup
    return p


def check(ctx):
    ctx.rule("W-pdf", "the density is that of the named distribution, normalised", 8)
    ctx.rule("W-rvs", "samples are drawn from that density within the same limits", 8)
    ctx.rule("W-scheme", "sampler and normalisation build the same distribution", 6)
    ctx.rule("W-weight", "joint density, mean mass and weights follow their definition", 4)
    sp = load(ctx, "sampling").functions
    for path, name in DIST:
        distribution(ctx, sp, path, name)
    for opts in OPTIONS:
        scheme(ctx, sp, opts)
    weights(ctx, sp)


BASE = {"primary_mass_scheme": "Salpeter", "secondary_mass_scheme": "flat_mass_ratio",
        "binary_fraction_scheme": "const", "orbital_scheme": "period",
        "orbital_period_scheme": "Sana+12_period_extended"}
LIMITS = ("primary_mass_min", "primary_mass_max", "secondary_mass_min",
          "secondary_mass_max", "orbital_period_min", "orbital_period_max",
          "orbital_separation_min", "orbital_separation_max", "binary_fraction_const")
OPTIONS = [{}, {"primary_mass_scheme": "Kroupa1993"}, {"primary_mass_scheme": "Kroupa2001"},
           {"orbital_scheme": "separation", "orbital_separation_scheme": "log_uniform"}]


def maker(ctx, cls, made):
    """Constructor that names an object after its class and parameters."""
    init = ctx.repo.find_method(cls, "__init__")
    names = [a.arg for a in init.node.args.args[1:]]

    def make(ev, args, kw, st, fr):
        d = dict(zip(names, args))
        d.update(kw)
        d = bind(init, d)
        o = mk("dist", cls.name, *[d.get(n, NONE) for n in names])
        ev.types[o.id] = cls
        made[o] = cls
        ev._inline(init.node, init.mod, init.cls, init.key, [o] + [d[n] for n in names],
                   {}, {}, st, fr, fr.depth + 1)
        made.heap.update({k: v for k, v in st.heap.items() if k[0] is o})
        return o
    return make


class Made(dict):
    """Objects made so far, and their attributes."""

    def __init__(self):
        self.heap = {}


ROLE = [("imf", "m1", ("Salpeter", "Kroupa1993", "Kroupa2001", "Chabrier2003")),
        ("ratio", "q", ("FlatMassRatio", "PowerLawMassRatio")),
        ("orbit", "orbit", ("Sana12Period", "PowerLawPeriod", "LogUniform",
                            "LogNormalSeparation")),
        ("ecc", "ecc", ("ThermalEccentricity", "UniformEccentricity", "ZeroEccentricity"))]


def scheme(ctx, sp, opts):
    vn.reset()
    opts = dict(BASE, **opts)
    label = ", ".join(v for k, v in sorted(opts.items()) if BASE.get(k) != v) or "default"
    sep = opts["orbital_scheme"] == "separation"
    classes = {n: ctx.repo.module(path).classes[n] for path, n in DIST
               if n in ctx.repo.module(path).classes}
    made, used, values = Made(), {}, {}
    over = {"new:" + n: maker(ctx, k, made) for n, k in classes.items()}

    def draw(ev, args, kw, st, fr):
        k = ev.types.get(args[0].id)
        for role, name, of in ROLE:
            if k is not None and k.name in of:
                used.setdefault(role, []).append((args[0], tuple(args[1:]), kw))
                return sym(name)
        return mkcall("draw?", tuple(args))
    over[".rvs"] = draw
    p = pair(ctx, "W-scheme", over)
    masks = p.setup

    def setup(ev):
        masks(ev)
        ev.no_exc = True
        ev.types.update({o.id: k for o, k in made.items()})
        ev.values.update(values)
    p.setup = setup
    kws = {k: c(v) for k, v in opts.items()}
    kws.update({k: sym(k) for k in LIMITS})
    x = {n: sym(n) for n in ("m1", "q", "P", "binary", "U")}
    vn.DISTINCT.update(list(x.values()) + [NONE])
    g = ctx.repo.module(S).functions["generate_independent_samples"]
    w, heap, rs, _ = p.run(sp["sample_of"], dict(
        {"orbital_separation_scheme": c("log_uniform")}, RNG=sym("RNG"), **kws))
    got = spread(w, 4)
    if got is None or any(len(set(x[0] for x in used.get(r, ()))) != 1
                          for r in ("imf", "ratio", "orbit")):
        ctx.note("undecided: distributions sampled with option %s" % label)
        return
    values.update(p.ev.values)
    heap = dict(made.heap)
    dist = {r: used[r][0][0] for r in ("imf", "ratio", "orbit")}
    want, _, _, _ = p.run(sp["sample"], [x["m1"], x["q"], sym("orbit"), sym("ecc"), x["U"],
                                         kws["binary_fraction_const"]])
    for n, a, b in zip(("orbit", "eccentricity", "primary mass", "secondary mass"),
                       got, spread(want, 4)):
        p.same("sample of %s: %s" % (label, n), a, b, g.key, rs or FALSE)
    by_mass = "m1" in [z.arg for z in ctx.repo.find_method(
        made[dist["orbit"]], "pdf").node.args.args]
    for o, a, kw in used["orbit"]:
        m = kw.get("m1") or (a[1] if len(a) > 1 else None)
        if m is not None and by_mass:
            p.same("sample of %s: mass of the period distribution" % label, m, x["m1"], g.key)
    f = ctx.repo.module(P).functions["get_pdf"]
    h = ctx.repo.module(P).functions["get_mean_mass"]

    def density(label, dist, more, by_mass, limits):
        d = mk("dict", *sorted(((c(k), v) for k, v in dict(kws, **more).items()),
                               key=lambda t: t[0].id))
        lo = vn.or_(rs or FALSE, FALSE)
        for mass in (FALSE, TRUE):
            v, _, r1, _ = p.run(sp["density_of"], dict(
                {n: x[n] for n in ("m1", "q", "P", "binary")}, kwargs=d, mass_only=mass))
            w, _, r2, _ = p.run(sp["joint"], dict(
                {n: x[n] for n in ("m1", "q", "P", "binary")}, mass_only=mass,
                fb=kws["binary_fraction_const"], separation=TRUE if sep else FALSE,
                by_mass=TRUE if by_mass else FALSE, **dist), heap=heap)
            p.same("density of %s%s" % (label, " (masses only)" if mass is TRUE else ""),
                   v, w, f.key, vn.or_(r1 or FALSE, vn.or_(r2 or FALSE, lo)))
        p.rule = "W-weight"
        v, _, r1, _ = p.run(sp["mean_mass_of"], [d])
        a = [dist["imf"]] + ([] if limits is None else [dist["ratio"]]) + [
            kws["binary_fraction_const"], kws["primary_mass_min"], kws["primary_mass_max"]]
        if limits is None:
            w, _, r2, _ = p.run(sp["mean_mass_secondary"], a + [
                kws["secondary_mass_min"], kws["secondary_mass_max"]], heap=heap)
        else:
            w, _, r2, _ = p.run(sp["mean_mass_ratio"], a + limits, heap=heap)
        p.same("mean mass of %s" % label, v, w, h.key,
               vn.or_(r1 or FALSE, vn.or_(r2 or FALSE, lo)))
        p.rule = "W-scheme"

    density(label, dist, {}, by_mass, None)
    if label != "default":
        return
    # populations to compare with that are not sampled themselves
    qs = {k: sym(k) for k in ("q_min", "q_max")}
    slope = sym("slope")

    def build(name, *a):
        o, h, r, _ = p.run(sp[name], list(a))
        for k, v in made.heap.items():
            heap.setdefault(k, v)
        values.update(p.ev.values)
        return o
    ratio = build("flat_ratio", qs["q_min"], qs["q_max"])
    density("given mass ratios", dict(dist, ratio=ratio), qs, by_mass, list(qs.values()))
    ratio = build("power_law_ratio", slope, qs["q_min"], qs["q_max"])
    density("power law of mass ratios", dict(dist, ratio=ratio),
            dict(qs, secondary_mass_scheme=c("power_law_mass_ratio"),
                 mass_ratio_slope=slope), by_mass, list(qs.values()))
    orbit = build("power_law_period", slope, kws["orbital_period_min"],
                  kws["orbital_period_max"])
    density("power law of periods", dict(dist, orbit=orbit),
            dict(orbital_period_scheme=c("power_law"), power_law_slope=slope), False, None)


def weights(ctx, sp):
    vn.reset()
    f = ctx.repo.module(P).functions["calculate_model_weights"]
    stub = {"get_pdf": lambda ev, a, kw, st, fr: ev.call_func(
        sp["pdf_stub"], list(a), kw, st, fr)}
    for k in ("get_mean_mass", "mean_stub"):
        stub[k] = lambda ev, a, kw, st, fr: mkcall("mean", tuple(a) + tuple(kw.values()))
    stub["opaque_density"] = lambda ev, a, kw, st, fr: mkcall("joint", tuple(a))
    p = pair(ctx, "W-weight", stub)
    a = [sym("data"), sym("M_sim"), sym("simulation"), sym("population")]
    vn.DISTINCT.update(a)
    v, _, r1, _ = p.run(f, a)
    w, _, r2, _ = p.run(sp["weight"], a)
    p.same("weights of a population", v, w, f.key, r1 or FALSE)


def distribution(ctx, sp, path, name):
    cls = ctx.repo.module(path).classes.get(name)
    if cls is None:
        ctx.note("%s not found" % name)
        return
    vn.reset()
    init = ctx.repo.find_method(cls, "__init__")
    names = [a.arg for a in init.node.args.args[1:]]
    o = sym("dist")
    # pieces of a piecewise density are in order
    args = {n: {"m1break": c(0.083), "m2break": c(0.47)}.get(n) or sym(n) for n in names}
    vn.DISTINCT.update([NONE, o])
    p = pair(ctx, "W-pdf", types={o.id: cls})
    _, heap, rp, _ = p.run(init, args, o)
    rp, values = rp or FALSE, p.ev.values
    for meth, rule in (("pdf", "W-pdf"), ("rvs", "W-rvs")):
        g = sp["%s_%s" % (name, meth)]
        f = ctx.repo.find_method(cls, meth)
        want = [a.arg for a in g.node.args.args]
        if set(want) - set(names) - {"U", "m1"} != ({want[0]} - {"U"}):
            ctx.note("undecided: parameters of %s" % name)
            continue
        p = pair(ctx, rule, types={o.id: cls}, values=values)
        fn = [a.arg for a in f.node.args.args[1:]]
        rng = sym("rng")
        vn.DISTINCT.update([rng])
        fa = {n: rng if n == "rng" else sym("size") if n in ("size", "n_points")
              else sym("m1") if n == "m1" else sym("x") for n in fn}
        vn.DISTINCT.update([sym("m1")])
        v, h, r1, _ = p.run(f, fa, o, heap)
        w, h, r2, _ = p.run(g, [sym("U") if n == "U" else args.get(n, sym(
            "m1" if n == "m1" else "x")) for n in want])
        dc = vn.or_(rp, vn.or_(r1 or FALSE, r2 or FALSE))
        p.same("%s.%s" % (name, meth), v, w, f.key, dc)
