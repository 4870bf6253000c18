"""C17: paired conversions undo each other.

Each pair is composed in a driver (spec/inverse.py) and brought into normal form; the
result must be the argument itself for every value of the remaining inputs.
"""
import ast

from .. import vn
from ..ev import _log10
from ..repo import AnalysisBroken
from ..spec import Pair, load, spread
from ..vn import FALSE, NONE, TRUE, c, mk, mkcall, sym

ASSUMPTIONS = [
    "arithmetic is compared up to real-number algebra, not floating point rounding",
    "a scaler is not fitted to data without any spread, and logarithms are taken of "
    "positive numbers only",
]
IF = "posydon/interpolation/IF_interpolation.py"
DS = "posydon/grids/downsampling.py"
CF = "posydon/utils/common_functions.py"
SC = "posydon/interpolation/data_scaling.py"
METHODS = ("min_max", "log_min_max", "neg_log_min_max", "max_abs", "log_max_abs",
           "standarize", "log_standarize", "neg_log_standarize", "log", "none")


# Rounding of the physical constants (period and separation use different ones)
TOLERANCE = 3e-4


def factor(v):
    """Constant factor of a product, or None."""
    if v is not None and v.k == "poly" and len(v.a[0]) == 1:
        return v.a[0][0][0]
    return None


def back(p, label, v, x, where, dontcare):
    """v is x; products with powers of ten are compared as logarithms."""
    k = factor(v)
    if k is not None and has_ten(v):
        sign = -1 if k < 0 else 1
        v, x = (vn.lift(_log10, vn.mul_(c(sign), z)) for z in (v, x))
    p.same(label, v, x, where, dontcare)


def has_ten(v):
    return any(a.k == "pow" and vn.isnum(a.a[0]) and a.a[0].a[0] == 10
               for _, m in v.a[0] for a, _ in m)


def check(ctx):
    ctx.rule("I-scale", "scaling a value and back returns it", 8)
    ctx.rule("I-fit", "the scaled value is that of the named method", 8)
    ctx.rule("I-orbit", "period and separation determine each other", 2)
    ctx.rule("I-matrix", "scaling a table and back returns it, column by column", 4)
    ctx.rule("I-track", "a track rescaled for downsampling is scaled back", 1)
    ctx.rule("I-case", "codes and names of mass-transfer cases determine each other", 12)
    sp = load(ctx, "inverse").functions
    scalers(ctx, sp)
    orbit(ctx, sp)
    matrices(ctx, sp)
    track(ctx, sp)
    cases(ctx, sp)


def setup(ctx, rule, classes=()):
    p = Pair(ctx, rule)

    def f(ev):
        ev.masks = True
        ev.instantiate.update(classes)
    p.setup = f
    return p


def scalers(ctx, sp):
    cls = ctx.repo.module(SC).classes["DataScaler"]
    known = {n.value for n in ast.walk(ctx.repo.module(SC).tree)
             if isinstance(n, ast.Constant) and n.value in METHODS}
    for m in METHODS:
        if m not in known:
            ctx.note("scaling method %s not found" % m)
            continue
        vn.reset()
        x, train, lo, hi = sym("x"), sym("train"), sym("lower"), sym("upper")
        p = setup(ctx, "I-scale", [cls.key])
        for name, a in (("there_and_back", [x, train, c(m), lo, hi]),
                        ("back_and_there", [x, train, c(m), lo, hi]),
                        ("fit_and_back", [x, c(m), lo, hi])):
            v, _, r, _ = p.run(sp[name], a)
            back(p, "%s: %s" % (m, name.replace("_", " ")), v, x, cls.key, r or FALSE)


        # one-dimensional data: every spelling of the reduction is the same
        for f in ("min", "max", "mean", "std"):
            red = lambda ev, a, kw, st, fr, f=f: mkcall(f + " of", (a[0],))
            p.overrides.update({"." + f: red, "numpy." + f: red, "numpy.a" + f: red})
        v, _, r, _ = p.run(sp["scaled"], [x, train, c(m), lo, hi])
        w, _, _, _ = p.run(sp["scale"], [x, train, c(m), lo, hi])
        p.rule = "I-fit"
        p.same("scaled with %s" % m, v, w, cls.key, r or FALSE)


def orbit(ctx, sp):
    vn.reset()
    x, a, b = sym("x"), sym("m1"), sym("m2")
    p = setup(ctx, "I-orbit")
    for name in ("period", "separation"):
        v, _, r, _ = p.run(sp[name], [x, a, b])
        k = factor(v)
        if k is not None and abs(k - 1) < TOLERANCE:
            v = vn.div_(v, c(k))
        p.same(name, v, x, "posydon/utils/common_functions.py", r or FALSE)


def matrices(ctx, sp):
    """Two columns with different methods; three classes, one without scaler."""
    for name in ("matrix", "classes", "one class"):
        vn.reset()
        XT, X, klass = sym("XT"), sym("X"), sym("klass")
        vn.DISTINCT.update([XT, X, klass, NONE])
        p = setup(ctx, "I-matrix", [ctx.repo.module(SC).classes["DataScaler"].key,
                                    ctx.repo.module(IF).classes["MatrixScaler"].key,
                                    ctx.repo.module(IF).classes["Scaler"].key])
        p.overrides["numpy.unique"] = lambda ev, a, kw, st, fr: mk(
            "list", c("stable_MT"), c("None"), c("unstable_MT"))
        shape = mk("tuple", sym("n"), c(2))
        heap = {(XT, "shape"): shape, (X, "shape"): shape}
        a = [c("min_max"), c("standarize")]
        if name == "matrix":
            a += [XT, X]
        else:
            a += [c("max_abs"), c("min_max"), XT, sym("ic"), X, NONE if name == "one class" else klass]
        v, _, r, _ = p.run(sp["matrix" if name == "matrix" else "classes"], a,
                           heap=heap)
        for i, y in enumerate(spread(v, 2) or (None, None)):
            x = mk("idx", X, mk("tuple", mk("slice", NONE, NONE, NONE), c(i)))
            p.same("%s: column %d" % (name, i), y, x, IF, r or FALSE)


def track(ctx, sp):
    vn.reset()
    X, lo, hi, me, keep = (sym(n) for n in ("X", "low", "high", "self", "keep"))
    vn.DISTINCT.update([X, NONE])
    p = setup(ctx, "I-track")
    for f, v in (("min", lo), ("max", hi)):
        for n in ("numpy." + f, "numpy.a" + f, "numpy.nan" + f):
            p.overrides[n] = lambda ev, a, kw, st, fr, v=v: mk("list", v)
        p.overrides["." + f] = lambda ev, a, kw, st, fr, v=v: mk("list", v)
    cls = ctx.repo.module(DS).classes["TrackDownsampler"]
    masks = p.setup

    def typed(ev):
        masks(ev)
        ev.types[me.id] = cls
    p.setup = typed
    v, _, r, _ = p.run(sp["rescaled_track"], [me], heap={
        (X, "shape"): mk("tuple", sym("n"), c(1)), (me, "X"): X})
    y, a, b = spread(v, 3) or (None, None, None)
    if y is None or a is not lo or b is not hi:
        ctx.find("I-track", "limits of a track", cls.key,
                 "minimum and maximum are not kept when a track is rescaled")
        return
    f = ctx.repo.find_method(cls, "extract_downsample")
    v, _, r2, _ = p.run(f, {"scale_back": TRUE}, me, {
        (me, "X"): y, (me, "minima"): lo, (me, "maxima"): hi, (me, "keep"): TRUE,
        (me, "t"): sym("t")})
    t, x = spread(v, 2) or (None, None)
    col = mk("idx", X, mk("tuple", mk("slice", NONE, NONE, NONE), c(0)))
    p.same("value of a track", x, col, f.key, vn.or_(vn.eq(lo, hi), r or FALSE))
    p.same("time of a track", t, sym("t"), f.key, r or FALSE)


def cases(ctx, sp):
    """Tables, and short lists of codes of the two stars."""
    to_str, to_case = (ctx.consts.get(CF, n) for n in ("MT_CASE_TO_STR", "MT_STR_TO_CASE"))
    where = CF
    if not isinstance(to_str, dict) or not isinstance(to_case, dict):
        raise AnalysisBroken("tables of mass-transfer cases not evaluated")
    for k, name in to_str.items():
        ctx.instance("I-case", "%s <-> %s" % (k, name))
        if to_case.get(name) != k:
            ctx.find("I-case", "name of case %s" % k, where,
                     "%r is read back as %s" % (name, to_case.get(name)))
    for name, k in to_case.items():
        if to_str.get(k) != name:
            ctx.find("I-case", "case of name %s" % name, where,
                     "%s is written as %s" % (k, to_str.get(k)))
    m = ctx.repo.module(CF)
    enc, num = (m.functions[n] for n in ("cumulative_mass_transfer_string",
                                         "cumulative_mass_transfer_numeric"))
    codes = list(to_str) + [k + 10 for k in to_str]
    few = [0, 1, 2, 9, 11, 12]
    lists = [[k] for k in codes] + [[k, l] for k in codes for l in codes] + [
        [k, l, m] for k in few for l in few for m in few]
    seen = {}
    for l in lists:
        vn.reset()
        p = Pair(ctx, "I-case")
        a = [mk("list", *[c(x) for x in l])]
        v, _, r, _ = p.run(enc, a)
        p.same("text of %s" % l, v, p.run(sp["text"], a)[0], enc.key)
        p.same("condensed %s" % l, p.run(num, a)[0], p.run(sp["condensed"], a)[0], num.key)
        if v is None or not vn.isstr(v) or len(l) > 2 or len(set(l)) < len(l):
            continue
        s = v.a[0]
        if s in seen:
            ctx.find("I-case", "text of cases %s" % l, enc.key,
                     "%r is also the text of %s" % (s, seen[s]))
        seen[s] = l
    for k, name in to_str.items():
        vn.reset()
        p = Pair(ctx, "I-case")
        a, _, _, _ = p.run(num, [mk("list", c(name))])
        b, _, _, _ = p.run(num, [mk("list", c(k))])
        p.same("list of %s" % name, a, b, num.key)
