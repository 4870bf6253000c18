"""C06: saved population columns match the published schema.

The tables that publish the schema (property lists, column types, text widths)
are evaluated from the source; the functions that write and read tables are
evaluated symbolically on the full set of column names, which shows which
attribute each column is filled from and which column each attribute is read
from, for every property; storage keys are collected with their writers and
readers.
"""
import ast
import re

from .. import vn
from ..consts import UNKNOWN
from ..ev import Evaluator, Ref
from ..repo import AnalysisBroken
from ..vn import NONE, c, mk, sym
from . import c02

BS = "posydon/binary_evol/binarystar.py"
SS = "posydon/binary_evol/singlestar.py"
IO = "posydon/popsyn/io.py"
BP = "posydon/popsyn/binarypopulation.py"
CF = "posydon/utils/common_functions.py"
DTYPES = {"float64", "float32", "float", "int64", "int32", "int", "string", "object",
          "bool", "str"}

ASSUMPTIONS = [
    "pandas stores and returns a column unchanged under its name",
    "lengths of the free-form texts mt_history_* and channel are not bounded by the "
    "source and not judged"]


def table(ctx, mod, name, kind):
    v = ctx.consts.get(mod, name)
    if v is UNKNOWN or not isinstance(v, kind):
        raise AnalysisBroken("table %s of %s not evaluated" % (name, mod))
    return v


def check(ctx):
    ctx.rule("S-dtype", "every recorded property has a declared column type", 40)
    ctx.rule("S-clean", "cleaning a table gives every column its declared type", 200)
    ctx.rule("S-width", "every text column has a width, at least that of the longest "
             "label it can hold", 10)
    ctx.rule("S-write", "every column of a table is filled from the property it is "
             "named after", 100)
    ctx.rule("S-read", "every property is read back from the column named after it",
             200)
    ctx.rule("S-key", "every storage key that is read is written somewhere", 10)
    ctx.rule("S-col", "every population column referred to by name is in the schema", 20)
    P = list(table(ctx, BS, "BINARYPROPERTIES", (list, tuple)))
    Q = list(table(ctx, SS, "STARPROPERTIES", (list, tuple)))
    T = {n: table(ctx, IO, n, dict) for n in (
        "BINARYPROPERTIES_DTYPES", "STARPROPERTIES_DTYPES",
        "EXTRA_BINARY_COLUMNS_DTYPES", "EXTRA_STAR_COLUMNS_DTYPES",
        "SCALAR_NAMES_DTYPES")}
    H = table(ctx, BP, "HISTORY_MIN_ITEMSIZE", dict)
    O = table(ctx, BP, "ONELINE_MIN_ITEMSIZE", dict)
    for ps, n in ((P, "BINARYPROPERTIES_DTYPES"), (Q, "STARPROPERTIES_DTYPES")):
        for p in ps:
            ctx.instance("S-dtype", p)
            if T[n].get(p) not in DTYPES:
                ctx.find("S-dtype", p, IO, "property %s has no valid column type in %s "
                         "(%r)" % (p, n, T[n].get(p)))
    types = dict(T["BINARYPROPERTIES_DTYPES"], **T["EXTRA_BINARY_COLUMNS_DTYPES"])
    st = dict(T["STARPROPERTIES_DTYPES"], **T["EXTRA_STAR_COLUMNS_DTYPES"],
              **T["SCALAR_NAMES_DTYPES"])
    types.update({x + k: v for k, v in st.items() for x in ("S1_", "S2_")})
    for k in H:
        ctx.instance("S-dtype", "text " + k)
        if k in types and types[k] not in ("string", "str", "object"):
            ctx.find("S-dtype", k, IO, "column %s holds text but is declared %s" % (
                k, types[k]))
    clean(ctx, T)
    widths(ctx, T, H, O)
    B, S = ctx.repo.cls("BinaryStar"), ctx.repo.cls("SingleStar")
    write(ctx, B, S, P, Q)
    scalars(ctx, B, S, T)
    read(ctx, B, S, P, Q)
    keys(ctx)
    gridkeys(ctx)
    columns(ctx, P, Q, T)


# ------------------------------------------------------------------ column types
def expected(T, oneline, extra):
    """column -> declared type"""
    eb, e1, e2 = extra
    b = dict(T["BINARYPROPERTIES_DTYPES"], **T["EXTRA_BINARY_COLUMNS_DTYPES"])
    s = dict(T["STARPROPERTIES_DTYPES"], **T["EXTRA_STAR_COLUMNS_DTYPES"])
    b.update(eb)
    out = {}
    if not oneline:
        out.update(b)
        for pre, e in (("S1_", e1), ("S2_", e2)):
            for k, v in dict(s, **e).items():
                out[pre + k] = v
        return out
    for x in ("_i", "_f"):
        for k, v in b.items():
            out[k + x] = v
        for pre, e in (("S1_", e1), ("S2_", e2)):
            for k, v in dict(s, **e).items():
                out[pre + k + x] = v
    for pre in ("S1_", "S2_"):
        for k, v in T["SCALAR_NAMES_DTYPES"].items():
            out[pre + k] = v
    return out


EXTRA = ({"my_int_flag": "int64", "my_final_info": "string"}, {"user_index_f": "int64"},
         {"other_info": "string"})


def clean(ctx, T):
    for fn, one in (("clean_binary_history_df", False),
                    ("clean_binary_oneline_df", True)):
        f = ctx.repo.func(IO, fn)
        want = expected(T, one, EXTRA)
        vn.reset()
        df = sym("df")
        cols = mk("list", *[c(x) for x in want])
        ev = Evaluator(ctx.repo, ctx.consts, max_depth=4, unroll=2000)
        ev.isinst[df.id] = {"DataFrame"}
        ev.attr_hook = lambda o, a: cols if a == "columns" and rooted(o, df) else None
        ev.no_exc = True
        names = [a.arg for a in f.node.args.args]
        args = {names[0]: df}
        for a, e in zip(names[1:], EXTRA):
            args[a] = ev.mkdict([(c(k), c(v)) for k, v in e.items()])
        v, h, rp, fr = ev.run(f, args)
        got, obj = None, None
        x = v
        chain = []
        while x.k == "call" and x.a[1]:
            if x.a[0] == ".astype":
                d = x.a[1][1] if len(x.a[1]) > 1 else dict(x.a[2]).get("dtype")
                chain.append(d)
            x = x.a[1][0]
        if x is not df or not chain or any(d is None or d.k != "dict" for d in chain):
            ctx.note("%s: column types not decided (%s)" % (fn, vn.show(v)[:200]))
            continue
        final = {}
        first = {}
        for d in reversed(chain):
            for k, t in d.a:
                if k.k == "c" and t.k == "c":
                    first.setdefault(k.a[0], t.a[0])
                    final[k.a[0]] = t.a[0]
        for col, t in want.items():
            ctx.instance("S-clean", fn + " " + col)
            if first.get(col, "missing") != t:
                ctx.find("S-clean", "%s:%s" % (fn, col), f.key,
                         "column %s is converted to %s, declared %s" % (
                             col, first.get(col, "nothing"), t))
            elif t == "string" and final.get(col) != "object":
                ctx.find("S-clean", "%s:%s" % (fn, col), f.key,
                         "text column %s is left as %s (not storable)" % (
                             col, final.get(col)))


def rooted(o, df):
    while o is not df and o.k in ("call", "upd", "idx") and o.a:
        n = o.a[1][0] if o.k == "call" and o.a[1] else o.a[0]
        if not isinstance(n, vn.N):
            return False
        o = n
    return o is df


# ------------------------------------------------------------------------ widths
def widths(ctx, T, H, O):
    V = c02.vocab(ctx)
    lab = lambda k: {x for x in V[k] if isinstance(x, str)}
    f = ctx.repo.func(CF, "cumulative_mass_transfer_string")
    cases = ctx.consts.get(CF, "MT_CASE_TO_STR")
    mt = {"None", "no_RLO"}
    if cases is not UNKNOWN:
        rlo = ctx.consts.get(CF, "ALL_RLO_CASES")
        for k in cases:
            for kk in (k, k + 10) if rlo is UNKNOWN or k in rlo else (k,):
                ev = Evaluator(ctx.repo, ctx.consts, max_depth=3)
                ev.no_exc = True
                v = ev.run(f, {f.node.args.args[0].arg: mk("list", c(kk))})[0]
                mt |= {x.a[0] for x in vn.leaves(v) if vn.isstr(x)}
    ctx.count("mass-transfer labels", len(mt))
    first = {"ZAMS", "None"}
    texts = {}
    for k, t in dict(T["BINARYPROPERTIES_DTYPES"],
                     **T["EXTRA_BINARY_COLUMNS_DTYPES"]).items():
        if t == "string":
            texts[k] = ("", k)
    for k, t in dict(T["STARPROPERTIES_DTYPES"],
                     **T["EXTRA_STAR_COLUMNS_DTYPES"]).items():
        if t == "string":
            texts["S1_" + k] = ("S1_", k)
            texts["S2_" + k] = ("S2_", k)
    vocab = {"state": lab("binary"), "event": lab("event"), "step_names": lab("step"),
             "S1_state": lab("star"), "S2_state": lab("star"),
             "mass_transfer_case": mt}
    for col in texts:
        need = vocab.get(col, set())
        for tab, tn, name, voc in (
                (H, "HISTORY_MIN_ITEMSIZE", col, need),
                (O, "ONELINE_MIN_ITEMSIZE", col + "_f", need),
                (O, "ONELINE_MIN_ITEMSIZE", col + "_i",
                 first if col == "event" else {"None"} if col == "mass_transfer_case"
                 else need)):
            width(ctx, tab, tn, name, voc)
    for k, t in T["SCALAR_NAMES_DTYPES"].items():
        if t == "string":
            for pre in ("S1_", "S2_"):
                width(ctx, O, "ONELINE_MIN_ITEMSIZE", pre + k,
                      lab("sn") if k == "SN_type" else set())
    # interpolation classes: reverse mass transfer needs two stars with envelopes
    cls = {x for x in lab("class") if not x.startswith("ignored")} - {"unknown"}
    for k in sorted(O):
        if k.startswith("interp_class_"):
            voc = cls if k.endswith(("HMS_HMS", "HMS_HMS_RLO")) else {
                x for x in cls if "reverse" not in x}
            width(ctx, O, "ONELINE_MIN_ITEMSIZE", k, voc)


def width(ctx, tab, tn, name, voc):
    ctx.instance("S-width", tn + " " + name)
    if name not in tab:
        ctx.find("S-width", tn + ":" + name, BP,
                 "text column %s has no width in %s" % (name, tn))
        return
    for x in sorted(voc):
        if len(x) > tab[name]:
            ctx.find("S-width", "%s:%s" % (tn, name), BP, "column %s is %s characters "
                     "wide but can hold %r (%d)" % (name, tab[name], x, len(x)))


# ----------------------------------------------------------------- write and read
def frames(v):
    return vn.deps(v, lambda y: y.k == "call" and y.a[0].split(".")[-1] == "DataFrame")


def table_of(n):
    """(column names, value nodes) of a DataFrame(data, columns=...) node."""
    kw = dict(n.a[2])
    cols = kw.get("columns")
    data = kw.get("data", n.a[1][0] if n.a[1] else None)
    if cols is None or data is None or cols.k != "list" or \
            not all(vn.isstr(x) for x in cols.a):
        return None
    while data.k in ("call", "upd"):
        data = data.a[1][0] if data.k == "call" else data.a[0]
    if data.k != "list" or len(data.a) != len(cols.a):
        return None
    return [x.a[0] for x in cols.a], list(data.a)


def setup(ctx, B, S, me):
    ev = Evaluator(ctx.repo, ctx.consts, max_depth=5, unroll=2000)
    ev.types[me.id] = B
    for s in ("star_1", "star_2"):
        ev.types[mk("attr", me, s).id] = S
    ev.no_exc = True
    return ev


def strlist(ev, xs):
    return mk("list", *[c(x) for x in xs])


def write(ctx, B, S, P, Q):
    f = ctx.repo.find_method(B, "to_df")
    g = ctx.repo.find_method(S, "to_df")
    one = ctx.repo.find_method(B, "to_oneline_df")
    sone = ctx.repo.find_method(S, "to_oneline_df")
    sel = [P[0], P[5], P[2]]
    ssel = [Q[3], Q[0], Q[10]]
    for mode in ("all", "select", "ignore"):
        vn.reset()
        me = sym("self")
        ev = setup(ctx, B, S, me)
        kw, bw, sw = [], list(P), list(Q)
        if mode == "select":
            bw, sw = sel, ssel
            kw = [(c("only_select_columns"), strlist(ev, sel))]
            skw = ev.mkdict([(c("only_select_columns"), strlist(ev, ssel))])
        elif mode == "ignore":
            bw = [p for p in P if p not in sel]
            sw = [p for p in Q if p not in ssel]
            kw = [(c("ignore_columns"), strlist(ev, sel))]
            skw = ev.mkdict([(c("ignore_columns"), strlist(ev, ssel))])
        if mode != "all":
            kw += [(c("S1_kwargs"), skw), (c("S2_kwargs"), skw)]
            kw.append((c("extra_columns"), ev.mkdict([(c("step_names"), c("string"))])))
        v, h, rp, fr = ev.run(f, {"kwargs": ev.mkdict(kw)}, self_node=me)
        got = {}
        for d in frames(v):
            t = table_of(d)
            if t is None:
                ctx.note("to_df(%s): a table was not decided: %s" % (
                    mode, vn.show(d)[:160]))
                continue
            for col, val in zip(*t):
                got.setdefault(col, []).append(val)
        want = [(p, me, p) for p in bw] + [("S1_" + q, mk("attr", me, "star_1"), q)
                                           for q in sw] + \
            [("S2_" + q, mk("attr", me, "star_2"), q) for q in sw]
        if not got:
            continue
        for col, o, p in want:
            ctx.instance("S-write", "to_df(%s) %s" % (mode, col))
            vals = got.get(col, [])
            if p == "profile" and not vals and mode != "select":
                continue        # not storable in a table: left out by default
            if len(vals) != 1 or vals[0] is not mk("attr", o, p + "_history"):
                ctx.find("S-write", "to_df:" + col, f.key,
                         "column %s is filled from %s (%s)" % (
                             col, [vn.show(x)[:60] for x in vals] or "nothing", mode))
        for col in got:
            if col not in {w[0] for w in want} | {"binary_index", "step_names"}:
                ctx.find("S-write", "to_df:" + col, f.key,
                         "column %s is written although not asked for (%s)" % (
                             col, mode))
    # one-line tables: first and last row, in this order, with _i and _f
    for cls, fn, pre in ((B, one, ""), (S, sone, "S1_")):
        vn.reset()
        me = sym("self")
        ev = setup(ctx, B, S, me)
        ev.types[me.id] = cls
        src = ["aa", "bb_i", "cc_f"]
        tab = sym("table")
        ev.overrides[f.key] = lambda *a: tab
        ev.overrides[g.key] = lambda *a: tab
        cols = strlist(ev, src)
        ev.attr_hook = lambda o, a: cols if a == "columns" and o is tab else None
        args = {"history": c(True), "kwargs": mk("dict")}
        if cls is S:
            args["prefix"] = c(pre)
        v, h, rp, fr = ev.run(fn, args, self_node=me)
        ok = None
        for d in frames(v):
            kw = dict(d.a[2])
            cl = kw.get("columns")
            data = kw.get("data", d.a[1][0] if d.a[1] else None)
            if cl is None or data is None or cl.k != "list" or \
                    not vn.deps(data, lambda y: y is tab):
                continue
            names = [x.a[0] for x in cl.a if vn.isstr(x)]
            names = [x for x in names if x != "binary_index"]
            rows = vn.deps(data, lambda y: y.k == "idx" and y.a[0] is mk(
                "attr", tab, "values"))
            order = None
            for r in rows:
                k = r.a[1]
                if k.k == "tuple" and k.a and k.a[0].k == "list":
                    order = [x.a[0] for x in k.a[0].a if vn.isnum(x)]
            if order is None:
                continue
            want = [pre + s + x for x in ("_i", "_f") for s in src]
            ctx.instance("S-write", "%s.to_oneline_df" % cls.name, len(want))
            ok = True
            if order != [0, -1] or names != want:
                ctx.find("S-write", "%s.to_oneline_df" % cls.name, fn.key,
                         "rows %s of the history are written under the names %s, "
                         "expected rows [0, -1] as %s" % (order, names, want))
        if ok is None:
            ctx.note("%s.to_oneline_df not decided" % cls.name)


KICK = ["natal_kick_velocity", "natal_kick_azimuthal_angle", "natal_kick_polar_angle",
        "natal_kick_mean_anomaly"]


def scalars(ctx, B, S, T):
    f = ctx.repo.find_method(S, "to_oneline_df")
    names = [n for n in T["SCALAR_NAMES_DTYPES"] if not n.startswith(
        "natal_kick_array")] + ["natal_kick_array"]
    vn.reset()
    me = sym("self")
    ev = setup(ctx, B, S, me)
    ev.types[me.id] = S
    v, h, rp, fr = ev.run(f, {"history": c(False), "prefix": c("S2_"),
                              "kwargs": ev.mkdict([(c("scalar_names"),
                                                    strlist(ev, names))])},
                          self_node=me, heap={(me, n): sym("val:" + n) for n in names
                                              + KICK})
    got = {}
    for u in vn.deps(v, lambda y: y.k == "upd" and vn.isstr(y.a[1])):
        got.setdefault(u.a[1].a[0], []).append(u.a[2])
    want = {"S2_" + n: n for n in names[:-1]}
    want.update({"S2_natal_kick_array_%d" % i: k for i, k in enumerate(KICK)})
    if not got:
        ctx.note("scalar columns not decided")
        return
    for col, n in want.items():
        ctx.instance("S-write", "scalar " + col)
        vals = got.get(col, [])
        if not vals or any(x not in (sym("val:" + n), mk("list", sym("val:" + n)))
                           for x in vals):
            ctx.find("S-write", "scalar:" + col, f.key, "column %s is filled from %s" % (
                col, [vn.show(x)[:60] for x in vals] or "nothing"))


def read(ctx, B, S, P, Q):
    for fn, sfx in (("from_df", [""]), ("from_oneline_df", ["_i", "_f"])):
        f = ctx.repo.find_method(B, fn)
        vn.reset()
        cols = [x + s for s in sfx for x in P + ["S1_" + q for q in Q] +
                ["S2_" + q for q in Q]]
        if fn == "from_oneline_df":
            cols += [s_ + "natal_kick_array_%d" % i for s_ in ("S1_", "S2_")
                     for i in range(4)]
        df = sym("df")
        ev = Evaluator(ctx.repo, ctx.consts, max_depth=5, unroll=2000)
        ev.isinst[df.id] = {"DataFrame"}
        ev.instantiate = {B.key, S.key}
        ev.no_exc = True
        names = [a.arg for a in f.node.args.args]
        args = {names[0]: ev.obj(Ref(B)), names[1]: df, "kwargs": mk("dict")}
        v, h, rp, fr = ev.run(f, args, heap={(df, "columns"): mk(
            "list", *[c(x) for x in cols])})
        if v.k != "inst":
            ctx.note("%s: result not decided (%s)" % (fn, vn.show(v)[:120]))
            continue
        for pre, o, ps in (("", v, P), ("S1_", None, Q), ("S2_", None, Q)):
            if o is None:
                o = h.get((v, "star_" + pre[1]))
                if o is None:
                    continue
                o = pick(o)
                if fn == "from_oneline_df":
                    kicks(ctx, f, df, h, o, pre)
            for p in ps:
                col = pre + p + sfx[0]
                src = mk("idx", df, c(col))
                ctx.instance("S-read", "%s %s" % (fn, col))
                for a in (p + "_history", p):
                    val = h.get((o, a))
                    if val is None:
                        ctx.find("S-read", "%s:%s" % (fn, col), f.key,
                                 "%s is not set from column %s" % (a, col))
                        continue
                    used = vn.deps(val, lambda y: y.k == "idx" and y.a[0] is df)
                    if src not in used or any(
                            u is not src and u.a[1].a[0] not in RELATED.get(p, ())
                            for u in used if u.a[1].k == "c"
                            and _strip(u.a[1].a[0], sfx) not in RELATED.get(p, ())):
                        ctx.find("S-read", "%s:%s" % (fn, col), f.key,
                                 "%s is read from %s, expected column %s" % (
                                     a, sorted(vn.show(u) for u in used)[:3] or
                                     vn.show(val)[:60], col))


def kicks(ctx, f, df, h, o, pre):
    for i, k in enumerate(KICK):
        val = h.get((o, k))
        if val is None:
            continue
        use = vn.deps(val, lambda y: y.k == "idx" and vn.deps(y.a[0], lambda z: z is df)
                      and vn.isnum(y.a[1]) and y.a[0].k == "idx"
                      and vn.deps(y.a[0], lambda z: vn.isstr(z) and
                                  "natal_kick_array" in z.a[0]))
        if not use:
            continue
        ctx.instance("S-read", "%s%s" % (pre, k))
        for u in use:
            cols = [z.a[0] for z in vn.deps(u, lambda z: vn.isstr(z) and
                                            "natal_kick_array" in z.a[0])]
            if u.a[1].a[0] != i or any(not z.startswith(pre) for z in cols):
                ctx.find("S-read", "from_oneline_df:%s%s" % (pre, k), f.key,
                         "%s is read from entry %s of %s" % (k, u.a[1].a[0],
                                                             cols[:4]))


RELATED = {"event": ("FAILED",), "separation": ("orbital_period", "S1_mass", "S2_mass"),
           "orbital_period": ("separation", "S1_mass", "S2_mass")}


def _strip(n, sfx):
    for s in sfx:
        if s and n.endswith(s):
            return n[:-len(s)]
    return n


def pick(o):
    """A constructed object, ignoring replacements under `is None` tests."""
    while o.k == "ite":
        o = o.a[2] if o.a[2].k in ("inst", "ite") else o.a[1]
    return o


# -------------------------------------------------------------------- storage keys
READ_M = {"select", "select_column", "get", "get_storer", "get_node"}
WRITE_M = {"append", "put"}


class Keys:
    def __init__(self, ctx):
        self.ctx = ctx

    def pat(self, e, f, depth=0):
        """Key expression -> tuple of literal pieces, None for unknown parts."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return (e.value,)
        if isinstance(e, ast.JoinedStr):
            out = ()
            for v in e.values:
                out += self.pat(v, f, depth) if isinstance(v, ast.Constant) else \
                    self.pat(v.value, f, depth)
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.pat(e.left, f, depth) + self.pat(e.right, f, depth)
        if depth < 3 and isinstance(e, ast.Attribute) and isinstance(
                e.value, ast.Name) and e.value.id == "self" and f.cls is not None:
            ds = []
            for k in self.ctx.repo.mro(f.cls):
                for m in k.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Assign) and any(
                                isinstance(t, ast.Attribute) and t.attr == e.attr
                                for t in n.targets):
                            ds.append((n.value, m))
            if len(ds) == 1:
                return self.pat(ds[0][0], ds[0][1], depth + 1)
        if depth < 3 and isinstance(e, ast.Name):
            ds = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and
                  any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if len(ds) == 1:
                return self.pat(ds[0], f, depth + 1)
            ps = [x.arg for x in f.node.args.args]
            if not ds and e.id in ps:
                sites = self.sites(f)
                if len(sites) == 1:
                    g, call = sites[0]
                    i = ps.index(e.id) - (1 if ps[:1] == ["self"] else 0)
                    kw = {k.arg: k.value for k in call.keywords}
                    x = kw.get(e.id, call.args[i] if 0 <= i < len(call.args) else None)
                    if x is not None:
                        return self.pat(x, g, depth + 1)
        return (None,)

    def sites(self, f):
        out = []
        for g in self.ctx.repo.functions():
            if g.mod is not f.mod:
                continue
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and (
                        getattr(n.func, "attr", None) == f.name or
                        getattr(n.func, "id", None) == f.name):
                    out.append((g, n))
        return out


def norm(p):
    s = "".join("\0" if x is None else x for x in p).strip("/")
    while "\0\0" in s:
        s = s.replace("\0\0", "\0")
    return s


def unify(a, b):
    """Can the two patterns denote the same key?  An unknown part stands for one
    path component (or a part of it), or for any path at the front; two components
    with unknown parts agree when their known parts do."""
    def comp(x, y):
        if x == y:
            return True
        if ("\0" in x) == ("\0" in y):
            return False
        if "\0" in y:
            x, y = y, x
        return bool(re.match("^" + ".*".join(map(re.escape, x.split("\0"))) + "$", y))
    if a.startswith("\0"):
        return b.endswith(a[1:]) or (b.startswith("\0") and a.endswith(b[1:]))
    if b.startswith("\0"):
        return a.endswith(b[1:])
    A, B = a.split("/"), b.split("/")
    sides = {"\0" in x for x, y in zip(A, B) if x != y}
    return len(A) == len(B) and len(sides) < 2 and all(
        comp(x, y) for x, y in zip(A, B))


def store_names(f):
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.With):
            for it in n.items:
                if isinstance(it.context_expr, ast.Call) and ast.unparse(
                        it.context_expr.func).endswith("HDFStore") and isinstance(
                            it.optional_vars, ast.Name):
                    out.add(it.optional_vars.id)
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and \
                ast.unparse(n.value.func).endswith("HDFStore"):
            out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    for a in f.node.args.args:
        if a.arg == "store":
            out.add(a.arg)
    return out


def keys(ctx):
    K = Keys(ctx)
    reads, writes = [], []
    for f in ctx.repo.functions():
        if not f.mod.rel.startswith("posydon/popsyn/") or "unit_tests" in f.mod.rel:
            continue
        st = store_names(f)
        isst = lambda e: isinstance(e, ast.Name) and e.id in st
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                kw = {k.arg: k.value for k in n.keywords}
                key = kw.get("key", n.args[0] if n.args else None)
                if isst(n.func.value) and key is not None:
                    if n.func.attr in WRITE_M:
                        writes.append((f, n, K.pat(key, f)))
                    elif n.func.attr in READ_M:
                        reads.append((f, n, K.pat(key, f)))
                elif n.func.attr == "read_hdf":
                    key = kw.get("key", n.args[1] if len(n.args) > 1 else None)
                    if key is not None:
                        reads.append((f, n, K.pat(key, f)))
                elif n.func.attr == "to_hdf":
                    key = kw.get("key", n.args[1] if len(n.args) > 1 else None)
                    if key is not None:
                        writes.append((f, n, K.pat(key, f)))
                elif n.func.attr in ("select", "head", "tail", "_repr_html_",
                                     "__repr__") and isinstance(
                        n.func.value, ast.Call) and isinstance(
                            n.func.value.func, ast.Name) and \
                        n.func.value.func.id == "super" and key is not None:
                    reads.append((f, n, K.pat(key, f)))
            elif isinstance(n, ast.Subscript) and isst(n.value):
                p = K.pat(n.slice, f)
                (writes if isinstance(n.ctx, ast.Store) else reads).append((f, n, p))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
                    n.ops[0], (ast.In, ast.NotIn)) and isinstance(
                        n.comparators[0], ast.Call) and isinstance(
                            n.comparators[0].func, ast.Attribute) and \
                    n.comparators[0].func.attr == "keys" and isst(
                        n.comparators[0].func.value):
                reads.append((f, n, K.pat(n.left, f)))
    ws = {norm(p) for _f, _n, p in writes}
    ctx.count("storage keys written", len(ws))
    for f, n, p in reads:
        s = norm(p)
        if s.strip("\0/") == "" or f.mod.rel.endswith(("selection_effects.py",
                                                       "analysis.py")):
            continue
        ctx.instance("S-key", "%s reads %s" % (f.key, s.replace("\0", "*")))
        if not any(unify(s, w) for w in ws if w.strip("\0/")):
            ctx.find("S-key", "%s:%s" % (f.qual, s.replace("\0", "*")),
                     "%s:%d" % (f.mod.rel, n.lineno),
                     "reads the key %r, which nothing writes" % s.replace("\0", "*"))


def gridkeys(ctx):
    """The same for the grid files (h5py)."""
    K = Keys(ctx)
    reads, writes = [], []
    for f in ctx.repo.functions():
        if not f.mod.rel.startswith("posydon/grids/"):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ("create_dataset", "create_group", "require_group",
                                    "require_dataset"):
                key = {k.arg: k.value for k in n.keywords}.get(
                    "name", n.args[0] if n.args else None)
                if key is not None:
                    writes.append((f, n, K.pat(_fmt(key), f)))
            elif isinstance(n, ast.Subscript):
                b = ast.unparse(n.value).split(".")
                if b[-1] == "attrs" and len(b) > 1:
                    p = ("@",) + K.pat(n.slice, f)
                elif b[-1] in ("hdf5", "new_grid"):
                    p = K.pat(n.slice, f)
                else:
                    continue
                if isinstance(n.ctx, ast.Store):
                    writes.append((f, n, p))
                else:
                    reads.append((f, n, p))
    ws = {norm(p) for _f, _n, p in writes}
    opt = set()         # parts whose presence is tested before reading
    for f in ctx.repo.functions():
        if f.mod.rel.startswith("posydon/grids/"):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Compare) and isinstance(
                        n.ops[0], (ast.In, ast.NotIn)) and isinstance(
                            n.left, ast.Constant) and "hdf5" in ast.unparse(
                                n.comparators[0]):
                    opt.add((f.key, n.left.value))
    for f, n, p in reads:
        s = norm(p)
        if s.strip("\0/@") == "" or (f.key, s.split("/")[-1]) in opt:
            continue
        ctx.instance("S-key", "%s reads %s" % (f.key, s.replace("\0", "*")))
        if not any(unify(s, w) or w.startswith(s + "/") for w in ws
                   if w.strip("\0/@")):
            ctx.find("S-key", "%s:%s" % (f.qual, s.replace("\0", "*")),
                     "%s:%d" % (f.mod.rel, n.lineno),
                     "reads the key %r, which nothing writes" % s.replace("\0", "*"))


def _fmt(e):
    """'..{}..'.format(x) -> f-string with unknown parts"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
            e.func.attr == "format" and isinstance(e.func.value, ast.Constant):
        parts = re.split(r"\{[^}]*\}", e.func.value.value)
        vals = []
        for i, x in enumerate(parts):
            if i:
                vals.append(ast.FormattedValue(value=ast.Constant(value=None),
                                               conversion=-1))
            vals.append(ast.Constant(value=x))
        return ast.JoinedStr(values=vals)
    return e


# ------------------------------------------------------------------ column names
def columns(ctx, P, Q, T):
    known = set(Q) | set(T["EXTRA_STAR_COLUMNS_DTYPES"]) | set(T["SCALAR_NAMES_DTYPES"])
    for f in list(ctx.repo.functions()):
        if not f.mod.rel.startswith("posydon/popsyn/") or "unit_tests" in f.mod.rel:
            continue
        for n in ast.walk(f.node):
            sl = []
            if isinstance(n, ast.Subscript):
                sl = n.slice.elts if isinstance(n.slice, (ast.List, ast.Tuple)) \
                    else [n.slice]
            elif isinstance(n, (ast.List, ast.Tuple)):
                sl = n.elts
            elif isinstance(n, ast.Compare):
                sl = [n.left] + n.comparators
            for k in sl:
                if not (isinstance(k, ast.Constant) and isinstance(k.value, str)):
                    continue
                m = re.match(r"^S[12]_(\w+)$", k.value)
                if not m:
                    continue
                nm = m.group(1)
                base = nm[:-2] if nm[-2:] in ("_i", "_f") else nm
                if nm.endswith("_") or (nm not in known and base not in known and
                                        not writes_col(ctx, k.value)):
                    ctx.find("S-col", "%s:%s" % (f.qual, k.value),
                             "%s:%d" % (f.mod.rel, k.lineno),
                             "column %s is not in the published schema" % k.value)
                ctx.instance("S-col", "%s %s" % (f.qual, k.value))


_W = {}


def writes_col(ctx, name):
    """Is the column created by analysis code (df['name'] = ...)?"""
    w = _W.get(id(ctx.repo))
    if w is None:
        w = set()
        for f in ctx.repo.functions():
            if not f.mod.rel.startswith("posydon/popsyn/"):
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and \
                        isinstance(n.slice, ast.Constant):
                    w.add(n.slice.value)
                elif isinstance(n, ast.Call):
                    for k in n.keywords:
                        if k.arg == "columns" and isinstance(k.value, (ast.List,
                                                                       ast.Tuple)):
                            w |= {e.value for e in k.value.elts
                                  if isinstance(e, ast.Constant)}
                elif isinstance(n, ast.Dict):
                    pass
        _W[id(ctx.repo)] = w
    return name in w
