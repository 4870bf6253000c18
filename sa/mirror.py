"""Mirror comparison of normal forms (exchange of the two stars)."""
import re

from . import fp, vn
from .vn import N, mk


class Swap:
    """Involution on identifiers used with vn.rebuild."""

    def __init__(self, syms=(), attrs=(), strs=(), fns=(), regex=True):
        def inv(pairs):
            d = {}
            for a, b in pairs:
                d[a] = b
                d[b] = a
            return d
        self.m = {"sym": inv(syms), "attr": inv(attrs), "str": inv(strs),
                  "fn": inv(fns), "kw": {}}
        self.regex = regex

    def __call__(self, kind, v):
        d = self.m.get(kind)
        if d and v in d:
            return d[v]
        if self.regex and (kind in ("attr", "str") or
                           kind == "kw" and "star" in v):
            return swap_digits(v)
        return v


_RX = [
    (re.compile(r"(?<![0-9A-Za-z])(S|star_?|history|profile|final_profile)([12])(?![0-9])"), None),
]
_TAIL = re.compile(r"((?:RLO|CC|CE|DoubleCE|merging|star_|star|history|profile|"
                   r"overflow_|omega_|_mass_|_|contact_|Merging)"
                   r"|(?<![A-Za-z0-9])S)([12])(?![0-9A-Za-z])")


def swap_digits(v):
    if not isinstance(v, str) or ("1" not in v and "2" not in v):
        return v
    return _TAIL.sub(lambda m: m.group(1) + ("2" if m.group(2) == "1" else "1"), v)


def first_diff(a, b, depth=0):
    """Smallest pair of differing sub-nodes along a single differing path."""
    while True:
        if a is b:
            return None
        if not (isinstance(a, N) and isinstance(b, N)):
            return a, b
        if a.k != b.k or len(a.a) != len(b.a):
            return a, b
        if a.k == "poly":
            return _polydiff(a, b)
        diffs = []
        for x, y in zip(a.a, b.a):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return a, b
                for p, q in zip(x, y):
                    if p is not q and p != q:
                        diffs.append((p, q))
            elif x is not y and x != y:
                diffs.append((x, y))
        if len(diffs) != 1:
            if a.k == "ite" and diffs and isinstance(diffs[0][0], N):
                if a.a[0] is b.a[0]:
                    a, b = diffs[0]
                    continue
            return a, b
        p, q = diffs[0]
        if not isinstance(p, N):
            return a, b
        a, b = p, q


def _polydiff(a, b):
    pa = {m: v for v, m in a.a[0]}
    pb = {m: v for v, m in b.a[0]}
    oa = tuple((v, m) for m, v in pa.items() if pb.get(m) != v)
    ob = tuple((v, m) for m, v in pb.items() if pa.get(m) != v)
    if len(oa) == 1 and len(ob) == 1:
        (va, ma), (vb, mb) = oa[0], ob[0]
        if va == vb:
            fa = [f for f in ma if f not in mb]
            fb = [f for f in mb if f not in ma]
            if len(fa) == 1 and len(fb) == 1:
                if fa[0][1] == fb[0][1]:
                    return first_diff(fa[0][0], fb[0][0]) or (a, b)
                return (mk("poly", ((1, (fa[0],)),)), mk("poly", ((1, (fb[0],)),)))
    return (mk("poly", oa) if oa else vn.c(0), mk("poly", ob) if ob else vn.c(0))


UNDECIDED = []


def same(a, b):
    """Equal as normal forms, or by random interpretation of both."""
    if a is b:
        return True
    d = first_diff(a, b)
    try:
        if d and d[0] is not a and isinstance(d[0], N) and isinstance(d[1], N) \
                and fp.different(d[0], d[1], 2.0) is None:
            return True
    except fp.Unknown:
        pass
    try:
        return fp.different(a, b) is None
    except fp.Unknown:
        UNDECIDED.append((a, b))
        return True


def describe(a, b, n=220):
    cond = ""
    try:
        lits = fp.different(a, b)
        if lits:
            a, b = fp.specialise(a, lits), fp.specialise(b, lits)
            cond = "   when " + ", ".join(
                ("" if v else "not ") + vn.show(x)[:80] for x, v in lits[-6:])
    except fp.Unknown:
        pass
    return _describe(a, b, n) + cond


def _describe(a, b, n):
    d = first_diff(a, b)
    if d is None:
        return "identical"

    def s(x):
        t = vn.show(x) if isinstance(x, N) else repr(x)
        return t if len(t) <= n else t[:n] + "…"
    return "%s   versus mirrored   %s" % (s(d[0]), s(d[1]))


def mirror_heap(heap, swap, want=lambda k: True):
    """Compare a final heap with its own mirror image -> list of (key, a, b)."""
    memo = {}
    out = []
    keys = [k for k in heap if want(k)]
    seen = set()
    n = 0
    for k in keys:
        o, at = k
        o2 = vn.rebuild(o, swap, memo)
        at2 = swap("attr", at) if isinstance(at, str) else vn.rebuild(at, swap, memo)
        k2 = (o2, at2)
        if (k2, k) in seen:
            continue
        seen.add((k, k2))
        n += 1
        v = vn.rebuild(heap[k], swap, memo)
        if k2 in heap:
            w = heap[k2]
        else:
            w = mk("attr", o2, at2) if isinstance(at2, str) else mk("idx", o2, at2)
        if v is not w:
            out.append((k, w, v))
    return out, n


class Side:
    def __init__(self, v, heap, raise_pc, effects, ev):
        self.v, self.heap, self.raise_pc = v, heap, raise_pc
        self.effects, self.ev = effects, ev


def evaluate(ctx, f, args=None, self_node=None, heap=None, types=None, pc=None, **kw):
    from .ev import Evaluator
    ev = Evaluator(ctx.repo, ctx.consts, **kw)
    for n, cl in (types or {}).items():
        ev.types[n.id] = cl
    v, h, rp, fr = ev.run(f, args=args, self_node=self_node, heap=heap, pc=pc)
    return Side(v, h, rp, ev.effects, ev)


def compare(A, B, swap, want=lambda k: True):
    """Differences between mirrored A and B: list of (what, b, mirrored a)."""
    memo = {}
    out = []
    n = 0

    def rb(x):
        return vn.rebuild(x, swap, memo)

    def differ(x, y):
        return x is not y and not same(x, y)
    if (A.heap is None) != (B.heap is None):
        return [("exit", vn.c("only raises" if B.heap is None else "returns"),
                 vn.c("only raises" if A.heap is None else "returns"))], 1
    n += 1
    ra, rb_ = rb(A.raise_pc), B.raise_pc
    if differ(ra, rb_):
        out.append(("error condition", rb_, ra))
    if A.heap is None:
        return out, n
    if A.v is not None and B.v is not None:
        n += 1
        if differ(rb(A.v), B.v):
            out.append(("return value", B.v, rb(A.v)))
    keys = {}
    for (o, at), val in A.heap.items():
        if not want((o, at)):
            continue
        o2 = rb(o)
        at2 = swap("attr", at) if isinstance(at, str) else rb(at)
        keys[(o2, at2)] = rb(val)
    bk = {k: v for k, v in B.heap.items() if want(k)}
    for k in set(keys) | set(bk):
        n += 1
        init = mk("attr", *k) if isinstance(k[1], str) else mk("idx", *k)
        a, b = keys.get(k, init), bk.get(k, init)
        if differ(a, b):
            out.append(("%s.%s" % (vn.show(k[0]), k[1] if isinstance(k[1], str)
                                   else vn.show(k[1])), b, a))
    ea = sorted((rb(p).id, rb(x).id) for p, x in A.effects)
    eb = sorted((p.id, x.id) for p, x in B.effects)
    n += len(eb)
    if ea != eb:
        da = {(rb(p), rb(x)) for p, x in A.effects}
        db = {(p, x) for p, x in B.effects}
        oa, ob = list(da - db), list(db - da)
        for p, x in list(oa):
            for q, y in ob:
                if same(p, q) and same(x, y):
                    oa.remove((p, x))
                    ob.remove((q, y))
                    break
        if oa or ob:
            out.append(("calls made", ob[0][1] if ob else vn.c("-"),
                        oa[0][1] if oa else vn.c("-")))
    return out, n


def only_labels(what):
    return what


def prove_symmetric(ctx, names):
    """Register opaque helpers proved symmetric in two of their parameters."""
    from .ev import Evaluator
    n = 0
    for nm in names:
        try:
            f = ctx.repo.find_func(nm)
        except Exception:
            continue
        ps = [a.arg for a in f.node.args.args]
        pairs = []
        for i in range(len(ps)):
            for j in range(i + 1, len(ps)):
                if not _twin(ps[i], ps[j]):
                    continue
                ev = Evaluator(ctx.repo, ctx.consts, max_depth=3)
                try:
                    v = ev.run(f)[0]
                    w = vn.rebuild(v, Swap(syms=[(ps[i], ps[j])], regex=False))
                except vn.TooComplex:
                    continue
                if v is w:
                    pairs.append((ps[i], ps[j]))
        if pairs:
            vn.SYMM[nm] = pairs
            n += 1
    return n


def _twin(a, b):
    return a != b and len(a) == len(b) and sum(x != y for x, y in zip(a, b)) == 1
