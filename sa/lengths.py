"""Symbolic lengths of list/array valued nodes.

L(n) is a value node for the number of rows of n, or None when n is a scalar.
Slices `[:u]` count u rows (the index is an existing row), opaque calls and
arithmetic are taken as element-wise: they have the common length of their array
arguments."""
from . import vn
from .vn import add_, c, ite, mk, mul_, sub_, sym

SCALARS = {"c", "fstr", "closure", "gref", "ref"}


class Lengths:
    def __init__(self, base):
        """base(node) -> length node, or None (scalar), or ... (not decided)"""
        self.base = base
        self.memo = {}
        self.nm = {}

    def L(self, n):
        if n.id in self.memo:
            return self.memo[n.id]
        self.memo[n.id] = None
        r = self._L(n)
        self.memo[n.id] = r
        return r

    def _L(self, n):
        r = self.base(n)
        if r is not ...:
            return r
        k = n.k
        if k == "ite":
            a, b = self.L(n.a[1]), self.L(n.a[2])
            if a is None and b is None:
                return None
            if a is None or b is None:      # element-wise choice (np.where)
                return a if b is None else b
            t = vn.truth(self.norm(n.a[0]))
            return ite(t, a, b)
        if k in SCALARS or k in ("eq", "lt", "isnone", "truth"):
            return None
        if k in ("list", "tuple", "set"):
            return c(len(n.a))
        if k == "concat":
            a, b = self.L(n.a[0]), self.L(n.a[1])
            if a is None or b is None:
                return mk("badlen", n)
            return add_(a, b)
        if k == "rep":
            a, b = n.a
            if a.k in ("list", "tuple", "concat"):
                return mul_(self.L(a), self.norm(b))
            if b.k in ("list", "tuple", "concat"):
                return mul_(self.L(b), self.norm(a))
            return mk("badlen", n)
        if k == "idx":
            s = n.a[1]
            if s.k == "slice":
                lo, hi, st = s.a
                l = self.L(n.a[0])
                if l is None:
                    return None
                if st is not vn.NONE and st is not c(1):
                    return mk("badlen", n)
                h = l if hi is vn.NONE else self.norm(hi)
                if vn.isnum(h) and h.a[0] < 0:
                    h = add_(l, h)
                o = c(0) if lo is vn.NONE else self.norm(lo)
                if vn.isnum(o) and o.a[0] < 0:
                    o = add_(l, o)
                return sub_(h, o)
            if s.k == "c" and not isinstance(s.a[0], str):
                l = self.L(n.a[0])
                if n.a[0].k == "loop" or n.a[0].k == "tuple":
                    return l
                return None
            if s.k == "c":
                return self.L(n.a[0])
            l = self.L(s)
            if l is not None or s.k != "idx":
                return l
            return self.L(n.a[0])       # column looked up through a name table
        if k == "comp":
            if len(n.a) > 3 and n.a[3]:
                return mk("badlen", n)
            return self.L(n.a[2][0]) if len(n.a[2]) == 1 else mk("badlen", n)
        if k == "upd":
            return self.L(n.a[0])
        if k == "loop":
            src, init, nxt, v = n.a
            l0 = self.L(init)
            if l0 is None:
                return None
            mu = [x for x in vn.deps(nxt, lambda y: y.k == "mu" and y.a[1] == v)]
            for x in mu:
                self.memo[x.id] = sym("mu!")
            ln = self.L(nxt)
            if ln is None:
                return None
            inc = sub_(ln, sym("mu!") if mu else l0)
            if inc is c(0):
                return l0
            ls = self.L(src)
            if ls is None or vn.deps(inc, lambda y: y is sym("mu!")):
                return mk("badlen", n)
            return add_(l0, mul_(inc, ls))
        if k == "call":
            nm = n.a[0]
            args = n.a[1]
            if nm == "range":
                xs = [self.norm(a) for a in args]
                return xs[0] if len(xs) == 1 else sub_(xs[1], xs[0]) \
                    if len(xs) == 2 else mk("badlen", n)
            if nm in ("len", "min", "max", "sum"):
                return None
            if nm == "hasattr":
                return None
        ls = set()
        kids = _kids(n)
        if k == "call":         # a literal list argument is a bundle of arrays
            kids = [y for x in kids for y in (
                x.a if x.k in ("list", "tuple") and any(
                    self.L(z) is not None for z in x.a) else (x,))]
        for x in kids:
            l = self.L(x)
            if l is not None:
                ls.add(l)
        if len(ls) == 1:
            return ls.pop()
        if not ls:
            return None
        ls.discard(c(1))
        return ls.pop() if len(ls) == 1 else mk("badlen", n)

    def norm(self, n):
        """Replace len(x) by the length of x."""
        r = self.nm.get(n.id)
        if r is not None:
            return r
        k = n.k
        if k == "call" and n.a[0] == "len" and len(n.a[1]) == 1:
            r = self.L(n.a[1][0])
            r = n if r is None else r
        elif k == "attr" and n.a[1] == "size":
            r = self.L(n.a[0])
            r = n if r is None else r
        elif k == "ite":
            r = ite(vn.truth(self.norm(n.a[0])), self.norm(n.a[1]), self.norm(n.a[2]))
        elif k == "eq":
            r = vn.eq(self.norm(n.a[0]), self.norm(n.a[1]))
        elif k == "lt":
            r = vn.lt(self.norm(n.a[0]), self.norm(n.a[1]))
        elif k == "poly":
            r = c(0)
            for v, m in n.a[0]:
                t = c(v)
                for a, e in m:
                    t = mul_(t, vn.pow_(self.norm(a), c(e)))
                r = add_(r, t)
        elif k == "call" and n.a[0] in ("min", "max"):
            xs = sorted({self.norm(x) for x in n.a[1]}, key=lambda y: y.id)
            r = xs[0] if len(xs) == 1 else vn.mkcall(n.a[0], tuple(xs))
        else:
            r = n
        self.nm[n.id] = r
        return r


def _kids(n):
    out = []

    def g(x):
        if isinstance(x, vn.N):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                g(y)
    if n.k == "poly":
        for v, m in n.a[0]:
            for a, e in m:
                out.append(a)
    else:
        for x in n.a:
            g(x)
    return out
