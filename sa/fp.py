"""Equality of value nodes by random interpretation.

Normal forms in vn.py are not fully canonical (products of large sums are kept
factored, conditional values are lifted out of arithmetic only while small).
Two nodes that are not identical are therefore compared once more: conditions
are cofactored one at a time, only those that are actually met on the way to a
result, and under each consistent choice of conditions the remaining
condition-free terms are compared as elements of the free algebra by three random
interpretations with 50 digits (Schwartz-Zippel; opaque functions are hashed
on the interpretation of their arguments).  A difference is only reported
together with the choice of conditions that exposes it.
"""
import decimal
import hashlib
import time
from decimal import Decimal

from . import vn
from .vn import N

_K = decimal.Context(prec=24)
ZERO = (Decimal(0),) * 3
ONE = (Decimal(1),) * 3
NEG = Decimal("1.3720193518264401")     # stands for -1 under a root


def _h(*parts):
    out = []
    for s in (b"a", b"b", b"c"):
        d = hashlib.blake2b(repr(parts).encode(), digest_size=16, salt=s).digest()
        out.append(Decimal(1) + Decimal(int.from_bytes(d, "big")) / (1 << 128))
    return tuple(out)


def key(v):
    """Hashable rounding of a value."""
    if isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], Decimal):
        return tuple(str(_K.plus(x).normalize(_K)) for x in v)
    return v


CONSTS = set()
NANV = _h("c", repr("NaN!"))


class Branch(Exception):
    def __init__(self, k, atom, lim=None):
        self.k, self.atom, self.lim = k, atom, lim


def _narrow(b, lim, less, v):
    lo, hi = b
    if less == v:                 # u < lim, or not (u > lim) -> u <= lim
        n = (lim, not v)
        if hi is None or lim < hi[0] or lim == hi[0] and not n[1]:
            hi = n
    else:                         # u > lim, or not (u < lim) -> u >= lim
        n = (lim, not v)
        if lo is None or lim > lo[0] or lim == lo[0] and not n[1]:
            lo = n
    return lo, hi


class Skip(Exception):
    pass


class Interp:
    def __init__(self, assign):
        self.assign = assign
        self.memo = {}

    def val(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self.memo[n.id] = self._val(n)
        return r

    def cond(self, a):
        """Truth of an atom under the current choice."""
        k = a.k
        if k == "lt":
            t = self._lt(a)
            if t is True or t is False:
                return t
            kk, lim, less = t
            r = self._ask(kk, lim, less)
            if r is None:
                raise Branch(kk, a, (lim, less))
            return r
        elif k == "eq":
            x, y = self.val(a.a[0]), self.val(a.a[1])
            kx, ky = key(x), key(y)
            if kx == ky:
                return True
            if (x[0] == x[1] or x in CONSTS) and (y[0] == y[1] or y in CONSTS):
                return False              # two different constants
            kk, o = ("eq",) + tuple(sorted((kx, ky))), False
            d = (x[0] - y[0], x[1] - y[1])
            if d[1] != 0 and (a.a[0].k in ("poly", "pow")
                              or a.a[1].k in ("poly", "pow")):
                kk = ("eq", str(_K.plus(d[0] / d[1]).normalize(_K)))
        elif k == "isnone":
            kk, o = ("isnone", key(self.val(a.a[0]))), False
        elif k == "truth":
            t = a.a[0]
            if t.k in ("ite", "c"):
                v = self.val(t)
                if v == ZERO:
                    return False
                if v == ONE:
                    return True
            else:
                v = self.val(t)
            kk, o = ("truth", key(v)), False
        else:
            kk, o = ("atom", key(self._gen(a))), False
        if kk not in self.assign:
            raise Branch(kk, a)
        return self.assign[kk] != o

    def _lt(self, a):
        """x < y as  u < lim (less) or u > lim  for a scale-free term u."""
        l, r = a.a
        x, y = self.val(l), self.val(r)
        t = []
        for p, q in zip(x, y):
            d = p - q
            if abs(d) <= max(abs(p), abs(q)) * Decimal("1e-28"):
                d = Decimal(0)
            t.append(d)
        if t[0] == t[1] == t[2]:         # a number under this choice
            return t[0] < 0
        if t[0] == t[1] or t[0] == t[2]:
            return ("lt", key(x), key(y)), Decimal(0), True
        # u = (t - t0) / (t0 - t1) does not change when t is scaled or shifted
        d = t[0] - t[1]
        return ("lt", str(_K.plus(d / (t[0] - t[2])).normalize(_K))), \
            _K.plus(-t[0] / d), d > 0

    def _ask(self, kk, lim, less):
        lo, hi = self.assign.get(kk, (None, None))   # (value, closed) bounds
        if less:                          # u < lim ?
            if hi is not None and (hi[0] < lim or hi[0] == lim and not hi[1]):
                return True
            if lo is not None and lo[0] >= lim:
                return False
        else:
            if lo is not None and (lo[0] > lim or lo[0] == lim and not lo[1]):
                return True
            if hi is not None and hi[0] <= lim:
                return False
        return None

    def _val(self, n):
        k = n.k
        if k == "c":
            v = n.a[0]
            if v is True:
                return ONE
            if v is False:
                return ZERO
            if isinstance(v, (int, Decimal)):
                d = Decimal(v)
                return (d, d, d)
            r = _h("c", repr(v))
            CONSTS.add(r)
            return r
        if k == "dontcare":
            raise Skip()
        if k == "ite":
            while n.k == "ite":
                n = n.a[1] if self.cond(n.a[0]) else n.a[2]
            return self.val(n)
        if k in ("lt", "eq", "isnone", "truth"):
            return ONE if self.cond(n) else ZERO
        if k == "poly":
            out = []
            tot = [Decimal(0)] * 3
            mx = [Decimal(0)] * 3
            for v, m in n.a[0]:
                t = [Decimal(v)] * 3
                for a, e in m:
                    p = self._pow(self.val(a), e)
                    if p == NANV:
                        return NANV
                    for i in (0, 1, 2):
                        t[i] *= p[i]
                for i in (0, 1, 2):
                    tot[i] += t[i]
                    mx[i] = max(mx[i], abs(t[i]))
            for i in (0, 1, 2):
                if abs(tot[i]) <= mx[i] * Decimal("1e-30"):
                    tot[i] = Decimal(0)
            return tuple(tot)
        if k == "pow":
            e = self.val(n.a[1])
            if e[0] == e[1]:
                return self._pow(self.val(n.a[0]), e[0])
            return _h("pow", key(self.val(n.a[0])), key(e))
        if k == "idx" and n.a[0].k == "ite" and vn.isnum(n.a[1]) \
                and isinstance(n.a[1].a[0], int):
            o, i = n.a[0], n.a[1].a[0]
            while o.k == "ite":
                o = o.a[1] if self.cond(o.a[0]) else o.a[2]
            if o.k in ("tuple", "list") and -len(o.a) <= i < len(o.a):
                return self.val(o.a[i])
            return _h("idx", [key(self.val(o)), key(self.val(n.a[1]))])
        if k == "call":
            nm = n.a[0]
            args = [self.val(x) for x in n.a[1]]
            kws = [(kk, self.val(x)) for kk, x in n.a[2]]
            if nm in vn.SYMM and not args:
                d = dict(kws)
                for p, q in vn.SYMM[nm]:
                    if p in d and q in d and key(d[p]) > key(d[q]):
                        d[p], d[q] = d[q], d[p]
                kws = sorted(d.items())
            ka = [key(x) for x in args]
            if nm in vn.COMMUT:
                ka.sort()
            if nm in ("abs", "fabs") and len(args) == 1:
                return tuple(abs(x) for x in args[0])
            if nm in ("min", "max", "minimum", "maximum") and len(args) > 1 and not kws:
                # min(k a, k b) = k min(a, b) for positive k
                args.sort(key=lambda v: v[0])
                s = args[0] if 0 not in args[0] else args[-1]
                if 0 not in s:
                    h = _h("call", nm[:3], [key(tuple(x / abs(y) for x, y in zip(v, s)))
                                            for v in args])
                    return tuple(abs(x) * y for x, y in zip(s, h))
            return _h("call", nm, ka, [(a, key(b)) for a, b in kws])
        return self._gen(n)

    def _gen(self, n):
        def g(x):
            if isinstance(x, N):
                return key(self.val(x))
            if isinstance(x, tuple):
                return tuple(g(y) for y in x)
            return repr(x)
        return _h(n.k, [g(x) for x in n.a])

    def _pow(self, b, e):
        e = Decimal(e)
        if e == 1 or b == NANV:
            return b
        if 0 in b:
            return ZERO if e > 0 else _h("inf", str(e))
        if e == e.to_integral_value():
            return tuple(x ** int(e) for x in b)
        e = _K.plus(e)
        return tuple(_frac(x if x > 0 else -x * NEG, e) for x in b)


_pows = {}


def _frac(x, e):
    r = _pows.get((x, e))
    if r is None:
        h = 2 * e
        if h == h.to_integral_value():
            r = x.sqrt() ** int(h)
        else:
            r = x ** e
        if len(_pows) > 200000:
            _pows.clear()
        _pows[(x, e)] = r
    return r


class Unknown(Exception):
    pass


def different(a, b, budget=8.0, maxpaths=4000):
    """None if equal under all consistent conditions met, else the literals.

    Raises Unknown when the budget runs out before a difference is found.
    """
    if a is b:
        return None
    t0 = time.time()
    stack = [({}, [])]
    n = 0
    while stack:
        assign, lits = stack.pop()
        n += 1
        if n > maxpaths or time.time() - t0 > budget:
            raise Unknown()
        it = Interp(assign)
        try:
            va = it.val(a)
            vb = it.val(b)
        except Skip:
            continue
        except Branch as br:
            for v in (False, True):
                if not vn.consistent(lits, br.atom, v):
                    continue
                s = dict(assign)
                if br.lim is None:
                    s[br.k] = v
                else:
                    s[br.k] = _narrow(s.get(br.k, (None, None)), *br.lim, v)
                stack.append((s, lits + [(br.atom, v)]))
            continue
        if key(va) != key(vb):
            return lits
    return None


def specialise(n, lits):
    """n under the literals (for messages)."""
    def rec(x, memo):
        return x
    for a, v in lits:
        n = vn.restrict(n, a, v) if n.k == "ite" else n
    return n
