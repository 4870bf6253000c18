"""Value numbering in gated form.

Expressions are hash-consed nodes.  Arithmetic is kept in a sum-of-products
normal form, conditions and conditional values in an ordered decision diagram
whose tests are comparison atoms.  Two program fragments that compute the same
value by reordered, renamed, re-nested or factored-out statements obtain the
same node; the comparison is purely syntactic on the normal form (no paths are
enumerated and no solver is involved).
"""
import decimal
import sys
import time
from decimal import Decimal

decimal.getcontext().prec = 50
_KEY = decimal.Context(prec=30)

sys.setrecursionlimit(20000)


class N:
    __slots__ = ("k", "a", "id", "lc", "ub", "bo", "nl")

    def __init__(self, k, a, i):
        self.k, self.a, self.id = k, a, i
        self.lc = 1
        self.ub = False
        self.nl = None
        self.bo = k == "c" and (a[0] is True or a[0] is False)

    def __repr__(self):
        return show(self)


class TooComplex(Exception):
    pass


DISTINCT = set()       # objects known to be different from one another
_tab = {}
_count = 0
LIMIT = 3000000
MAXPATHS = 10 ** 15
DEADLINE = [None]


def reset():
    global _count
    _tab.clear()
    DISTINCT.clear()
    _memo_ite.clear()
    _memo_restrict.clear()
    _tab.update(_BASE)          # the constants keep their identity
    _count = len(_BASE)


def mk(k, *a):
    global _count
    key = (k,) + tuple((x.id, 0) if isinstance(x, N) else
                       (_kv(x), 1) for x in a)
    n = _tab.get(key)
    if n is None:
        _count += 1
        if _count > LIMIT:
            raise TooComplex("node budget")
        if DEADLINE[0] is not None and not _count & 1023 \
                and time.time() > DEADLINE[0]:
            raise TooComplex("time budget")
        n = N(k, a, _count)
        if k == "ite":
            n.lc = a[1].lc + a[2].lc
            n.ub = a[1].ub or a[2].ub
            n.bo = a[1].bo and a[2].bo
        elif k == "unbound":
            n.ub = True
        _tab[key] = n
    return n


def _kv(x):
    if isinstance(x, tuple):
        return tuple((y.id, 0) if isinstance(y, N) else (_kv(y), 1) for y in x)
    if isinstance(x, Decimal):
        x = _KEY.plus(x).normalize(_KEY)
        return ("num", x)
    if isinstance(x, int) and not isinstance(x, bool):
        return ("num", Decimal(x))
    return (type(x).__name__, x)


# ------------------------------------------------------------------ constants
def c(v):
    """Constant leaf."""
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk("c", v)
    if isinstance(v, float):
        if v != v:
            return mk("c", "NaN!")
        if v in (float("inf"), float("-inf")):
            return mk("c", v)
        v = Decimal(repr(v))
    if isinstance(v, (int, Decimal)):
        return mk("c", _r(v))
    return mk("c", repr(v))


def sym(name):
    return mk("sym", name)


def _mkconsts():
    global TRUE, FALSE, NONE, UNBOUND, DC
    TRUE, FALSE, NONE = c(True), c(False), c(None)
    UNBOUND = mk("unbound")
    DC = mk("dontcare")


_memo_ite = {}
_memo_restrict = {}
_mkconsts()
_BASE = dict(_tab)


def isnum(n):
    return n.k == "c" and isinstance(n.a[0], (int, Decimal)) \
        and not isinstance(n.a[0], bool)


def isstr(n):
    return n.k == "c" and isinstance(n.a[0], str) and n.a[0] != "NaN!"


def isnanc(n):
    return n.k == "c" and n.a[0] == "NaN!"


def isconst(n):
    return n.k == "c"


# ------------------------------------------------------------ decision diagrams
def _atom_of(n):
    return n.a[0]


def _implied(atom, val, other):
    """Does atom==val decide other?  -> True/False/None."""
    if atom is other:
        return val
    if atom.k == "eq" and other.k == "eq" and val:
        # x == A  excludes x == B for different constants
        x1, c1 = _eqparts(atom)
        x2, c2 = _eqparts(other)
        if x1 is not None and x1 is x2 and c1 is not c2:
            return False
    if atom.k == "eq" and other.k == "isnone" and val:
        x1, c1 = _eqparts(atom)
        if x1 is other.a[0]:
            return False
    if atom.k == "isnone" and other.k == "eq" and val:
        x1, c1 = _eqparts(other)
        if x1 is atom.a[0]:
            return False
    if atom.k == "lt" and other.k == "lt":
        b1, b2 = _bound(atom, val), _bound(other, True)
        if b1 and b2 and b1[0] is b2[0]:
            return _interval_implies(b1, b2)
    if atom.k == "eq" and other.k == "lt" and val:
        x1, c1 = _eqparts(atom)
        b2 = _bound(other, True)
        if b2 and x1 is b2[0] and isnum(c1):
            v = c1.a[0]
            return v < b2[2] if b2[1] == "<" else v > b2[2]
    if atom.k == "lt" and other.k == "eq":
        x1, c1 = _eqparts(other)
        b1 = _bound(atom, val)
        if b1 and x1 is b1[0] and isnum(c1):
            v = c1.a[0]
            ok = {"<": v < b1[2], "<=": v <= b1[2], ">": v > b1[2],
                  ">=": v >= b1[2]}[b1[1]]
            if not ok:
                return False
    return None


def _eqparts(n):
    x, y = n.a
    if isconst(y):
        return x, y
    if isconst(x):
        return y, x
    return None, None


def _bound(n, val):
    """lt atom with one constant side -> (x, op, const)."""
    x, y = n.a
    if isnum(y):
        return (x, "<" if val else ">=", y.a[0])
    if isnum(x):
        return (y, ">" if val else "<=", x.a[0])
    return None


def _interval_implies(b1, b2):
    op1, v1 = b1[1], b1[2]
    op2, v2 = b2[1], b2[2]
    if op2 == "<":
        if op1 == "<" and v1 <= v2:
            return True
        if op1 == "<=" and v1 < v2:
            return True
        if op1 in (">", ">=") and v1 >= v2:
            return False
    else:  # x > v2
        if op1 == ">" and v1 >= v2:
            return True
        if op1 == ">=" and v1 > v2:
            return True
        if op1 in ("<", "<=") and v1 <= v2:
            return False
    return None


def restrict(n, atom, val):
    if n.k != "ite":
        return n
    key = (n.id, atom.id, val)
    r = _memo_restrict.get(key)
    if r is not None:
        return r
    a = n.a[0]
    imp = _implied(atom, val, a)
    if imp is True:
        r = restrict(n.a[1], atom, val)
    elif imp is False:
        r = restrict(n.a[2], atom, val)
    else:
        h, l = restrict(n.a[1], atom, val), restrict(n.a[2], atom, val)
        r = h if h is l else mk("ite", a, h, l)
    _memo_restrict[key] = r
    return r


def _node(atom, h, l):
    h = restrict(h, atom, True)
    l = restrict(l, atom, False)
    if h is l:
        return h
    # x==A ? v : rest   where rest already gives v under x==A is left alone
    return mk("ite", atom, h, l)


def _top(*ns):
    best = None
    for n in ns:
        if n.k == "ite":
            a = n.a[0]
            if best is None or a.id < best.id:
                best = a
    return best


def _cof(n, atom, val):
    return restrict(n, atom, val)


def ite(f, g, h):
    """f: condition diagram with TRUE/FALSE leaves."""
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f.id, g.id, h.id)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    if f.k != "ite":
        if f is DC:
            return DC
        f = truth(f)
        if f.k != "ite":
            return g if f is TRUE else h
    t = _top(f, g, h)
    r = _node(t, ite(_cof(f, t, True), _cof(g, t, True), _cof(h, t, True)),
              ite(_cof(f, t, False), _cof(g, t, False), _cof(h, t, False)))
    if r.lc > MAXPATHS:
        raise TooComplex("diagram too large")
    _memo_ite[key] = r
    return r


def atomcond(atom):
    return mk("ite", atom, TRUE, FALSE)


def not_(f):
    return ite(f, FALSE, TRUE)


def and_(f, g):
    return ite(f, g, FALSE)


def or_(f, g):
    return ite(f, TRUE, g)


def leaves(n, out=None, seen=None):
    out = {} if out is None else out
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "ite":
            st.append(x.a[1])
            st.append(x.a[2])
        else:
            out[x.id] = x
    return list(out.values())


def nleaves(n, cap=33):
    """Number of distinct leaves (independent of the test order), capped."""
    if n.k != "ite":
        return 1
    r = n.nl
    if r is None:
        seen, out, st = set(), set(), [n]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.k == "ite":
                st.append(x.a[1])
                st.append(x.a[2])
            else:
                out.add(x.id)
                if len(out) > 64:
                    break
        r = n.nl = len(out)
    return r


def lift(fn, *args, limit=24):
    """Apply fn to the leaves of conditional arguments (few distinct leaves)."""
    if not any(x.k == "ite" for x in args):
        return fn(*args)
    tot = 1
    for x in args:
        if x.k == "ite":
            tot *= nleaves(x)
    if tot > limit:
        return fn(*args)
    memo = {}

    def rec(xs):
        key = tuple(x.id for x in xs)
        r = memo.get(key)
        if r is not None:
            return r
        t = _top(*xs)
        if t is None:
            r = fn(*xs)
        else:
            h = rec([_cof(x, t, True) for x in xs])
            l = rec([_cof(x, t, False) for x in xs])
            r = ite(atomcond(t), h, l)
        memo[key] = r
        return r
    return rec(list(args))


def under(v, pc):
    """v restricted to the path condition (other leaves become don't-care)."""
    return ite(pc, v, DC)


def paths_to(n, pred, lim=400):
    """Theory-consistent literal sets reaching a leaf satisfying pred."""
    out = []

    def rec(x, lits):
        if len(out) >= lim:
            return
        if x.k == "ite":
            a = x.a[0]
            if consistent(lits, a, True):
                rec(x.a[1], lits + [(a, True)])
            if consistent(lits, a, False):
                rec(x.a[2], lits + [(a, False)])
        elif pred(x):
            out.append(lits)
    rec(n, [])
    return out


def consistent(lits, atom, val):
    """Is atom==val consistent with the literals (pairwise and intervals)?"""
    for a, v in lits:
        imp = _implied(a, v, atom)
        if imp is not None and imp != val:
            return False
    # interval emptiness and eq-by-exclusion for the term of atom
    b = _bound(atom, val) if atom.k == "lt" else None
    x = b[0] if b else (_eqparts(atom)[0] if atom.k == "eq" else None)
    if x is None:
        return True
    lo, hi, lo_o, hi_o = float("-inf"), float("inf"), True, True
    ne = set()
    for a, v in list(lits) + [(atom, val)]:
        bb = _bound(a, v) if a.k == "lt" else None
        if bb and bb[0] is x:
            op, k = bb[1], bb[2]
            if op in ("<", "<="):
                if k < hi or (k == hi and op == "<"):
                    hi, hi_o = k, op == "<"
            else:
                if k > lo or (k == lo and op == ">"):
                    lo, lo_o = k, op == ">"
        elif a.k == "eq":
            xx, kk = _eqparts(a)
            if xx is x and isnum(kk):
                k = kk.a[0]
                if v:
                    if k < hi or (k == hi and not hi_o):
                        hi, hi_o = k, False
                    elif k >= hi:
                        return False
                    if k > lo or (k == lo and not lo_o):
                        lo, lo_o = k, False
                    elif k <= lo and not (k == lo and not lo_o):
                        return False
                else:
                    ne.add(k)
    if lo > hi:
        return False
    if lo == hi and (lo_o or hi_o):
        return False
    if lo == hi and lo in ne:
        return False
    return True


# ------------------------------------------------------------------ conditions
def truth(n):
    """Condition diagram for the truth value of n."""
    if n is TRUE or n is FALSE:
        return n
    if n.k == "c":
        v = n.a[0]
        return TRUE if v not in (None, 0, "", False) else FALSE
    if n.bo:
        return n
    if n.k == "ite":
        if nleaves(n) <= 12:
            return lift(truth, n, limit=12)
        return atomcond(mk("truth", n))
    if n.k in ("lt", "eq", "isnone", "truth", "exc", "isnan"):
        return atomcond(n)
    if n.k in ("list", "tuple", "dict", "set"):
        return TRUE if n.a else FALSE
    if n.k in ("unbound", "dontcare"):
        return n
    return atomcond(mk("truth", n))


def eq(x, y):
    return lift(_eq, x, y, limit=32)


def _eq(x, y):
    if isnanc(x) or isnanc(y):
        return FALSE
    if x is y:
        return TRUE
    if x.k == "c" and y.k == "c":
        return FALSE
    if x in DISTINCT and y in DISTINCT:
        return FALSE
    if x is NONE or y is NONE:
        z = y if x is NONE else x
        if z.k in _NOTNONE or (z.k == "call" and z.a[0] in _NUMCALL):
            return FALSE
        return atomcond(mk("isnone", z))
    if x is TRUE or x is FALSE:
        x, y = y, x
    if y is TRUE and x.k in ("lt", "eq", "isnone", "truth"):
        return truth(x)
    if x.k in ("tuple", "list") and y.k in ("tuple", "list"):
        if len(x.a) != len(y.a):
            return FALSE
        r = TRUE
        for p, q in zip(x.a, y.a):
            r = and_(r, eq(p, q))
        return r
    if x.k in ("list", "tuple", "dict", "fstr") and y.k == "c":
        if x.k != "fstr":
            return FALSE
    if x.id > y.id:
        x, y = y, x
    return atomcond(mk("eq", x, y))


_NUMCALL = {"min", "max", "len", "sum", "range", "abs"}
_NOTNONE = {"given", "poly", "list", "tuple", "dict", "fstr", "c", "pow", "set"}


def lt(x, y):
    return lift(_lt, x, y, limit=16)


def le(x, y):
    return lift(_le, x, y, limit=16)


def _le(x, y):
    if isnanc(x) or isnanc(y):
        return FALSE
    return not_(_lt(y, x))


def _lt(x, y):
    if x is y or isnanc(x) or isnanc(y):
        return FALSE
    if isnum(x) and isnum(y):
        return TRUE if x.a[0] < y.a[0] else FALSE
    if x.k == "c" and isinstance(x.a[0], float) or \
       y.k == "c" and isinstance(y.a[0], float):
        # infinities
        for s, o, d in ((x, y, 1), (y, x, -1)):
            if s.k == "c" and s.a[0] in (float("inf"), float("-inf")):
                return atomcond(mk("lt", x, y))
    d = topoly(sub_(x, y)) if x.k != "c" or y.k != "c" else None
    if d is None:
        return atomcond(mk("lt", x, y))
    k = d.pop((), 0)
    if not d:
        return TRUE if k < 0 else FALSE
    lead = min(d, key=_monokey)
    s = d[lead]
    S = frompoly({m: _D(v) / s for m, v in d.items()})
    K = c(-_D(k) / s)
    if s > 0:
        return atomcond(mk("lt", S, K))
    return atomcond(mk("lt", K, S))


# ------------------------------------------------------------------ arithmetic
def _monokey(m):
    return tuple((a.id, float(e)) for a, e in m)


def topoly(n):
    """{monomial: coef}; monomial = tuple of (atom, exponent) sorted by id."""
    if isnum(n):
        return {(): n.a[0]} if n.a[0] != 0 else {}
    if n is TRUE:
        return {(): 1}
    if n is FALSE:
        return {}
    if n.k == "poly":
        return {m: v for v, m in n.a[0]}
    return {((n, 1),): 1}


def frompoly(d):
    d = {m: v for m, v in d.items() if v != 0}
    if not d:
        return c(0)
    if len(d) == 1:
        (m, v), = d.items()
        if m == ():
            return c(v)
        if v == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(((_r(v), m) for m, v in d.items()),
                         key=lambda t: (_monokey(t[1]), t[0])))
    return mk("poly", items)


def _r(v):
    """Snap to an integer when equal to one up to the key precision."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        v = Decimal(repr(v))
    if abs(v) < 10 ** 25:
        k = _KEY.plus(v)
        if k == k.to_integral_value():
            return int(k)
    return v


def _D(v):
    return v if isinstance(v, Decimal) else Decimal(v) if isinstance(v, int) \
        else Decimal(repr(v))


EXPAND = 48


def add_(x, y):
    return lift(_add, x, y)


def _isseq(n):
    return n.k in ("list", "tuple", "fstr", "concat") or isstr(n)


def _add(x, y):
    if isnanc(x) or isnanc(y):
        return x if isnanc(x) else y
    if _isseq(x) or _isseq(y):
        if x.k in ("list", "tuple") and y.k == x.k:
            return mk(x.k, *(x.a + y.a))
        if isstr(x) and isstr(y):
            return c(x.a[0] + y.a[0])
        if x.k in ("fstr",) or y.k in ("fstr",) or isstr(x) or isstr(y):
            return fstr([x, y])
        return mk("concat", x, y)
    d = dict(topoly(x))
    for m, v in topoly(y).items():
        _acc(d, m, v)
    return frompoly(d)


_EPS = Decimal("1e-12")


def _acc(d, m, v):
    """Accumulate a coefficient; exact cancellation up to rounding."""
    o = d.get(m, 0)
    s = o + v
    if o and abs(s) <= _EPS * max(abs(o), abs(v)):
        s = 0
    d[m] = s


def neg_(x):
    return mul_(c(-1), x)


def sub_(x, y):
    return add_(x, neg_(y))


def mul_(x, y):
    return lift(_mul, x, y)


def _mm(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = _D(d[a]) + _D(e) if a in d else e
    return tuple(sorted(((a, _r(e)) for a, e in d.items() if abs(e) > _EPS),
                        key=lambda t: t[0].id))


KEEP_SHAPE = False     # analyses of array shapes: nan * array is not just nan


def _mul(x, y):
    if isnanc(x) or isnanc(y):
        if KEEP_SHAPE and not (x.k == "c" and y.k == "c"):
            return mk("nanmul", y if isnanc(x) else x)
        return x if isnanc(x) else y
    if _isseq(x) or _isseq(y):
        if x.k == "list" and isnum(y) and isinstance(y.a[0], int) and len(x.a) * y.a[0] < 200:
            return mk("list", *(x.a * y.a[0]))
        return mk("rep", *sorted((x, y), key=lambda n: n.id))
    p, q = topoly(x), topoly(y)
    if len(p) > 1 and len(q) > 1 and len(p) * len(q) > EXPAND:
        if len(p) > 1:
            p = {((_prim(x)[1], 1),): _prim(x)[0]}
        if len(q) > 1:
            q = {((_prim(y)[1], 1),): _prim(y)[0]}
    elif (len(p) > EXPAND and len(q) == 1 and () not in q):
        s, px = _prim(x)
        p = {((px, 1),): s}
    elif (len(q) > EXPAND and len(p) == 1 and () not in p):
        s, px = _prim(y)
        q = {((px, 1),): s}
    d = {}
    for m1, v1 in p.items():
        for m2, v2 in q.items():
            m = _mm(m1, m2)
            _acc(d, m, v1 * v2)
    return frompoly(d)


def _prim(n):
    """content and primitive part of a sum."""
    d = topoly(n)
    lead = min(d, key=_monokey)
    s = d[lead]
    return s, frompoly({m: _D(v) / s for m, v in d.items()})


def pow_(x, y):
    return lift(_pow, x, y)


def _pow(x, y):
    if isnanc(x) or isnanc(y):
        return x if isnanc(x) else y
    if isnum(y):
        e = y.a[0]
        if e == 0:
            return c(1)
        if e == 1:
            return x
        if isnum(x):
            v = _numpow(x.a[0], e)
            return c(v) if v is not None else mk("pow", x, y)
        d = topoly(x)
        if len(d) == 1:
            (m, v), = d.items()
            if v > 0 or e == int(e):
                k = _numpow(v, e)
                if k is None:
                    return mk("pow", x, y)
                return frompoly({tuple((a, _r(_D(q) * _D(e))) for a, q in m): k})
            return mk("pow", x, y)
        if e == 2 and len(d) <= 6:
            return _mul(x, x)
        s, p = _prim(x)
        if s > 0 or e == int(e):
            k = _numpow(s, e)
            if k is not None:
                return frompoly({((p, _r(e)),): k})
        return frompoly({((x, _r(e)),): 1})
    if isnum(x) and y.k == "call" and y.a[0] == "log10" and x.a[0] == 10:
        return y.a[1][0]
    if isnum(x) and x.a[0] == 10:
        # 10**(k*log10(z) + n + r) = z**k * 10**n * 10**r
        out, rest = c(1), {}
        for m, v in topoly(y).items():
            if not m:
                k = _numpow(10, v)
                if k is not None:
                    out = _mul(out, c(k))
                    continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0].k == "call" \
                    and m[0][0].a[0] == "log10" and len(m[0][0].a[1]) == 1:
                out = _mul(out, _pow(m[0][0].a[1][0], c(v)))
                continue
            rest[m] = v
        if out is not c(1):
            return _mul(out, mk("pow", x, frompoly(rest))) if rest else out
    return mk("pow", x, y)


def _numpow(v, e):
    try:
        if isinstance(v, int) and isinstance(e, int) and 0 <= e < 400:
            return v ** e
        return _r(_D(v) ** _D(e))
    except (decimal.DecimalException, OverflowError):
        return None


def div_(x, y):
    return mul_(x, pow_(y, c(-1)))


def fstr(parts):
    out = []
    for p in parts:
        for q in (p.a if p.k == "fstr" else (p,)):
            if isstr(q) and out and isstr(out[-1]):
                out[-1] = c(out[-1].a[0] + q.a[0])
            elif isstr(q) and q.a[0] == "":
                continue
            else:
                out.append(q)
    if not out:
        return c("")
    if len(out) == 1 and isstr(out[0]):
        return out[0]
    return mk("fstr", *out)


# ------------------------------------------------------------------ renaming
def rebuild(n, f, memo=None):
    """Rebuild n bottom-up; f(kind, value) renames leaves' identifiers."""
    memo = {} if memo is None else memo
    return _rb(n, f, memo)


def _rb(n, f, memo):
    r = memo.get(n.id)
    if r is not None:
        return r
    k = n.k
    if k == "c":
        v = n.a[0]
        r = c(f("str", v)) if isinstance(v, str) else n
    elif k == "sym":
        r = sym(f("sym", n.a[0]))
    elif k == "attr":
        r = mk("attr", _rb(n.a[0], f, memo), f("attr", n.a[1]))
    elif k == "ite":
        t = truth(_rb(n.a[0], f, memo))
        r = ite(t, _rb(n.a[1], f, memo), _rb(n.a[2], f, memo))
    elif k == "eq":
        r = _eq(_rb(n.a[0], f, memo), _rb(n.a[1], f, memo))
    elif k == "lt":
        r = _lt(_rb(n.a[0], f, memo), _rb(n.a[1], f, memo))
    elif k == "isnone":
        r = _eq(_rb(n.a[0], f, memo), NONE)
    elif k == "poly":
        r = c(0)
        for v, m in n.a[0]:
            t = c(v)
            for a, e in m:
                t = _mul(t, _pow(_rb(a, f, memo), c(e)))
            r = _add(r, t)
    elif k == "pow":
        r = _pow(_rb(n.a[0], f, memo), _rb(n.a[1], f, memo))
    elif k == "call":
        args = tuple(_rb(x, f, memo) for x in n.a[1])
        kws = tuple(sorted((f("kw", kk), _rb(x, f, memo)) for kk, x in n.a[2]))
        name = f("fn", n.a[0])
        r = mkcall(name, args, kws)
    elif k == "fstr":
        r = fstr([_rb(x, f, memo) for x in n.a])
    else:
        def g(x):
            if isinstance(x, N):
                return _rb(x, f, memo)
            if isinstance(x, tuple):
                return tuple(g(y) for y in x)
            if isinstance(x, str):
                return f("str", x)
            return x
        r = mk(k, *[g(x) for x in n.a])
    memo[n.id] = r
    return r


COMMUT = {"min", "max"}
SYMM = {}      # opaque function -> pairs of exchangeable parameters (proved)


def mkcall(name, args, kws=()):
    if name in SYMM and not args:
        d = dict(kws)
        for p, q in SYMM[name]:
            if p in d and q in d and d[p].id > d[q].id:
                d[p], d[q] = d[q], d[p]
        kws = tuple(sorted(d.items()))
    if name in COMMUT and not kws:
        if len(args) == 1 and args[0].k in ("list", "tuple"):
            args = args[0].a
        args = tuple(sorted(args, key=lambda n: n.id))
    return mk("call", name, tuple(args), tuple(kws))


# ------------------------------------------------------------------ dependence
def deps(n, pred, seen=None, out=None):
    """All sub-nodes satisfying pred."""
    seen = set() if seen is None else seen
    out = {} if out is None else out
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, N):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            out[x.id] = x
        st.extend(x.a)
    return list(out.values())


def subst(n, mapping, memo=None):
    """Replace nodes (by identity) and renormalise."""
    memo = {} if memo is None else memo
    if n in mapping:
        return mapping[n]
    r = memo.get(n.id)
    if r is not None:
        return r
    k = n.k

    def s(x):
        if isinstance(x, N):
            return subst(x, mapping, memo)
        if isinstance(x, tuple):
            return tuple(s(y) for y in x)
        return x
    if k in ("c", "sym", "unbound", "dontcare"):
        r = n
    elif k == "ite":
        r = ite(truth(s(n.a[0])), s(n.a[1]), s(n.a[2]))
    elif k == "eq":
        r = eq(s(n.a[0]), s(n.a[1]))
    elif k == "lt":
        r = lt(s(n.a[0]), s(n.a[1]))
    elif k == "isnone":
        r = eq(s(n.a[0]), NONE)
    elif k == "truth":
        r = truth(s(n.a[0]))
    elif k == "poly":
        r = c(0)
        for v, m in n.a[0]:
            t = c(v)
            for a, e in m:
                t = mul_(t, pow_(s(a), c(e)))
            r = add_(r, t)
    elif k == "pow":
        r = pow_(s(n.a[0]), s(n.a[1]))
    elif k == "call":
        r = mkcall(n.a[0], s(n.a[1]), s(n.a[2]))
    elif k == "fstr":
        r = fstr([s(x) for x in n.a])
    else:
        r = mk(k, *[s(x) for x in n.a])
    memo[n.id] = r
    return r


# ------------------------------------------------------------------ printing
def show(n, d=0):
    if not isinstance(n, N):
        return repr(n)
    if d > 7:
        return "…"
    k = n.k
    if k == "c":
        return repr(n.a[0])
    if k == "sym":
        return n.a[0]
    if k == "attr":
        return show(n.a[0], d + 1) + "." + n.a[1]
    if k == "ite":
        return "(%s if %s else %s)" % (show(n.a[1], d + 1), show(n.a[0], d + 1),
                                       show(n.a[2], d + 1))
    if k == "lt":
        return "%s<%s" % (show(n.a[0], d + 1), show(n.a[1], d + 1))
    if k == "eq":
        return "%s==%s" % (show(n.a[0], d + 1), show(n.a[1], d + 1))
    if k == "isnone":
        return "%s is None" % show(n.a[0], d + 1)
    if k == "truth":
        return show(n.a[0], d + 1)
    if k == "poly":
        ts = []
        for v, m in n.a[0]:
            fs = [] if v == 1 and m else [repr(v)]
            for a, e in m:
                fs.append(show(a, d + 1) + ("" if e == 1 else "^%s" % e))
            ts.append("*".join(fs))
        return "(" + " + ".join(ts) + ")"
    if k == "call":
        return "%s(%s)" % (n.a[0], ", ".join(
            [show(x, d + 1) for x in n.a[1]]
            + ["%s=%s" % (kk, show(x, d + 1)) for kk, x in n.a[2]]))
    return "%s(%s)" % (k, ", ".join(show(x, d + 1) for x in n.a))
