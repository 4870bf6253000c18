"""Piecewise prescriptions cover their whole domain.

Path-sensitive definite assignment (bound.py) over every function of the evolution,
population, grid and interpolation code: each path on which a local variable is still
unset is followed with the exact interval, value-set and substring constraints its
tests impose; a read on a feasible such path, a feasible path that falls off the end of
a value-returning function, and intervals of one quantity that leave a hole or overlap
are reported with the condition under which they happen.
"""
import ast
import math

from .. import bound
from ..consts import UNKNOWN

EXPLANATION = __doc__
ASSUMPTIONS = [
    "numbers compared are not NaN",
    "loops run at least once, and a variable bound in a loop under a condition that "
    "changes from turn to turn is bound by some turn",
    "paths through an exception handler are not followed",
    "chains of identity tests between objects (x == a, x == b) are exhaustive",
]
SCOPE = ("posydon/binary_evol/", "posydon/popsyn/", "posydon/grids/",
         "posydon/interpolation/", "posydon/utils/", "posydon/CLI/",
         "posydon/config.py", "posydon/unit_tests/_none")


def scoped(f):
    return f.mod.rel.startswith(SCOPE) and "tests" not in f.mod.rel


def const_fn(ctx, f):
    """expression -> (known, value) within function f."""
    loc = bound.locals_of(f.node)
    a = f.node.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    single = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.stmt):
            for x in bound.bound_names(n):
                single.setdefault(x, []).append(n)
    memo = {}

    def const(e, depth=0):
        if isinstance(e, ast.Constant):
            return True, e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            k, v = const(e.operand, depth)
            return (True, -v) if k and isinstance(v, (int, float)) else (False, None)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            vs = [const(x, depth) for x in e.elts]
            if all(k for k, _ in vs):
                return True, [v for _, v in vs]
            return False, None
        if isinstance(e, ast.Name):
            if e.id in memo:
                return memo[e.id]
            r = (False, None)
            if e.id in loc:
                b = single.get(e.id, [])
                # a local table, bound once
                if len(b) == 1 and isinstance(b[0], ast.Assign) and depth < 3 and len(
                        b[0].targets) == 1 and isinstance(b[0].targets[0], ast.Name):
                    k, v = const(b[0].value, depth + 1)
                    if k and isinstance(v, (list, int, float, str)):
                        r = (k, v)
            elif e.id not in params:
                v = ctx.consts.get(f.mod, e.id)
                if v is not UNKNOWN and v is not None and isinstance(
                        v, (list, tuple, set, frozenset, str, int, float, dict)):
                    r = (True, v)
            memo[e.id] = r
            return r
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult,
                                                          ast.Div)):
            k, x = const(e.left, depth)
            j, y = const(e.right, depth)
            if k and j and isinstance(x, (int, float)) and isinstance(y, (int, float)):
                try:
                    return True, {ast.Add: x + y, ast.Sub: x - y, ast.Mult: x * y,
                                  ast.Div: x / y if y else None}[type(e.op)]
                except (ZeroDivisionError, KeyError):
                    return False, None
        return False, None
    return const


def own_nodes(fnode):
    todo = list(fnode.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def closures(fnode):
    """Names read by nested functions (their moment of use is unknown)."""
    out = set()
    for n in ast.walk(fnode):
        if n is not fnode and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            out |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
    return out


def check(ctx):
    ctx.rule("U-unset", "no feasible path reads a local variable that is not set on it",
             2000)
    ctx.rule("U-return", "a function that returns a value returns one on every "
             "feasible path", 30)
    ctx.rule("U-hole", "pieces of one quantity that meet at a boundary include it "
             "exactly once", 8)
    ctx.rule("U-dead", "every piece of a chain of conditions can apply", 150)
    ctx.rule("U-cover", "the masks that fill an uninitialised array cover it", 0)
    for f in ctx.repo.functions():
        if not scoped(f):
            continue
        const = const_fn(ctx, f)
        unset(ctx, f, const)
        returns(ctx, f, const)
        chains(ctx, f, const)
        masks(ctx, f, const)


# ---------------------------------------------------------------- pieces
SYMS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
TURN = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}


def comparisons(t):
    """[(left, op, right)] of a conjunction of order comparisons, else None."""
    if isinstance(t, ast.Compare):
        out, left = [], t.left
        for o, c in zip(t.ops, t.comparators):
            if type(o) not in SYMS:
                return None
            out.append((left, SYMS[type(o)], c))
            left = c
        return out
    parts = None
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        parts = t.values
    elif isinstance(t, ast.BinOp) and isinstance(t.op, ast.BitAnd):
        parts = [t.left, t.right]
    elif isinstance(t, ast.Call) and ast.unparse(t.func).split(".")[-1] == \
            "logical_and" and len(t.args) == 2:
        parts = t.args
    if parts is None:
        return None
    out = []
    for p in parts:
        c = comparisons(p)
        if c is None:
            return None
        out += c
    return out


def interval(comps, subj, const):
    """(lo, lo_in, hi, hi_in) of the subject, or None; ends are numbers or texts."""
    lo, hi = (-math.inf, True), (math.inf, True)
    for a, o, b in comps:
        ta, tb = ast.unparse(a), ast.unparse(b)
        if tb == subj:
            a, b, ta, tb, o = b, a, tb, ta, TURN[o]
        if ta != subj:
            return None
        k, v = const(b)
        end = float(v) if k and isinstance(v, (int, float)) else tb
        if o in ("<", "<="):
            if hi[0] != math.inf:
                return None
            hi = (end, o == "<=")
        else:
            if lo[0] != -math.inf:
                return None
            lo = (end, o == ">=")
    return lo + hi


def subject(groups):
    """The expression every comparison of every condition is about."""
    cand = None
    for comps in groups:
        for a, _, b in comps:
            s = {ast.unparse(x) for x in (a, b) if not isinstance(x, ast.Constant)}
            cand = s if cand is None else cand & s
    return sorted(cand) if cand else []


def boundary_faults(pieces):
    """Boundary values that no piece or more than one piece takes."""
    for i, p in enumerate(pieces):
        for j, q in enumerate(pieces):
            if i == j or p[2] != q[0] or p[2] in (math.inf, -math.inf):
                continue
            v = p[2]        # p ends where q starts
            took = sum(1 for r in pieces if takes(r, v))
            if took == 0:
                yield v, "no piece takes the value %s" % v
            elif p[3] and q[1] and took > 1:
                yield v, "two pieces take the value %s" % v


def takes(r, v):
    if r[0] == v:
        return r[1] and (r[2] != v or r[3])
    if r[2] == v:
        return r[3]
    if all(isinstance(x, float) for x in (r[0], r[2], v)):
        return r[0] < v < r[2]
    return False


def chains(ctx, f, const):
    heads = []
    nested = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.If):
            if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                nested.add(id(n.orelse[0]))
            heads.append(n)
    L = bound.Lits(const)
    for n in heads:
        if id(n) in nested:
            continue
        tests, cur, last = [], n, None
        while True:
            tests.append(cur)
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                cur = cur.orelse[0]
            else:
                last = cur.orelse
                break
        if len(tests) < 2:
            continue
        # can each piece apply?
        try:
            states = [()]
            for c in tests:
                ctx.instance("U-dead")
                pos = [s + d for s in states for d in L.dnf(c.test, True)]
                if pos and not any(bound.feasible(s) for s in pos):
                    ctx.find("U-dead", "%s:%s" % (f.key, ast.unparse(c.test)[:80]),
                             "%s:%d" % (f.mod.rel, c.lineno),
                             "the piece `%s` can never apply: the conditions before it "
                             "take all of it" % ast.unparse(c.test)[:120])
                states = [s + d for s in states for d in L.dnf(c.test, False)]
                states = [s for s in states if bound.feasible(s)][:200]
        except bound.Give:
            pass
        groups = [comparisons(c.test) for c in tests]
        closed = not last or isinstance(last[-1], ast.Raise)
        run = []
        for g in groups + [None]:
            if g is not None:
                run.append(g)
                continue
            if len(run) >= 2:
                for s in subject(run):
                    ps = [interval(g2, s, const) for g2 in run]
                    if all(p is not None for p in ps):
                        ctx.instance("U-hole", f.key + ": " + s)
                        # x < v, x > v: a three-way comparison
                        faults = [] if len(ps) < 3 else [
                            m for _, m in boundary_faults(ps) if m.startswith("no")]
                        if closed and len(ps) > 2 and len(run) == len(groups):
                            faults += list(gaps(ps))
                        for msg in faults:
                            ctx.find("U-hole", "%s:%s:%s" % (f.key, s, msg),
                                     "%s:%d" % (f.mod.rel, n.lineno),
                                     "conditions on %s: %s" % (s, msg))
                        break
            run = []


def gaps(ps):
    """Finite upper ends at which no other piece continues, although a piece further
    up exists."""
    if not any(p[2] == math.inf for p in ps):
        tops = [p[2] for p in ps]
        if any(not isinstance(t, float) for t in tops):
            return
        top = max(tops)
    else:
        top = math.inf
    for p in ps:
        v = p[2]
        if v == top or any(q[0] == v for q in ps):
            continue
        if any(q is not p and (q[0] == -math.inf or isinstance(q[0], float)) and
               (q[2] == math.inf or isinstance(q[2], float)) and isinstance(v, float)
               and q[0] <= v < q[2] for q in ps):
            continue
        if any(q is not p and q[0] == -math.inf and (q[2] == math.inf or q[2] == v)
               for q in ps):
            continue
        if not isinstance(v, float) and any(not isinstance(q[0], float) and q is not p
                                            and isinstance(q[2], str) for q in ps) and \
                sum(1 for q in ps if q[2] == math.inf) != 1:
            continue
        yield "no piece continues above %s" % v


def masks(ctx, f, const):
    """Groups of A[mask] = ... stores to one array in one block."""
    defs = {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name):
            defs.setdefault(n.targets[0].id, []).append(n.value)

    def cond(e):
        if isinstance(e, ast.Name) and len(defs.get(e.id, [])) == 1:
            return cond(defs[e.id][0])
        return e

    for n in [f.node] + list(own_nodes(f.node)):
        for k in ("body", "orelse"):
            b = getattr(n, k, None)
            if not isinstance(b, list) or isinstance(n, (ast.FunctionDef, ast.ClassDef)) \
                    and n is not f.node:
                continue
            stores = {}
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                        s.targets[0], ast.Subscript) and isinstance(
                        s.targets[0].value, ast.Name):
                    stores.setdefault(s.targets[0].value.id, []).append(s)
            for arr, ss in stores.items():
                if len(ss) > 1:
                    mask_group(ctx, f, const, defs, arr, ss, cond)


def flat_comps(e, cond):
    """Comparisons of a mask, names of masks resolved."""
    e = cond(e)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitAnd):
        parts = [e.left, e.right]
    elif isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
        parts = e.values
    elif isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == \
            "logical_and" and len(e.args) == 2:
        parts = e.args
    else:
        return comparisons(e)
    out = []
    for p in parts:
        c = flat_comps(p, cond)
        if c is None:
            return None
        out += c
    return out


def mask_group(ctx, f, const, defs, arr, ss, cond):
    cs = [flat_comps(s.targets[0].slice, cond) for s in ss]
    full = all(c is not None for c in cs)
    cs = [c for c in cs if c]
    subjects = {}
    for c in cs:
        for x in {ast.unparse(y) for a, _, b in c for y in (a, b)
                  if not const(y)[0]}:
            subjects[x] = subjects.get(x, 0) + 1
    done = set()
    for subj in sorted(subjects, key=lambda x: (-subjects[x], x)):
        groups = {}
        for i, c in enumerate(cs):
            on = [k for k in c if subj in (ast.unparse(k[0]), ast.unparse(k[2]))]
            rest = frozenset("%s%s%s" % (ast.unparse(a), o, ast.unparse(b))
                             for a, o, b in c if (a, o, b) not in on)
            if on and i not in done:
                groups.setdefault(rest, []).append((i, on))
        for rest, g in groups.items():
            ps = [interval(on, subj, const) for _, on in g]
            if len(ps) < 2 or any(p is None for p in ps):
                continue
            done |= {i for i, _ in g}
            ctx.instance("U-hole", "%s: %s[%s]" % (f.key, arr, subj))
            faults = [m for _, m in boundary_faults(ps)]
            outer = len(ps) == 2 and all(p[0] == -math.inf or p[2] == math.inf
                                         for p in ps)
            if not rest and full and not outer:
                faults += list(gaps(ps))
            for msg in faults:
                ctx.find("U-hole", "%s:%s:%s" % (f.key, arr, msg),
                         "%s:%d" % (f.mod.rel, ss[0].lineno),
                         "masks of %s on %s: %s" % (arr, subj, msg))
            init = defs.get(arr, [])
            if full and not rest and len(g) == len(ss) and len(init) == 1 and isinstance(
                    init[0], ast.Call) and ast.unparse(
                    init[0].func).split(".")[-1] in ("empty", "empty_like"):
                ctx.instance("U-cover", "%s: %s" % (f.key, arr))
                for what in uncovered(ps):
                    ctx.find("U-cover", "%s:%s" % (f.key, arr),
                             "%s:%d" % (f.mod.rel, ss[0].lineno),
                             "%s is not initialised where %s %s" % (arr, subj, what))


def uncovered(ps):
    """Ends of pieces at which no other piece continues."""
    if not any(p[0] == -math.inf for p in ps):
        yield "is below every piece"
    if not any(p[2] == math.inf for p in ps):
        yield "is above every piece"
    for p in ps:
        if p[2] not in (math.inf,) and not any(q[0] == p[2] or (
                q is not p and isinstance(p[2], float) and isinstance(q[0], float) and
                (q[2] == math.inf or isinstance(q[2], float)) and q[0] < p[2] < q[2])
                for q in ps):
            yield "is just above %s" % p[2]


def unset(ctx, f, const):
    for v in sorted(bound.locals_of(f.node)):
        ctx.instance("U-unset", f.key + ":" + v)
        d = bound.Definite(f.node, v, const, plain=True)
        if not d.run():
            continue
        ctx.count("variables followed path by path")
        d = bound.Definite(f.node, v, const)
        try:
            r = d.run()
        except bound.Give:
            ctx.count("variables with too many paths")
            ctx.note("not decided (too many paths): %s %s" % (f.key, v))
            continue
        for x, st in r:
            # no option of a fixed list selected, or a genuine gap
            other = st and len({e for e, _, _ in st}) == 1 and all(
                o in ("!=", "not in") for _, o, _ in st)
            ctx.find("U-unset", "%s:%s%s" % (f.key, v, ":other" if other else ""),
                     "%s:%d" % (f.mod.rel, x.lineno),
                     "%s is read but not set when %s" % (v, bound.describe(st)[:300]))


def returns(ctx, f, const):
    rets = [n for n in own_nodes(f.node) if isinstance(n, ast.Return)]
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node)):
        return
    vals = [r for r in rets if r.value is not None and not (
        isinstance(r.value, ast.Constant) and r.value.value is None)]
    if len(vals) < 2 or len(vals) < len(rets):
        return      # an optional result: None is one of the documented outcomes
    ctx.instance("U-return", f.key)
    d = bound.Definite(f.node, "", const, plain=True)
    d.run()
    if not d.ends["fall"]:
        return
    last = set()        # a warning as the last word of a branch: refused on purpose
    for n in own_nodes(f.node):
        for k in ("body", "orelse"):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[-1], ast.Expr) and isinstance(
                    b[-1].value, ast.Call):
                g = b[-1].value.func
                if getattr(g, "id", getattr(g, "attr", "")) in ("Pwarn", "warn"):
                    last.add(id(b[-1].value))
    d = bound.Definite(f.node, "", const, noreturn=lambda c: id(c) in last)
    try:
        d.run()
    except bound.Give:
        ctx.note("not decided (too many paths): return of " + f.key)
        return
    ends = [st for st in d.ends["fall"] if not any(
        e.startswith("len(") and v in (0, 1) for e, _, v in st)]   # nothing to work on
    if ends:
        ctx.find("U-return", f.key, "%s:%d" % (f.mod.rel, f.node.lineno),
                 "%s returns a value elsewhere but nothing when %s"
                 % (f.qual, bound.describe(ends[0])[:300]))
