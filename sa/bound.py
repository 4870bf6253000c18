"""Path-sensitive definite assignment.

For one local variable, every path through the function on which it is still unset is
followed with the conditions met on the way (comparisons with constants become exact
numeric intervals or value sets, others opaque literals).  A use reached on a path
whose conditions do not contradict each other is reported together with them.
"""
import ast
import math

LIMIT = 600


class Give(Exception):
    """Too many paths for this variable."""


NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt,
       ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
        ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
SYM = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
       ast.GtE: ">=", ast.Is: "==", ast.IsNot: "!=", ast.In: "in", ast.NotIn: "not in"}
INVS = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">",
        "in": "not in", "not in": "in", "true": "false", "false": "true",
        "has": "lacks", "lacks": "has"}
EXITS = {"exit", "_exit", "quit", "abort", "error"}


class Lits:
    """Translation of tests to disjunctions of literal sets."""

    def __init__(self, const):
        self.const = const      # expression -> (known, value)

    def dnf(self, t, pos):
        """List of tuples of literals equivalent to the test being `pos`."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.dnf(t.operand, not pos)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == pos
            if conj:
                out = [()]
                for v in t.values:
                    out = [a + b for a in out for b in self.dnf(v, pos)]
                    if len(out) > 60:
                        raise Give
                return out
            out, pre = [], [()]
            for v in t.values:      # first decisive operand, as evaluated
                out += [a + b for a in pre for b in self.dnf(v, pos)]
                pre = [a + b for a in pre for b in self.dnf(v, not pos)]
                if len(pre) > 60 or len(out) > 60:
                    raise Give
            return out
        if isinstance(t, ast.NamedExpr):
            return self.dnf(t.value, pos)
        if isinstance(t, ast.Compare):
            if len(t.ops) > 1:
                parts, left = [], t.left
                for o, c in zip(t.ops, t.comparators):
                    parts.append(ast.Compare(left, [o], [c]))
                    left = c
                return self.dnf(ast.BoolOp(ast.And(), parts), pos)
            return self.compare(t.left, t.ops[0], t.comparators[0], pos)
        k, v = self.const(t)
        if k:
            return [()] if bool(v) == pos else []
        return [((ast.unparse(t), "true" if pos else "false", None),)]

    def compare(self, a, op, b, pos):
        sym = SYM[type(op)]
        ka, va = self.const(a)
        kb, vb = self.const(b)
        if ka and not kb and type(op) in FLIP:
            a, b, va, vb, ka, kb = b, a, vb, va, kb, ka
            sym = SYM[FLIP[type(op)]]
        if not pos:
            sym = INVS[sym]
        if kb:
            if isinstance(vb, (list, set, tuple, frozenset)) and sym in ("in", "not in"):
                try:
                    vb = frozenset(vb)
                except TypeError:
                    return [((ast.unparse(a) + " in " + ast.unparse(b),
                              "true" if sym == "in" else "false", None),)]
            elif isinstance(vb, dict) and sym in ("in", "not in"):
                vb = frozenset(vb)
            try:
                hash(vb)
            except TypeError:
                return [((ast.unparse(a), sym, ("?", ast.unparse(b))),)]
            return [((ast.unparse(a), sym, vb),)]
        ta, tb = ast.unparse(a), ast.unparse(b)
        if sym in ("in", "not in"):
            if ka and isinstance(va, str):
                return [((tb, "has" if sym == "in" else "lacks", va),)]
            return [((ta + " in " + tb, "true" if sym == "in" else "false", None),)]
        if ta > tb:
            ta, tb = tb, ta
            sym = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(sym, sym)
        return [(("(%s)-(%s)" % (ta, tb), sym, 0),)]


def feasible(lits):
    """Can all literals hold together (numbers are not NaN)?"""
    by = {}
    for e, op, v in lits:
        by.setdefault(e, []).append((op, v))
    for e, cs in by.items():
        ops = {o for o, _ in cs}
        if "true" in ops and "false" in ops:
            return False
        vals = None             # allowed finite set
        ban = set()
        lo, hi, lo_in, hi_in = -math.inf, math.inf, True, True
        numeric = False
        for o, v in cs:
            if o == "==":
                vals = {v} if vals is None else {x for x in vals if same(x, v)}
            elif o == "in" and isinstance(v, frozenset):
                vals = set(v) if vals is None else {
                    x for x in vals if any(same(x, y) for y in v)}
            elif o == "!=":
                ban.add(v)
            elif o == "not in" and isinstance(v, frozenset):
                ban |= set(v)
            elif o in ("<", "<=", ">", ">=") and isinstance(v, (int, float)):
                numeric = True
                if o in ("<", "<="):
                    if v < hi or (v == hi and o == "<"):
                        hi, hi_in = v, o == "<="
                else:
                    if v > lo or (v == lo and o == ">"):
                        lo, lo_in = v, o == ">="
            elif o == "true":
                ban |= {None, False, 0, ""}
            elif o == "false":
                pass
        has = {v for o, v in cs if o == "has"}
        lacks = {v for o, v in cs if o == "lacks"}
        if has & lacks:
            return False
        text = any(isinstance(b, str) for b in ban) or any(
            isinstance(x, str) for x in vals or ())
        if text and any(y in x for x in has for y in lacks):
            return False
        if vals is not None:
            vals = {x for x in vals if not isinstance(x, str) or (
                all(h in x for h in has) and not any(l in x for l in lacks))}
        if "false" in ops and vals is not None:
            vals = {x for x in vals if isinstance(x, tuple) or not x}
        if vals is not None:
            vals = {x for x in vals if not any(same(x, b) for b in ban)}
            if numeric:
                vals = {x for x in vals if not isinstance(x, (int, float))
                        or isinstance(x, bool) or inside(x, lo, lo_in, hi, hi_in)}
                vals = {x for x in vals if isinstance(x, (int, float)) or
                        isinstance(x, tuple)}
            if not vals:
                return False
        elif numeric:
            if lo > hi or (lo == hi and not (lo_in and hi_in)):
                return False
            if lo == hi and any(isinstance(b, (int, float)) and b == lo for b in ban):
                return False
    return True


def inside(x, lo, li, hi, hi_in):
    return (x > lo or (x == lo and li)) and (x < hi or (x == hi and hi_in))


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b or (isinstance(a, tuple) and a and a[0] == "?") or (
            isinstance(b, tuple) and b and b[0] == "?")
    return a == b and (isinstance(a, bool) == isinstance(b, bool) or a == b)


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def bound_names(s):
    """Names a simple statement binds."""
    out = set()
    if isinstance(s, ast.Assign):
        for t in s.targets:
            out |= set(targets(t))
    elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
        if isinstance(s, ast.AugAssign) or s.value is not None:
            out |= set(targets(s.target))
    elif isinstance(s, (ast.For, ast.AsyncFor)):
        out |= set(targets(s.target))
    elif isinstance(s, (ast.With, ast.AsyncWith)):
        for i in s.items:
            if i.optional_vars is not None:
                out |= set(targets(i.optional_vars))
    elif isinstance(s, (ast.Import, ast.ImportFrom)):
        for a in s.names:
            out.add((a.asname or a.name).split(".")[0])
    elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        out.add(s.name)
    for x in walk_own(s):
        if isinstance(x, ast.NamedExpr):
            out |= set(targets(x.target))
    return out


def walk_own(n):
    """Nodes of an expression or statement head, without nested scopes."""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                              ast.ClassDef)):
                continue
            if isinstance(c, ast.stmt) and c is not n:
                continue
            todo.append(c)


def reads(e, v):
    if e is None or isinstance(e, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
        return None
    comp = set()
    for x in walk_own(e):
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in x.generators:
                comp |= set(targets(g.target))
    if v in comp:
        return None
    for x in walk_own(e):
        if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, (ast.Load, ast.Del)):
            return x
    return None


class Definite:
    """Follow the paths on which variable v is unset."""

    def __init__(self, fnode, v, const, noreturn=lambda c: False, plain=False):
        self.f, self.v = fnode, v
        self.plain = plain      # ignore the conditions (cheap over-approximation)
        self.tested = None
        self.L = Lits(const)
        self.const = const
        self.noreturn = noreturn
        self.found = []
        self.count = 0
        self.loops = []
        self.closed = identity_chains(fnode, const)

    def varying(self, loop):
        """Names that differ between the turns of a loop."""
        out = self.assigned(loop.body)
        if isinstance(loop, (ast.For, ast.AsyncFor)):
            out |= set(targets(loop.target))
        return out

    def binds_varying(self, loop):
        """Is v bound in the loop under a condition that changes from turn to turn?"""
        var = self.varying(loop)

        def go(stmts, cond):
            for x in stmts:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                if self.v in bound_names(x) and cond:
                    return True
                c = cond
                if isinstance(x, ast.If) and self.piecewise(x):
                    continue        # a prescription, not a search
                if isinstance(x, (ast.If, ast.While)):
                    c = cond or any(isinstance(n, ast.Name) and n.id in var
                                    for n in ast.walk(x.test))
                elif isinstance(x, (ast.For, ast.AsyncFor, ast.Try)):
                    c = True
                for k in ("body", "orelse", "finalbody"):
                    if go(getattr(x, k, []) or [], c):
                        return True
                for h in getattr(x, "handlers", []) or []:
                    if go(h.body, True):
                        return True
            return False
        return go(loop.body, False)

    def piecewise(self, x):
        """Does every branch of the chain bind v (two or more of them)?"""
        k = 0
        while True:
            if not any(self.v in bound_names(y) for b in x.body for y in ast.walk(b)
                       if isinstance(y, ast.stmt)):
                return False
            k += 1
            if len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If):
                x = x.orelse[0]
                continue
            return k >= 2

    def carried(self, x):
        """Can the value read at x stem from an earlier turn by design: bound in the
        loop, but by nothing that comes before x in the same turn?"""
        for loop, _ in self.loops:
            if not any(self.v in bound_names(y) for b in loop.body
                       for y in ast.walk(b) if isinstance(y, ast.stmt)):
                continue
            if not self.precedes(loop.body, x):
                return True
        return False

    def precedes(self, stmts, x):
        """Is there a binding of v in a statement before the one holding x, in any
        block that encloses x?"""
        for i, s in enumerate(stmts):
            if any(y is x for y in ast.walk(s)):
                if any(self.v in bound_names(y) for b in stmts[:i]
                       for y in ast.walk(b) if isinstance(y, ast.stmt)):
                    return True
                for k in ("body", "orelse", "finalbody"):
                    sub = getattr(s, k, None)
                    if isinstance(sub, list) and self.precedes(sub, x):
                        return True
                for h in getattr(s, "handlers", []) or []:
                    if self.precedes(h.body, x):
                        return True
                return False
        return False

    def run(self):
        outs = self.block(self.f.body, [()])
        self.ends = outs
        return self.found

    def use(self, e, states):
        x = reads(e, self.v)
        if x is not None and states:
            if not self.carried(x):
                for st in states:
                    self.found.append((x, st))
            return []           # reported once
        return states

    def add(self, states, lits_list):
        out = []
        for st in states:
            for l in lits_list:
                new = st + tuple(x for x in l if x not in st)
                if feasible(new):
                    out.append(new)
        out = list(dict.fromkeys(out))
        self.count += len(out)
        if len(out) > LIMIT or self.count > 60000:
            raise Give
        return out

    def test(self, t, states, pos):
        if self.plain:
            k, c = self.const(t)
            return list(states) if not k or bool(c) == pos else []
        ds = self.L.dnf(t, pos)
        keep = self.shared()
        ds = list(dict.fromkeys(tuple(l for l in d if l[0] in keep or not feasible(d))
                                for d in ds))
        return self.add(states, ds)

    def shared(self):
        """Expressions that more than one condition of the function talks about."""
        if self.tested is None:
            seen, names = {}, set()
            for n in ast.walk(self.f):
                if isinstance(n, (ast.If, ast.While, ast.Assert, ast.IfExp)):
                    try:
                        ds = self.L.dnf(n.test, True) + self.L.dnf(n.test, False)
                    except Give:
                        continue
                    for e in {l[0] for d in ds for l in d}:
                        seen[e] = seen.get(e, 0) + 1
                    for d in ds:        # twice in one test
                        es = [l[0] for l in d]
                        for e in es:
                            if es.count(e) > 1:
                                seen[e] = 2
            consts = set()
            for n in ast.walk(self.f):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                        n.targets[0], ast.Name) and self.const(n.value)[0]:
                    consts.add(n.targets[0].id)
            runs = set()
            for n in ast.walk(self.f):
                if isinstance(n, (ast.For, ast.AsyncFor)):
                    runs |= {l[0] for l in nonempty(n.iter, self.const)}
            self.tested = {e for e, k in seen.items() if k > 1 or e in consts
                           or e in runs or e.startswith("len(")}
        return self.tested

    def kill(self, names, states):
        if not names:
            return states
        out = []
        for st in states:
            out.append(tuple(l for l in st if not mentions(l[0], names)))
        return list(dict.fromkeys(out))

    def block(self, stmts, states):
        """-> dict kind -> states ('fall', 'break', 'continue', 'return')"""
        res = {"fall": list(states), "break": [], "continue": [], "return": []}
        for s in stmts:
            if not res["fall"]:
                break
            r = self.stmt(s, res["fall"])
            res["fall"] = r["fall"]
            for k in ("break", "continue", "return"):
                res[k] += r.get(k, [])
        return res

    def stmt(self, s, st):
        v = self.v
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return {"fall": [] if s.name == v else st}
        if isinstance(s, ast.Return):
            st = self.use(s.value, st)
            return {"fall": [], "return": [(x, s) for x in st]}
        if isinstance(s, ast.Raise):
            self.use(s.exc, st)
            return {"fall": []}
        if isinstance(s, ast.Break):
            return {"fall": [], "break": st}
        if isinstance(s, ast.Continue):
            return {"fall": [], "continue": st}
        if isinstance(s, ast.If):
            st = self.use_test(s.test, st)
            if any(isinstance(x, ast.NamedExpr) and v in targets(x.target)
                   for x in walk_own(s.test)):
                return {"fall": []}
            if not st:
                return {"fall": []}
            if not self.relevant(s):
                for x in s.body + s.orelse:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and y.id == v and isinstance(
                                y.ctx, ast.Load):
                            break
                    else:
                        continue
                    break
                else:
                    return {"fall": self.kill(self.assigned(s.body + s.orelse), st)}
            a = self.block(s.body, self.test(s.test, st, True))
            b = self.block(s.orelse, [] if id(s) in self.closed else
                           self.test(s.test, st, False))
            r = {k: a.get(k, []) + b.get(k, []) for k in
                 ("break", "continue", "return")}
            r["fall"] = self.dedup(a.get("fall", []) + b.get("fall", []))
            return r
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.use(s.iter, st)
            # the body is only looked at for a loop that runs
            st = self.add(st, [nonempty(s.iter, self.const)]) if not self.plain else st
            inner = [] if v in set(targets(s.target)) else self.kill(
                set(targets(s.target)), st)
            inner = self.kill(self.assigned(s.body), inner)
            k, c = self.const(s.iter)
            if k and not self.plain and isinstance(s.target, ast.Name) and (
                    isinstance(c, (list, tuple, set, frozenset, dict))):
                try:
                    inner = self.add(inner, [((s.target.id, "in", frozenset(c)),)])
                except TypeError:
                    pass
            self.loops.append((s, self.varying(s)))
            r = self.block(s.body, inner)
            self.loops.pop()
            after = r["fall"] + r["continue"]
            if self.binds_varying(s):
                after, r["break"] = [], []      # some turn of the loop binds it
            if s.orelse:
                e = self.block(s.orelse, after)
                return {"fall": e["fall"] + r["break"], "break": e["break"],
                        "continue": e["continue"], "return": r["return"] + e["return"]}
            return {"fall": self.dedup(after + r["break"]), "return": r["return"]}
        if isinstance(s, ast.While):
            st = self.use_test(s.test, st)
            # a loop whose test cannot be decided is assumed to run at least once
            entry = self.test(s.test, st, True)
            skip = [] if entry else self.test(s.test, st, False)
            self.loops.append((s, self.varying(s)))
            r = self.block(s.body, self.kill(self.assigned(s.body), entry) or entry)
            self.loops.pop()
            after = r["fall"] + r["continue"]
            if self.binds_varying(s):
                after, r["break"] = [], []
            fall = skip + r["break"]
            if not (isinstance(s.test, ast.Constant) and s.test.value):
                fall += after
            return {"fall": self.dedup(fall), "return": r["return"]}
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.use(i.context_expr, st)
            if v in bound_names(s):
                return {"fall": []}
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            r = self.block(s.body, st)
            if s.orelse:
                e = self.block(s.orelse, r["fall"])
                r = {"fall": e["fall"], **{k: r[k] + e[k] for k in
                                           ("break", "continue", "return")}}
            # paths through a handler are not followed (an error was already reported),
            # except that what the handler itself reads must be bound before the try
            r = {k: self.dedup(x) for k, x in r.items()}
            if s.finalbody:
                fin = self.block(s.finalbody, r["fall"])
                r["fall"] = fin["fall"]
                for k in ("break", "continue", "return"):
                    r[k] += fin[k]
            return r
        if isinstance(s, ast.Assert):
            st = self.use_test(s.test, st)
            return {"fall": self.test(s.test, st, True)}
        if isinstance(s, ast.Match):
            st = self.use(s.subject, st)
            out = {"fall": list(st), "break": [], "continue": [], "return": []}
            for c in s.cases:
                r = self.block(c.body, st)
                for k in out:
                    out[k] = out[k] + r[k]
            return out
        if isinstance(s, ast.Delete):
            return {"fall": st}
        # simple statements
        if isinstance(s, ast.Assign):
            st = self.use(s.value, st)
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    st = self.use(t, st)
            b = bound_names(s)
            if v in b:
                return {"fall": []}
            st = self.kill(b, st)
            st = self.kill_attr(s.targets, st)
            if not self.plain and len(s.targets) == 1 and isinstance(
                    s.targets[0], ast.Name) and s.targets[0].id in self.shared():
                k, c = self.const(s.value)
                if k:
                    try:
                        hash(c)
                        st = [x + ((s.targets[0].id, "==", c),) for x in st]
                    except TypeError:
                        pass
            return {"fall": st}
        if isinstance(s, ast.AugAssign):
            st = self.use(s.value, st)
            if isinstance(s.target, ast.Name) and s.target.id == v:
                for x in st:
                    self.found.append((s.target, x))
                return {"fall": []}
            st = self.use(s.target, st)
            return {"fall": self.kill(bound_names(s), st)}
        if isinstance(s, ast.AnnAssign):
            st = self.use(s.value, st)
            b = bound_names(s)
            return {"fall": [] if v in b else self.kill(b, st)}
        if isinstance(s, ast.Expr):
            st = self.use(s.value, st)
            if isinstance(s.value, ast.Call) and (self.exits(s.value) or
                                                  self.noreturn(s.value)):
                return {"fall": []}
            if v in bound_names(s):
                return {"fall": []}
            return {"fall": st}
        if v in bound_names(s):
            return {"fall": []}
        return {"fall": st}

    def relevant(self, s):
        """Does the if statement decide anything about later paths?"""
        for x in s.body + s.orelse:
            for y in ast.walk(x):
                if isinstance(y, (ast.Return, ast.Raise, ast.Break, ast.Continue,
                                  ast.Assert)):
                    return True
                if isinstance(y, ast.stmt) and self.v in bound_names(y):
                    return True
                if not self.plain and isinstance(y, ast.Assign) and len(
                        y.targets) == 1 and isinstance(y.targets[0], ast.Name) and (
                        y.targets[0].id in self.shared()) and self.const(y.value)[0]:
                    return True
                if isinstance(y, ast.Call) and (self.exits(y) or self.noreturn(y)):
                    return True
        return False

    def exits(self, c):
        fn = c.func
        n = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", "")
        if n in ("exit", "_exit", "quit", "abort") and (
                isinstance(fn, ast.Name) or isinstance(fn.value, ast.Name) and
                fn.value.id in ("sys", "os")):
            return True
        return n == "error" and isinstance(fn, ast.Attribute) and isinstance(
            fn.value, ast.Name) and "pars" in fn.value.id

    def use_test(self, t, st):
        """Uses inside a test, honouring short-circuit evaluation."""
        if reads(t, self.v) is None:
            return st
        if isinstance(t, ast.BoolOp) and not self.plain:
            cur = st
            for x in t.values:
                if reads(x, self.v) is not None and cur:
                    n = len(self.found)
                    self.use_test(x, cur)
                    if len(self.found) > n:
                        return []
                cur = self.test(x, cur, isinstance(t.op, ast.And))
            return st
        if isinstance(t, ast.UnaryOp):
            return self.use_test(t.operand, st)
        return self.use(t, st)

    def dedup(self, xs):
        xs = list(dict.fromkeys(xs))
        if len(xs) > 8 and not isinstance(xs[0][:1] and xs[0][0], ast.AST):
            xs = self.resolve(xs)
        return xs

    def resolve(self, xs):
        """Merge path conditions that differ in one complementary literal."""
        try:
            cur = {frozenset(x) for x in xs}
        except TypeError:
            return xs
        changed = True
        while changed:
            changed = False
            for x in list(cur):
                if x not in cur:
                    continue
                for l in x:
                    if l[1] not in INVS:
                        continue
                    y = (x - {l}) | {(l[0], INVS[l[1]], l[2])}
                    if y in cur:
                        cur.discard(x)
                        cur.discard(y)
                        cur.add(x - {l})
                        changed = True
                        break
            for x in list(cur):     # subsumption
                if any(y < x for y in cur):
                    cur.discard(x)
        return [tuple(sorted(x, key=repr)) for x in sorted(
            cur, key=lambda q: sorted(map(repr, q)))]

    def assigned(self, stmts):
        out = set()
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.stmt):
                    out |= bound_names(x)
        out.discard(self.v)
        return out

    def kill_attr(self, ts, st):
        names = set()
        for t in ts:
            for x in ast.walk(t):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(
                        x.ctx, ast.Store):
                    names.add(ast.unparse(x))
        if not names:
            return st
        return self.dedup([tuple(l for l in s if not any(n in l[0] for n in names))
                           for s in st])

    def before_bind(self, body, st):
        """States in which an exception can leave the body with v unset."""
        out = list(st) if body else []
        return self.kill(self.assigned(body), out) or out


def identity_chains(fnode, const):
    """ids of the last `elif x == b` of chains of identity tests between objects."""
    def objects(t):
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.ops[0], (ast.Eq, ast.Is)):
            xs = [t.left, t.comparators[0]]
            if all(isinstance(x, (ast.Name, ast.Attribute)) and not const(x)[0]
                   for x in xs):
                return {ast.unparse(x) for x in xs}
        return None
    out = set()
    for n in ast.walk(fnode):
        if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(
                n.orelse[0], ast.If) and not n.orelse[0].orelse:
            a, b = objects(n.test), objects(n.orelse[0].test)
            if a and b and a & b:
                out.add(id(n.orelse[0]))
    return out


def nonempty(it, const):
    """Literals that hold when a loop over `it` runs at all."""
    if isinstance(it, ast.Name):
        return (("len(%s)" % it.id, ">", 0),)
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords:
        n, a = it.func.id, it.args
        if n in ("enumerate", "reversed", "sorted", "list", "tuple") and a:
            return nonempty(a[0], const)
        if n == "range" and 1 <= len(a) <= 3:
            step = 1
            if len(a) == 3:
                k, step = const(a[2])
                if not k or not isinstance(step, (int, float)) or step == 0:
                    return ()
            lo = ast.Constant(0) if len(a) == 1 else a[0]
            hi = a[0] if len(a) == 1 else a[1]
            if step < 0:
                lo, hi = hi, lo
            a, b = linear(lo, const), linear(hi, const)     # lo < hi
            if a is None or b is None:
                return ()
            if a[0] is None and b[0] is not None:
                return ((b[0], ">", a[1] - b[1]),)
            if b[0] is None and a[0] is not None:
                return ((a[0], "<", b[1] - a[1]),)
    return ()


def linear(e, const):
    """(text or None, offset) of `x + c`."""
    k, c = const(e)
    if k:
        return (None, c) if isinstance(c, (int, float)) else None
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        k, c = const(e.right)
        if k and isinstance(c, (int, float)):
            r = linear(e.left, const)
            return r and (r[0], r[1] + (c if isinstance(e.op, ast.Add) else -c))
    if isinstance(e, ast.Name) or isinstance(e, ast.Call):
        return ast.unparse(e), 0
    return None


def mentions(text, names):
    try:
        t = ast.parse(text, mode="eval")
    except SyntaxError:
        return any(n in text for n in names)
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(t))


def locals_of(fnode):
    a = fnode.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        params.add(a.vararg.arg)
    if a.kwarg:
        params.add(a.kwarg.arg)
    decl, out = set(), set()

    def go(stmts):
        for s in stmts:
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                decl.update(s.names)
                continue
            out.update(bound_names(s))
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for k in ("body", "orelse", "finalbody"):
                go(getattr(s, k, []) or [])
            for h in getattr(s, "handlers", []) or []:
                if h.name:
                    out.add(h.name)
                go(h.body)
            for c in getattr(s, "cases", []) or []:
                go(c.body)
    go(fnode.body)
    return out - params - decl


def describe(lits):
    out = []
    for e, op, v in lits:
        if op in ("has", "lacks"):
            out.append("%r %sin %s" % (v, "" if op == "has" else "not ", e))
        elif op in ("true", "false"):
            out.append(("" if op == "true" else "not ") + e)
        else:
            vv = sorted(map(str, v)) if isinstance(v, frozenset) else v
            out.append("%s %s %r" % (e, op, vv))
    return " and ".join(out) or "always"
