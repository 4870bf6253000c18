"""Typestate along control-flow paths, including exceptional ones.

`Paths(client).function(f)` follows every path through a function and returns the
set of (exit kind, exception class, state) triples, where a state is a frozenset of
facts.  Exits: 'fall', 'return', 'raise', 'break', 'continue'.  Loops are iterated
to a fixpoint on the (finite) set of states.  try/except/else/finally, with blocks
(including generator-based context managers of the package) and helpers of the
package are followed; branch conditions are not interpreted unless the client
narrows the state.

Client protocol:
  call(node, state, f)      -> iterable of states after the call
  assign(stmt, state, f)    -> iterable of states after a simple statement
  raises(node, state, f)    -> states in which the call may raise (default: none)
  enter(callee, node, f)    -> Func to follow into, or None
  branch(test, val, state, f) -> state or None (infeasible)
"""
import ast

BROAD = {"Exception", "BaseException"}
ANY = "any"                 # an exception of unknown class


class Client:
    def call(self, n, st, f):
        return [st]

    def assign(self, s, st, f):
        return [st]

    def raises(self, n, st, f):
        return []

    def enter(self, callee, n, f):
        return None

    def branch(self, test, val, st, f):
        return st

    def caught(self, st, cls, f):
        """State at the start of a handler."""
        return st


class Paths:
    def __init__(self, repo, client, depth=4):
        self.repo, self.c, self.depth = repo, client, depth
        self.visited = 0

    # ---- entry
    def function(self, f, states=(frozenset(),)):
        self.stack = [f]
        return self.block(f.node.body, set(states), f)

    def body(self, stmts, states, f):
        self.stack = [f]
        return self.block(stmts, set(states), f)

    # ---- helpers
    def calls(self, node):
        """Calls in evaluation order (arguments first)."""
        out = []

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                              ast.ClassDef)):
                return
            for x in ast.iter_child_nodes(n):
                walk(x)
            if isinstance(n, ast.Call):
                out.append(n)
        if node is not None:
            walk(node)
        return out

    def expr(self, node, states, f, ex):
        """Effects of an expression; appends ('raise', cls, state) to ex."""
        for n in self.calls(node):
            new = set()
            for st in states:
                self.visited += 1
                g = self.target(n, f)
                h = self.c.enter(g, n, f) if g is not None else None
                if h is not None and h not in self.stack and \
                        len(self.stack) <= self.depth:
                    self.stack.append(h)
                    outs = self.block(h.node.body, {st}, h)
                    self.stack.pop()
                    for k, cls, s2 in outs:
                        if k == "raise":
                            ex.add((k, cls, s2))
                        else:
                            new.add(s2)
                    continue
                for r in self.c.raises(n, st, f):
                    ex.add(("raise", ANY, r))
                new.update(self.c.call(n, st, f))
            states = new
        return states

    def target(self, n, f):
        fn = n.func
        from .repo import Func, Module, Cls
        if isinstance(fn, ast.Name):
            r = self.repo.resolve(f.mod, fn.id)
            return r if isinstance(r, Func) else None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            if fn.value.id in ("self", "cls") and f.cls is not None:
                return self.repo.find_method(f.cls, fn.attr)
            r = self.repo.resolve(f.mod, fn.value.id)
            if isinstance(r, Module):
                q = self.repo.resolve(r, fn.attr)
                return q if isinstance(q, Func) else None
            if isinstance(r, Cls):
                return self.repo.find_method(r, fn.attr)
        return None

    # ---- statements
    def block(self, stmts, states, f):
        exits = set()
        cur = set(states)
        for s in stmts:
            if not cur:
                break
            nxt = set()
            for e in self.stmt(s, cur, f):
                if e[0] == "fall":
                    nxt.add(e[2])
                else:
                    exits.add(e)
            cur = nxt
        return exits | {("fall", None, st) for st in cur}

    def stmt(self, s, states, f):
        ex = set()

        def fall(sts):
            return ex | {("fall", None, x) for x in sts}
        if isinstance(s, ast.Return):
            states = self.expr(s.value, states, f, ex)
            states = self.simple(s, states, f)
            return ex | {("return", None, x) for x in states}
        if isinstance(s, ast.Raise):
            states = self.expr(s.exc, states, f, ex)
            cls = self.excname(s.exc)
            if s.exc is None:
                cls = "reraise"
            return ex | {("raise", cls, x) for x in states}
        if isinstance(s, ast.Break):
            return {("break", None, x) for x in states}
        if isinstance(s, ast.Continue):
            return {("continue", None, x) for x in states}
        if isinstance(s, ast.If):
            states = self.expr(s.test, states, f, ex)
            a = {y for y in (self.c.branch(s.test, True, x, f) for x in states)
                 if y is not None}
            b = {y for y in (self.c.branch(s.test, False, x, f) for x in states)
                 if y is not None}
            return ex | self.block(s.body, a, f) | self.block(s.orelse, b, f)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if not isinstance(s, ast.While):
                states = self.expr(s.iter, states, f, ex)
            seen = set()
            work = set(states)
            done = set()
            infinite = isinstance(s, ast.While) and isinstance(
                s.test, ast.Constant) and bool(s.test.value)
            out = set()
            for _ in range(40):
                work -= seen
                if not work:
                    break
                seen |= work
                w = work
                if isinstance(s, ast.While):
                    w = self.expr(s.test, w, f, ex)
                    w2 = {y for y in (self.c.branch(s.test, True, x, f) for x in w)
                          if y is not None}
                    if not infinite:
                        done |= {y for y in (self.c.branch(s.test, False, x, f)
                                             for x in w) if y is not None}
                    w = w2
                else:
                    done |= w
                    w = self.simple(s, w, f)
                nxt = set()
                for e in self.block(s.body, w, f):
                    if e[0] in ("fall", "continue"):
                        nxt.add(e[2])
                    elif e[0] == "break":
                        out.add(e[2])
                    else:
                        ex.add(e)
                work = nxt
            r = self.block(s.orelse, done, f) if s.orelse else {
                ("fall", None, x) for x in done}
            return ex | r | {("fall", None, x) for x in out}
        if isinstance(s, (ast.With, ast.AsyncWith)):
            if len(s.items) == 1:
                g = self.ctxmanager(s.items[0].context_expr, f)
                if g is not None:
                    return self.block(splice(g.node.body, s.body), states, f)
            for i in s.items:
                states = self.expr(i.context_expr, states, f, ex)
            states = self.simple(s, states, f)
            outs = self.block(s.body, states, f)
            res = set()
            for k, cls, st in outs:
                for y in self.leave(s, st, f):
                    res.add((k, cls, y))
            return ex | res
        if isinstance(s, ast.Try):
            return self.try_(s, states, f)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return fall(states)
        if isinstance(s, ast.Assert):
            return fall(self.expr(s.test, states, f, ex))
        # simple statement
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                states = self.expr(x, states, f, ex)
        return fall(self.simple(s, states, f))

    def simple(self, s, states, f):
        out = set()
        for st in states:
            out.update(self.c.assign(s, st, f))
        return out

    def leave(self, s, st, f):
        m = getattr(self.c, "leave", None)
        return m(s, st, f) if m else [st]

    def ctxmanager(self, e, f):
        if isinstance(e, ast.Call):
            g = self.target(e, f)
            if g is not None and "contextmanager" in " ".join(g.decorators()):
                return g
        return None

    def excname(self, e):
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            return e.attr
        return ANY

    def handler_classes(self, h):
        if h.type is None:
            return {"BaseException"}
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return {self.excname(t) for t in ts}

    def matches(self, h, cls, f):
        """'yes', 'maybe' or 'no'."""
        hs = self.handler_classes(h)
        if hs & BROAD:
            return "yes"
        if cls == ANY or cls == "reraise":
            return "maybe"
        up = self.supers(cls, f)
        if hs & up:
            return "yes"
        return "no"

    def supers(self, name, f):
        import builtins
        out = {name}
        c = self.repo.resolve(f.mod, name)
        from .repo import Cls
        if isinstance(c, Cls):
            for k in self.repo.mro(c):
                out.add(k.name)
                for b in k.node.bases:
                    out |= self.supers(self.excname(b), k_func(k)) \
                        if not isinstance(self.repo.resolve(k.mod, self.excname(b)), Cls) \
                        else set()
            return out
        b = getattr(builtins, name, None)
        if isinstance(b, type):
            out |= {k.__name__ for k in b.__mro__}
        return out

    def try_(self, s, states, f):
        outs = self.block(s.body, states, f)
        res = set()
        falls = {e[2] for e in outs if e[0] == "fall"}
        rest = {e for e in outs if e[0] not in ("fall", "raise")}
        raised = {e for e in outs if e[0] == "raise"}
        if s.orelse:
            rest |= self.block(s.orelse, falls, f)
        else:
            rest |= {("fall", None, x) for x in falls}
        for e in raised:
            live = True
            for h in s.handlers:
                m = self.matches(h, e[1], f)
                if m == "no":
                    continue
                st = self.c.caught(e[2], e[1], f)
                for o in self.block(h.body, {st}, f):
                    if o[0] == "raise" and o[1] == "reraise":
                        o = ("raise", e[1], o[2])
                    rest.add(o)
                if m == "yes":
                    live = False
                    break
            if live:
                rest.add(e)
        if not s.finalbody:
            return rest
        for k, cls, st in rest:
            for o in self.block(s.finalbody, {st}, f):
                res.add((k, cls, o[2]) if o[0] == "fall" else o)
        return res


class k_func:
    def __init__(self, k):
        self.mod, self.cls = k.mod, k


def splice(body, inner):
    """A generator-based context manager with the with-body in place of yield."""
    out = []
    for s in body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            out.extend(inner)
        elif isinstance(s, ast.Try):
            out.append(ast.copy_location(ast.Try(
                body=splice(s.body, inner), handlers=s.handlers, orelse=s.orelse,
                finalbody=s.finalbody), s))
        elif isinstance(s, ast.With):
            out.append(ast.copy_location(ast.With(
                items=s.items, body=splice(s.body, inner)), s))
        else:
            out.append(s)
    return out
