"""Who may modify what: interprocedural alias and mutation analysis.

Flow-sensitive inside a function, summary-based across functions.  A value is a
pair (outer, inner) of origin sets: the objects it may be, and the objects that
may be found inside it.  Origins:
  ('P', name)          the object bound to a parameter
  ('M', module, name)  the object bound to a module-level name
  ('C', class, name)   the object bound to a class attribute
  ('F', class, name)   what a constructor parameter of the class was bound to
  ('A', class, name)   whatever an attribute of the class holds
with a trailing '*' level for things reachable inside.  An in-place operation on
a value with a non-empty outer set modifies those objects.
"""
import ast

from .consts import UNKNOWN
from .repo import Cls, Func, Module

MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear",
            "update", "setdefault", "sort", "reverse", "add", "discard", "fill",
            "resize", "put", "itemset", "partition", "__setitem__", "__delitem__",
            "appendleft", "popleft", "intersection_update", "difference_update",
            "symmetric_difference_update", "setfield", "byteswap", "setflags"}
VIEWS = {"asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d",
         "ravel", "reshape", "squeeze", "transpose", "expand_dims", "swapaxes",
         "broadcast_to", "moveaxis", "nan_to_num_"}
VIEWMETH = {"ravel", "reshape", "squeeze", "transpose", "view", "swapaxes",
            "to_numpy", "__getitem__"}
VIEWATTR = {"T", "values", "flat", "loc", "iloc", "at", "iat", "real", "imag"}
SHALLOW = {"dict", "list", "tuple", "set", "sorted", "frozenset", "OrderedDict",
           "reversed"}
ITERS = {"enumerate", "zip", "iter", "reversed", "filter", "map"}
EMPTY = (frozenset(), frozenset())
METHNEED = {"append": "list", "extend": "list", "insert": "list", "sort": "list",
            "reverse": "list", "remove": "list", "update": "dict", "setdefault": "dict",
            "popitem": "dict", "add": "set", "discard": "set", "fill": "array"}


def keyneed(k):
    """Kind of container an item store with this key needs."""
    if isinstance(k, (ast.JoinedStr,)) or (isinstance(k, ast.Constant) and
                                           isinstance(k.value, str)):
        return "dict"
    if isinstance(k, (ast.Slice, ast.Compare)):
        return "list"
    return "any"


def star(o):
    return o if o[-1] == "*" else o + ("*",)


def stars(s):
    return frozenset(star(o) for o in s)


def inner(v):
    return v[1] | stars(v[0])


def join(a, b):
    return (a[0] | b[0], a[1] | b[1])


class Summary:
    def __init__(self):
        self.mut = {}           # origin -> (line, how, path)
        self.ret = EMPTY
        self.rets = []          # element-wise returned values of tuple returns
        self.elts = None        # the same, joined by position (False: not a tuple)
        self.stores = {}        # attribute -> value (self attributes)


class Alias:
    def __init__(self, repo, consts, scope=None):
        self.repo, self.consts = repo, consts
        self.sums = {}
        self.fields = {}        # (cls key, attr) -> value
        self.assigned = set()   # ... of attributes bound by an assignment
        self.funcs = [f for f in repo.functions()
                      if "tests" not in f.mod.rel and (scope is None or scope(f))]
        self.byname = {}
        for f in self.funcs:
            self.byname.setdefault(f.name, []).append(f)
        self.iterations = 0
        self.instances = 0

    # ---- driver
    def solve(self, rounds=6):
        for r in range(rounds):
            self.iterations = r + 1
            changed = False
            for f in self.funcs:
                if f.parent is not None:
                    continue
                s = self.analyse(f)
                o = self.sums.get(f.key)
                if o is None or set(o.mut) != set(s.mut) or o.ret != s.ret:
                    changed = True
                self.sums[f.key] = s
            if not changed:
                break
        return self

    def analyse(self, f):
        S = Summary()
        env = {}
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            env[p.arg] = (frozenset([("P", p.arg)]), frozenset())
        if a.vararg:
            env[a.vararg.arg] = (frozenset(), frozenset([("P", a.vararg.arg, "*")]))
        if a.kwarg:
            # a fresh dictionary, holding the caller's objects
            env[a.kwarg.arg] = (frozenset(), frozenset([("P", a.kwarg.arg, "*")]))
        selfname = None
        ps = a.posonlyargs + a.args
        if f.cls is not None and ps and "staticmethod" not in f.decorators():
            selfname = ps[0].arg
            if "classmethod" in f.decorators():
                env[selfname] = (frozenset([("K", f.cls.key)]), frozenset())
        fr = {"f": f, "S": S, "self": selfname, "globals": set(), "vararg":
              a.vararg.arg if a.vararg else None,
              "kwarg": a.kwarg.arg if a.kwarg else None, "elts": {}}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Global):
                fr["globals"] |= set(x.names)
        self.block(f.node.body, env, fr)
        return S

    def mutate(self, v, n, how, fr, via=(), need="any"):
        self.instances += 1
        for o in v[0]:
            if o[0] == "K":
                continue
            if (o, need) not in fr["S"].mut:
                fr["S"].mut[(o, need)] = (n.lineno, how, via)

    # ---- statements
    def block(self, body, env, fr):
        for s in body:
            if self.stmt(s, env, fr):
                return True
        return False

    def merge(self, env, alts):
        keys = set()
        for a in alts:
            keys |= set(a)
        env.clear()
        for k in keys:
            v = EMPTY
            for a in alts:
                v = join(v, a.get(k, EMPTY))
            env[k] = v

    def stmt(self, s, env, fr):
        if isinstance(s, ast.Return):
            v = self.ex(s.value, env, fr) if s.value is not None else EMPTY
            if isinstance(s.value, ast.Tuple):
                vs = [self.ex(x, env, fr) for x in s.value.elts]
                fr["S"].rets.append((s.lineno, vs))
                o = fr["S"].elts
                if o is None:
                    fr["S"].elts = vs
                elif o is not False and len(o) == len(vs):
                    fr["S"].elts = [join(a, b) for a, b in zip(o, vs)]
                else:
                    fr["S"].elts = False
            elif s.value is not None:
                fr["S"].elts = False
            fr["S"].ret = join(fr["S"].ret, v)
            return True
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.Assign):
            v = self.ex(s.value, env, fr)
            for t in s.targets:
                self.assign(t, v, s.value, env, fr)
            return False
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.ex(s.value, env, fr), s.value, env, fr)
            return False
        if isinstance(s, ast.AugAssign):
            v = self.ex(s.value, env, fr)
            t = s.target
            if isinstance(t, ast.Name):
                cur = self.ex(t, env, fr)
                if self.inplace(t, cur, s, env, fr):
                    self.mutate(cur, s, "augmented assignment to " + t.id, fr)
                    env[t.id] = (cur[0], cur[1] | inner(v))
                else:
                    env[t.id] = (frozenset(), cur[1] | v[1])
            elif isinstance(t, ast.Subscript):
                self.mutate(self.ex(t.value, env, fr), s, "item assignment", fr,
                            need=keyneed(t.slice))
            elif isinstance(t, ast.Attribute):
                b = self.ex(t.value, env, fr)
                self.setattr_(b, t, s, fr)
            return False
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ex(t.value, env, fr), s, "item deletion", fr)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
            return False
        if isinstance(s, ast.If):
            self.ex(s.test, env, fr)
            a, b = dict(env), dict(env)
            self.narrow(s.test, True, a)
            self.narrow(s.test, False, b)
            da, db = self.block(s.body, a, fr), self.block(s.orelse, b, fr)
            alts = ([] if da else [a]) + ([] if db else [b])
            if not alts:
                return True
            self.merge(env, alts)
            return False
        if isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.ex(s.iter, env, fr)
            for _ in range(2):
                a = dict(env)
                self.bind_iter(s.target, s.iter, v, a, fr)
                self.block(s.body, a, fr)
                self.merge(env, [dict(env), a])
            self.block(s.orelse, env, fr)
            return False
        if isinstance(s, ast.While):
            for _ in range(2):
                self.ex(s.test, env, fr)
                a = dict(env)
                self.block(s.body, a, fr)
                self.merge(env, [dict(env), a])
            return False
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ex(i.context_expr, env, fr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None, env, fr)
            return self.block(s.body, env, fr)
        if isinstance(s, ast.Try):
            pre = dict(env)
            dead = self.block(s.body, env, fr)
            if not dead:
                dead = self.block(s.orelse, env, fr)
            alts = [] if dead else [dict(env)]
            for h in s.handlers:
                e = {}
                self.merge(e, [pre, dict(env)])
                if not self.block(h.body, e, fr):
                    alts.append(e)
            if alts:
                self.merge(env, alts)
            return self.block(s.finalbody, env, fr) or not alts
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            e = dict(env)
            for p in s.args.posonlyargs + s.args.args + s.args.kwonlyargs:
                e[p.arg] = EMPTY
            S2 = Summary()
            f2 = dict(fr, S=S2)
            self.block(s.body, e, f2)
            for k, v in S2.mut.items():
                fr["S"].mut.setdefault(k, v)
            env[s.name] = EMPTY
            return False
        if isinstance(s, ast.Expr):
            self.ex(s.value, env, fr)
            return False
        return False

    def narrow(self, t, val, env):
        """`x is None` true: x is nothing to alias."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(t.operand, not val, env)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and val:
            for x in t.values:
                self.narrow(x, val, env)
            return
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                isinstance(t.left, ast.Name) and \
                isinstance(t.comparators[0], ast.Constant) and \
                t.comparators[0].value is None:
            if isinstance(t.ops[0], (ast.Is, ast.Eq)) == val:
                env[t.left.id] = EMPTY
        # isinstance(x, scalar) -> immutable
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and \
                t.func.id == "isinstance" and len(t.args) == 2 and \
                isinstance(t.args[0], ast.Name) and val:
            ty = t.args[1]
            tys = ty.elts if isinstance(ty, ast.Tuple) else [ty]
            names = [x.id if isinstance(x, ast.Name) else getattr(x, "attr", "?")
                     for x in tys]
            if all(x in ("int", "float", "str", "bool", "tuple", "bytes", "complex",
                         "floating", "integer", "number", "Number") for x in names):
                env[t.args[0].id] = EMPTY

    def bind_iter(self, target, it, v, env, fr):
        i = inner(v)
        el = (i, i)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
                it.func.id in ("range", "len"):
            el = EMPTY
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
                it.func.id == "enumerate" and isinstance(target, ast.Tuple) and \
                len(target.elts) == 2 and it.args:
            b = inner(self.ex(it.args[0], env, fr))
            self.assign(target.elts[0], EMPTY, None, env, fr)
            self.assign(target.elts[1], (b, b), None, env, fr)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
                it.func.id == "zip" and isinstance(target, ast.Tuple) and \
                len(target.elts) == len(it.args):
            for t, x in zip(target.elts, it.args):
                b = inner(self.ex(x, env, fr))
                self.assign(t, (b, b), None, env, fr)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and \
                it.func.attr == "keys":
            el = EMPTY
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and \
                it.func.attr in ("items", "iteritems", "iterrows") and \
                isinstance(target, ast.Tuple) and len(target.elts) == 2:
            self.assign(target.elts[0], EMPTY, None, env, fr)
            if it.func.attr == "iterrows":
                el = EMPTY
            self.assign(target.elts[1], el, None, env, fr)
            return
        self.assign(target, el, None, env, fr)

    def inplace(self, t, cur, s, env, fr):
        """Is `name op= value` an in-place change of a shared object?  Only when the
        object is known to be a mutable container (list, dict, set, array)."""
        if not cur[0]:
            return False
        for o in cur[0]:
            if o[0] == "M" and o[-1] != "*":
                v = self.modvalue(o)
                if isinstance(v, (list, dict, set)):
                    return True
            elif o[0] == "P" and o[-1] != "*" and (self.arraylike(o[1], fr["f"]) or
                                                   self.arraylike(t.id, fr["f"])):
                return True
            elif o[0] == "P" and o[-1] == "*" and (
                    self.tablelike(o[1], fr["f"]) or self.reduced(t.id, fr["f"])):
                return True
            elif o[0] in ("A", "C", "F") and o[-1] != "*" and isinstance(
                    s.value, (ast.List, ast.ListComp)):
                return True
        return False

    def tablelike(self, name, f):
        """Is parameter `name` a table (its elements are columns) in f?"""
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                    x.value.id == name and x.attr in (
                        "dtype", "columns", "iloc", "loc", "index", "to_numpy",
                        "groupby", "values", "iterrows", "itertuples"):
                return True
        return False

    def reduced(self, name, f):
        """Is the variable used as a whole array in f (len, np.any, masks)?"""
        for x in ast.walk(f.node):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and \
                    x.value.id == name:
                return True
            if isinstance(x, ast.Call):
                fn = x.func
                nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", "")
                if nm in ("len", "any", "all", "sum", "mean", "cumsum", "diff", "argmax",
                          "argmin", "concatenate", "interp", "searchsorted",
                          "nanmax", "nanmin", "where", "trapz") and any(
                              isinstance(y, ast.Name) and y.id == name
                              for a in x.args for y in ast.walk(a)):
                    return True
        return False

    def arraylike(self, name, f):
        """Is parameter `name` used as an array or container in f?"""
        for x in ast.walk(f.node):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and \
                    x.value.id == name:
                return True
            if isinstance(x, ast.Call) and any(
                    isinstance(a, ast.Name) and a.id == name for a in x.args):
                fn = x.func
                nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", "")
                if nm in ("len", "enumerate", "sorted", "zip", "concatenate", "ndim",
                          "shape", "cumsum", "diff", "size", "argmax", "argmin",
                          "list", "fromkeys", "set", "tuple", "sort", "unique",
                          "interp", "searchsorted", "digitize", "histogram"):
                    return True
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                    x.value.id == name and x.attr in (
                        "shape", "size", "ndim", "append", "extend", "dtype", "copy",
                        "astype", "values", "columns", "index"):
                return True
            if isinstance(x, (ast.For, ast.comprehension)) and \
                    isinstance(x.iter, ast.Name) and x.iter.id == name:
                return True
        return False

    def arraylike_any(self, name, f):
        """As arraylike, or the parameter's name says so (plural)."""
        return self.arraylike(name, f) or name.endswith("s")

    def modvalue(self, o):
        for m in self.repo.modules.values():
            if m.name == o[1]:
                return self.consts.get(m, o[2])
        return UNKNOWN

    def setattr_(self, b, t, n, fr):
        """x.attr = v : rebinding, shared only for classes and modules."""
        for o in b[0]:
            if o[0] == "K":
                o2 = ("C", o[1], t.attr)
                fr["S"].mut.setdefault((o2, "any"), (n.lineno, "class attribute assignment", ()))
            elif o[0] == "M" and o[-1] != "*":
                fr["S"].mut.setdefault((o, "any"), (n.lineno, "attribute assignment", ()))

    def assign(self, t, v, src, env, fr):
        if isinstance(t, ast.Name):
            if t.id in fr["globals"]:
                o = ("M", fr["f"].mod.name, t.id)
                fr["S"].mut.setdefault((o, "any"), (t.lineno, "rebinding of a module variable",
                                           ()))
                env[t.id] = (frozenset([o]), inner(v))
                return
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) \
                    and not any(isinstance(x, ast.Starred) for x in t.elts):
                vs = [self.ex(x, env, fr) for x in src.elts]
                for a, b, e in zip(t.elts, vs, src.elts):
                    self.assign(a, b, e, env, fr)
            elif len(fr["elts"].get(id(src), ())) == len(t.elts) and \
                    not any(isinstance(x, ast.Starred) for x in t.elts):
                for a, b in zip(t.elts, fr["elts"][id(src)]):
                    self.assign(a, b, None, env, fr)
            else:
                i = inner(v)
                for a in t.elts:
                    self.assign(a, (i, i), None, env, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None, env, fr)
        elif isinstance(t, ast.Subscript):
            b = self.ex(t.value, env, fr)
            self.ex(t.slice, env, fr)
            self.mutate(b, t, "item assignment", fr, need=keyneed(t.slice))
            if not (isinstance(t.slice, ast.Tuple) and any(
                    isinstance(x, ast.Slice) for x in t.slice.elts)):
                self.enrich(t.value, v, env, fr)    # (array stores copy values)
        elif isinstance(t, ast.Attribute):
            b = self.ex(t.value, env, fr)
            self.setattr_(b, t, t, fr)
            if isinstance(t.value, ast.Name) and t.value.id == fr["self"] and \
                    fr["f"].cls is not None:
                env["self." + t.attr] = v
                k = (fr["f"].cls.key, t.attr)
                fr["S"].stores[t.attr] = v
                self.assigned.add(k)
                old = self.fields.get(k, EMPTY)
                self.fields[k] = join(old, self.persist(v, fr))

    def enrich(self, root, v, env, fr):
        """Container now also holds v."""
        add = inner(v) | v[0]
        if not add:
            return
        if isinstance(root, ast.Name) and root.id in env:
            o = env[root.id]
            env[root.id] = (o[0], o[1] | add)
        elif isinstance(root, ast.Attribute) and isinstance(root.value, ast.Name) and \
                root.value.id == fr["self"]:
            k = "self." + root.attr
            o = env.get(k, self.ex(root, env, fr))
            env[k] = (o[0], o[1] | add)
            kk = (fr["f"].cls.key, root.attr)
            self.fields[kk] = join(self.fields.get(kk, EMPTY),
                                   self.persist((frozenset(), add), fr))

    def persist(self, v, fr):
        """Origins as seen by other methods of the class."""
        def conv(s):
            out = set()
            for o in s:
                if o[0] == "P":
                    if o[1] == fr["self"]:
                        continue
                    out.add(("F", fr["f"].cls.key, fr["f"].name + ":" + o[1])
                            + (("*",) if o[-1] == "*" else ()))
                else:
                    out.add(o)
            return frozenset(out)
        return (conv(v[0]), conv(v[1]))

    # ---- expressions
    def modname(self, mod, name):
        v = self.consts.get(mod, name)
        if v is not UNKNOWN and isinstance(v, (int, float, str, bool, type(None), tuple,
                                               frozenset, bytes)):
            return EMPTY
        if v is UNKNOWN:
            # only objects that are visibly mutable containers
            for s in mod.tree.body:
                if isinstance(s, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    if isinstance(s.value, (ast.Dict, ast.List, ast.Set, ast.DictComp,
                                            ast.ListComp, ast.SetComp)) or (
                            isinstance(s.value, ast.Call) and isinstance(
                                s.value.func, (ast.Name, ast.Attribute)) and (
                                s.value.func.id if isinstance(s.value.func, ast.Name)
                                else s.value.func.attr) in (
                                "dict", "list", "set", "copy", "array", "deepcopy",
                                "OrderedDict", "defaultdict", "zeros", "ones",
                                "linspace", "arange", "DataFrame")):
                        return (frozenset([("M", mod.name, name)]), frozenset())
            return EMPTY
        return (frozenset([("M", mod.name, name)]), frozenset())

    def ex(self, n, env, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n, env, fr)
        for x in ast.iter_child_nodes(n) if n is not None else ():
            if isinstance(x, ast.expr):
                self.ex(x, env, fr)
        return EMPTY

    def e_Name(self, n, env, fr):
        if n.id in env:
            return env[n.id]
        r = self.repo.resolve(fr["f"].mod, n.id)
        if isinstance(r, tuple) and r[0] == "var":
            return self.modname(r[1], r[2])
        if isinstance(r, Cls):
            return (frozenset([("K", r.key)]), frozenset())
        return EMPTY

    def e_Attribute(self, n, env, fr):
        f = fr["f"]
        if isinstance(n.value, ast.Name) and n.value.id == fr["self"] and \
                f.cls is not None:
            k = "self." + n.attr
            if k in env:
                return env[k]
            return self.field(f.cls, n.attr)
        if isinstance(n.value, ast.Name) and n.value.id not in env:
            r = self.repo.resolve(f.mod, n.value.id)
            if isinstance(r, Module):
                q = self.repo.resolve(r, n.attr)
                if isinstance(q, tuple) and q[0] == "var":
                    return self.modname(q[1], q[2])
                return EMPTY
            if isinstance(r, Cls):
                return self.field(r, n.attr)
        b = self.ex(n.value, env, fr)
        for o in b[0]:
            if o[0] == "K":
                C = self.clskey(o[1])
                if C is not None:
                    return self.field(C, n.attr)
        if n.attr in VIEWATTR:
            return b
        # an object reachable from what we were given
        return (stars(frozenset(o for o in b[0] if o[0] != "K" and not (
            o[0] in "MC" and o[-1] == "*"))), frozenset())

    def clskey(self, key):
        for m in self.repo.modules.values():
            for c in m.classes.values():
                if c.key == key:
                    return c
        return None

    def field(self, cls, attr):
        out = EMPTY
        own = False
        for k in self.repo.mro(cls):
            v = self.fields.get((k.key, attr))
            if v is not None:
                out = join(out, v)
                own = own or (k.key, attr) in self.assigned
        for k in self.repo.mro(cls):
            if attr in k.assigns:
                a = k.assigns[attr]
                a = a if isinstance(a, ast.expr) else getattr(a, "value", None)
                if not own and (isinstance(a, (ast.Dict, ast.List, ast.Set)) or
                                isinstance(a, ast.Call)):
                    out = join(out, (frozenset([("C", k.key, attr)]), frozenset()))
                elif not own and isinstance(a, ast.Name):
                    r = self.repo.resolve(k.mod, a.id)
                    if isinstance(r, tuple) and r[0] == "var":
                        out = join(out, self.modname(r[1], r[2]))
                break
        return out

    def e_Subscript(self, n, env, fr):
        b = self.ex(n.value, env, fr)
        self.ex(n.slice, env, fr)
        i = inner(b)
        if isinstance(n.slice, ast.Slice) or (isinstance(n.slice, ast.Tuple) and any(
                isinstance(x, ast.Slice) for x in n.slice.elts)):
            return (b[0], b[1])         # a view (arrays) or a shallow copy (lists)
        if isinstance(n.slice, (ast.Compare, ast.BinOp, ast.UnaryOp, ast.List)) and \
                not isinstance(getattr(n.slice, "op", None), ast.USub):
            if isinstance(n.slice, ast.BinOp) and isinstance(
                    n.slice.op, (ast.Add, ast.Sub, ast.Mult, ast.Mod)):
                return (i, i)
            return (frozenset(), b[1])  # boolean mask: a copy
        return (i, i)

    def e_IfExp(self, n, env, fr):
        self.ex(n.test, env, fr)
        return join(self.ex(n.body, env, fr), self.ex(n.orelse, env, fr))

    def e_BoolOp(self, n, env, fr):
        out = EMPTY
        for v in n.values:
            out = join(out, self.ex(v, env, fr))
        return out

    def e_NamedExpr(self, n, env, fr):
        v = self.ex(n.value, env, fr)
        env[n.target.id] = v
        return v

    def e_Starred(self, n, env, fr):
        return self.ex(n.value, env, fr)

    def e_Tuple(self, n, env, fr):
        i = frozenset()
        for x in n.elts:
            v = self.ex(x, env, fr)
            if isinstance(x, ast.Starred):
                i |= inner(v)
            else:
                i |= v[0] | v[1]
        return (frozenset(), i)
    e_List = e_Set = e_Tuple

    def e_Dict(self, n, env, fr):
        i = frozenset()
        for k, x in zip(n.keys, n.values):
            v = self.ex(x, env, fr)
            i |= inner(v) if k is None else v[0] | v[1]
        return (frozenset(), i)

    def e_BinOp(self, n, env, fr):
        a, b = self.ex(n.left, env, fr), self.ex(n.right, env, fr)
        if isinstance(n.op, (ast.Add, ast.BitOr)):
            # possibly a concatenation of containers
            if isinstance(n.left, (ast.List, ast.Call, ast.Name, ast.Attribute,
                                   ast.Subscript)) and \
                    (isinstance(n.right, ast.List) or isinstance(n.left, ast.List)):
                return (frozenset(), inner(a) | inner(b))
        return EMPTY

    def _comp(self, n, env, fr):
        e = dict(env)
        for g in n.generators:
            v = self.ex(g.iter, e, fr)
            self.bind_iter(g.target, g.iter, v, e, fr)
            for i in g.ifs:
                self.ex(i, e, fr)
        if isinstance(n, ast.DictComp):
            self.ex(n.key, e, fr)
            v = self.ex(n.value, e, fr)
        else:
            v = self.ex(n.elt, e, fr)
        return (frozenset(), v[0] | v[1])
    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = _comp

    def e_Lambda(self, n, env, fr):
        e = dict(env)
        for p in n.args.args:
            e[p.arg] = EMPTY
        self.ex(n.body, e, fr)
        return EMPTY

    def e_Call(self, n, env, fr):
        f = n.func
        pos = [self.ex(a, env, fr) for a in n.args]
        kw = {}
        dd = EMPTY
        for k in n.keywords:
            v = self.ex(k.value, env, fr)
            if k.arg is None:
                dd = join(dd, v)
            else:
                kw[k.arg] = v
        if "out" in kw:
            self.mutate(kw["out"], n, "out= argument", fr)
        inpl = any(k.arg == "inplace" and isinstance(k.value, ast.Constant) and
                   k.value.value is True for k in n.keywords)
        name = f.id if isinstance(f, ast.Name) else getattr(f, "attr", None)
        # package callee
        callee = self.callee(f, env, fr)
        if callee is not None:
            return self.apply(n, f, callee, pos, kw, dd, env, fr)
        if isinstance(f, ast.Name) and f.id not in env:
            if name in SHALLOW and pos:
                return (frozenset(), inner(pos[0]))
            if name in ("zip", "enumerate", "iter", "filter", "next", "map"):
                i = frozenset()
                for p in pos:
                    i |= inner(p)
                return (frozenset(), i) if name != "next" else (i, i)
            if name == "getattr" and len(n.args) >= 2:
                if isinstance(n.args[1], ast.Constant) and isinstance(
                        n.args[1].value, str):
                    return self.ex(ast.copy_location(ast.Attribute(
                        n.args[0], n.args[1].value, ast.Load()), n), env, fr)
                v = pos[0]
                return (stars(frozenset(o for o in v[0] if o[0] != "K")), frozenset())
            if name == "setattr" and len(n.args) == 3 and \
                    isinstance(n.args[0], ast.Name) and n.args[0].id == fr["self"] and \
                    fr["f"].cls is not None and isinstance(n.args[1], ast.Constant):
                self.assign(ast.copy_location(ast.Attribute(
                    n.args[0], n.args[1].value, ast.Store()), n), pos[2], None, env, fr)
                return EMPTY
        ext = self.extname(f, env, fr)
        if ext is not None:
            last = ext.split(".")[-1]
            root = ext.split(".")[0]
            if root == "copy":
                return (frozenset(), inner(pos[0])) if last == "copy" and pos else EMPTY
            if root == "numpy":
                if last in VIEWS and pos:
                    return pos[0]
                if last in ("array", "nan_to_num") and pos and any(
                        k.arg == "copy" and isinstance(k.value, ast.Constant)
                        and k.value.value is False for k in n.keywords):
                    return pos[0]
                if last in ("put", "copyto", "fill_diagonal", "place", "putmask") \
                        and pos:
                    self.mutate(pos[0], n, "numpy." + last, fr)
                if last == "shuffle" and pos:
                    self.mutate(pos[0], n, "shuffle", fr)
                if root == "numpy" and last in ("broadcast_arrays",) and pos:
                    i = frozenset()
                    for p in pos:
                        i |= p[0]
                    return (frozenset(), i)
                return EMPTY
            if root == "collections" and pos:
                return (frozenset(), inner(pos[0]))
            return EMPTY
        if isinstance(f, ast.Attribute):
            b = self.ex(f.value, env, fr)
            if name in MUTATORS or inpl:
                if not (name == "remove" and ext):
                    self.mutate(b, n, ".%s()" % name, fr, need=METHNEED.get(name, "any"))
                add = frozenset()
                for p in pos:
                    add |= p[0] | p[1] if name in ("append", "add", "insert",
                                                   "setdefault") else inner(p)
                if add:
                    self.enrich(f.value, (frozenset(), add), env, fr)
                i = inner(b)
                return (i, i) if name in ("pop", "popitem", "setdefault") else EMPTY
            if name == "shuffle" and pos:
                self.mutate(pos[0], n, "shuffle", fr)
                return EMPTY
            if name == "copy":
                return (frozenset(), inner(b) if not any(
                    k.arg == "deep" for k in n.keywords) else frozenset())
            if name == "to_numpy" and any(
                    k.arg == "copy" and isinstance(k.value, ast.Constant)
                    and k.value.value is True for k in n.keywords):
                return (frozenset(), b[1])
            if name in VIEWMETH:
                return b
            if name == "astype" and any(
                    k.arg == "copy" and isinstance(k.value, ast.Constant)
                    and k.value.value is False for k in n.keywords):
                return b
            if name == "get":
                i = inner(b)
                v = (i, i)
                if len(pos) > 1:
                    v = join(v, pos[1])
                return v
            if name in ("items", "values", "keys"):
                return (frozenset(), inner(b))
            return EMPTY
        return EMPTY

    def extname(self, f, env, fr):
        parts = []
        n = f
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if isinstance(n, ast.Name) and n.id not in env:
            r = self.repo.resolve(fr["f"].mod, n.id)
            if isinstance(r, tuple) and r[0] == "ext":
                return ".".join([r[1]] + parts[::-1])
        return None

    def callee(self, f, env, fr):
        me = fr["f"]
        if isinstance(f, ast.Name) and f.id not in env:
            r = self.repo.resolve(me.mod, f.id)
            return r if isinstance(r, (Func, Cls)) else None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name):
                if f.value.id == fr["self"] and me.cls is not None:
                    return self.repo.find_method(me.cls, f.attr)
                if f.value.id not in env:
                    r = self.repo.resolve(me.mod, f.value.id)
                    if isinstance(r, Module):
                        q = self.repo.resolve(r, f.attr)
                        return q if isinstance(q, (Func, Cls)) else None
                    if isinstance(r, Cls):
                        return self.repo.find_method(r, f.attr)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                    and f.value.func.id == "super" and me.cls is not None:
                for k in self.repo.mro(me.cls)[1:]:
                    if f.attr in k.methods:
                        return k.methods[f.attr]
        return None

    def apply(self, n, fnode, callee, pos, kw, dd, env, fr):
        fresh = False
        if isinstance(callee, Cls):
            init = self.repo.find_method(callee, "__init__")
            fresh = True
            if init is None:
                return (frozenset(), frozenset().union(*[p[0] | p[1] for p in pos])
                        if pos else frozenset())
            callee = init
        S = self.sums.get(callee.key)
        if S is None:
            return EMPTY
        a = callee.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        method = callee.cls is not None and "staticmethod" not in callee.decorators()
        b = {}
        off = 0
        if method:
            unbound = isinstance(fnode, ast.Attribute) and isinstance(
                fnode.value, ast.Name) and fnode.value.id not in env and isinstance(
                    self.repo.resolve(fr["f"].mod, fnode.value.id), Cls) and \
                "classmethod" not in callee.decorators()
            off = 0 if unbound else 1
        for nm, v, x in zip(names[off:], pos, n.args):
            if isinstance(x, ast.Starred):
                i = inner(v)
                for nm2 in names[off:]:
                    b.setdefault(nm2, (i, i))
                break
            b[nm] = v
        allp = names + [x.arg for x in a.kwonlyargs]
        extra = inner(dd)
        for k, v in kw.items():
            if k in allp:
                b[k] = v
            else:
                extra |= v[0] | v[1]
        if dd != EMPTY:
            i = inner(dd)
            for nm in allp[off:]:
                b.setdefault(nm, (i, i))
        if a.kwarg:
            b[a.kwarg.arg] = (frozenset(), extra)
        if a.vararg:
            i = frozenset()
            for p in pos[max(len(names) - off, 0):]:
                i |= p[0] | p[1]
            b[a.vararg.arg] = (frozenset(), i)
        dfl = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        for (o, need), (line, how, via) in S.mut.items():
            if o[0] == "P":
                v = b.get(o[1])
                if v is None:
                    continue
                tgt = v[0] if o[-1] != "*" else inner(v)
                if tgt:
                    self.mutate((tgt, frozenset()), n, how, fr,
                                ((callee.key, line),) + tuple(via)[:3], need)
        if fresh:
            return EMPTY
        if S.elts:
            fr["elts"][id(n)] = [(self.subst(x[0], b), self.subst(x[1], b))
                                 for x in S.elts]
        return (self.subst(S.ret[0], b), self.subst(S.ret[1], b))

    def subst(self, s, b):
        out = set()
        for o in s:
            if o[0] == "P":
                v = b.get(o[1])
                if v is not None:
                    out |= v[0] if o[-1] != "*" else inner(v)
            else:
                out.add(o)
        return frozenset(out)
