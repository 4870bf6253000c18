"""Constant propagation over module-level tables (literal folding only).

Folds literals, list/dict/set/tuple displays, concatenations, copies, updates,
comprehensions and loops over literal tables.  Anything that is not a compile
time constant becomes UNKNOWN and poisons what is built from it.
"""
import ast
import copy as _copy

from .repo import Cls, Func, Module


class _Unknown:
    def __repr__(self):
        return "UNKNOWN"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


UNKNOWN = _Unknown()


class Unknown(Exception):
    pass


class Ref:
    """A reference to a function/class/module/external symbol (never called)."""

    def __init__(self, target):
        self.target = target

    def __repr__(self):
        t = self.target
        return "Ref(%r)" % (t,)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.target == self.target

    def __hash__(self):
        return hash(("ref", str(self.target)))

    def __deepcopy__(self, memo):
        return self


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


SAFE_BUILTINS = {"list": list, "dict": dict, "set": set, "tuple": tuple,
                 "len": len, "range": range, "sorted": sorted, "str": str,
                 "int": int, "float": float, "zip": zip, "enumerate": enumerate,
                 "min": min, "max": max, "sum": sum, "abs": abs, "bool": bool,
                 "reversed": reversed, "frozenset": frozenset, "any": any,
                 "all": all, "round": round}
SAFE_METHODS = {
    dict: {"keys", "values", "items", "get", "copy", "update", "pop",
           "setdefault"},
    list: {"append", "extend", "copy", "index", "count", "insert", "remove",
           "pop", "sort", "reverse"},
    set: {"add", "union", "update", "intersection", "difference", "copy",
          "discard", "issubset"},
    frozenset: {"union", "intersection", "difference"},
    str: {"format", "join", "split", "replace", "startswith", "endswith",
          "strip", "lower", "upper", "lstrip", "rstrip", "title"},
    tuple: {"index", "count"},
}
MAX_ITER = 400000


class ConstEval:
    def __init__(self, repo):
        self.repo = repo
        self.mod_env = {}
        self._busy = set()
        self._class_envs = {}
        self.steps = 0

    # ------------------------------------------------------------- module env
    def module_env(self, mod):
        if mod.name in self.mod_env:
            return self.mod_env[mod.name]
        env = {}
        self.mod_env[mod.name] = env
        self._exec_block(mod.tree.body, env, mod, top=True)
        return env

    def get(self, mod, name):
        if isinstance(mod, str):
            mod = self.repo.module(mod)
        env = self.module_env(mod)
        if name in env:
            return env[name]
        r = self.repo.resolve(mod, name)
        if isinstance(r, tuple) and r[0] == "var" and r[1] is not mod:
            return self.get(r[1], r[2])
        return UNKNOWN

    def class_attr(self, cls, name):
        for c in self.repo.mro(cls):
            if name in c.assigns:
                env = self._class_envs.get(c.key)
                if env is None:
                    env = self._class_envs[c.key] = dict(self.module_env(c.mod))
                    try:
                        self._exec_block([s for s in c.node.body if not isinstance(
                            s, (ast.FunctionDef, ast.ClassDef,
                                ast.AsyncFunctionDef))], env, c.mod)
                    except Unknown:
                        env.clear()
                return env.get(name, UNKNOWN)
        return UNKNOWN

    # -------------------------------------------------------------- statements
    def _exec_block(self, body, env, mod, top=False):
        for st in body:
            self.steps += 1
            if self.steps > 5 * MAX_ITER:
                raise Unknown("budget")
            self._exec(st, env, mod, top)

    def _exec(self, st, env, mod, top):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import,
                           ast.ImportFrom, ast.Pass, ast.AsyncFunctionDef)):
            return
        if isinstance(st, ast.Assign):
            v = self.safe(st.value, env, mod)
            for t in st.targets:
                self._bind(t, v, env, mod)
            return
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self._bind(st.target, self.safe(st.value, env, mod), env, mod)
            return
        if isinstance(st, ast.AugAssign):
            cur = self.safe(_as_load(st.target), env, mod)
            v = self.safe(st.value, env, mod)
            if cur is UNKNOWN or v is UNKNOWN:
                self._bind(st.target, UNKNOWN, env, mod)
                return
            if isinstance(st.op, ast.Add) and isinstance(cur, list):
                cur.extend(v)
                return
            try:
                self._bind(st.target, _binop(st.op, cur, v), env, mod)
            except Unknown:
                self._bind(st.target, UNKNOWN, env, mod)
            return
        if isinstance(st, ast.Expr):
            try:
                self.eval(st.value, env, mod)
            except Unknown:
                self._poison(st, env)
            return
        if isinstance(st, ast.For):
            try:
                it = self.eval(st.iter, env, mod)
                it = list(it)
            except (Unknown, TypeError):
                self._poison(st, env)
                return
            try:
                for x in it:
                    self._bind(st.target, x, env, mod)
                    try:
                        self._exec_block(st.body, env, mod, top)
                    except _Continue:
                        continue
                else:
                    self._exec_block(st.orelse, env, mod, top)
            except _Break:
                pass
            return
        if isinstance(st, ast.If):
            try:
                c = self.eval(st.test, env, mod)
            except Unknown:
                self._poison(st, env)
                return
            self._exec_block(st.body if c else st.orelse, env, mod, top)
            return
        if isinstance(st, ast.Return):
            raise _Ret(None if st.value is None else self.safe(st.value, env, mod))
        if isinstance(st, ast.Break):
            raise _Break()
        if isinstance(st, ast.Continue):
            raise _Continue()
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    try:
                        o = self.eval(t.value, env, mod)
                        k = self.eval(t.slice, env, mod)
                        del o[k]
                    except (Unknown, KeyError, TypeError, IndexError):
                        self._poison(st, env)
            return
        if isinstance(st, ast.Try):
            self._exec_block(st.body, env, mod, top)
            self._exec_block(st.orelse, env, mod, top)
            self._exec_block(st.finalbody, env, mod, top)
            return
        if isinstance(st, (ast.Assert, ast.Global)):
            return
        self._poison(st, env)

    def _poison(self, st, env):
        """Unknown effect: whatever it may write becomes unknown."""
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                env[n.id] = UNKNOWN
            elif isinstance(n, (ast.Subscript, ast.Attribute)) \
                    and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    env[b.id] = UNKNOWN
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in ("append", "extend", "update", "add",
                                        "pop", "remove", "insert", "clear",
                                        "setdefault"):
                env[n.func.value.id] = UNKNOWN

    def _bind(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v is UNKNOWN:
                for e in t.elts:
                    self._bind(e, UNKNOWN, env, mod)
                return
            try:
                vals = list(v)
            except TypeError:
                vals = [UNKNOWN] * len(t.elts)
            if len(vals) != len(t.elts):
                vals = [UNKNOWN] * len(t.elts)
            for e, x in zip(t.elts, vals):
                self._bind(e, x, env, mod)
        elif isinstance(t, ast.Subscript):
            try:
                o = self.eval(t.value, env, mod)
                k = self.eval(t.slice, env, mod)
                o[k] = v
            except (Unknown, TypeError, IndexError):
                b = t.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    env[b.id] = UNKNOWN

    # ------------------------------------------------------------- expressions
    def safe(self, node, env, mod):
        try:
            return self.eval(node, env, mod)
        except Unknown:
            return UNKNOWN

    def eval(self, n, env, mod):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unknown(type(n).__name__)
        v = m(n, env, mod)
        if v is UNKNOWN:
            raise Unknown("unknown value")
        return v

    def e_Constant(self, n, env, mod):
        return n.value

    def e_Name(self, n, env, mod):
        if n.id in env:
            return env[n.id]
        if n.id in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n.id]
        r = self.repo.resolve(mod, n.id)
        if isinstance(r, tuple) and r[0] == "var":
            if r[1] is mod:
                menv = self.module_env(mod)
                if n.id in menv and menv is not env:
                    return menv[n.id]
                raise Unknown(n.id)
            return self.get(r[1], r[2])
        if r is not None:
            return Ref(r)
        if n.id in SAFE_BUILTINS:
            return Ref(("builtin", n.id))
        raise Unknown(n.id)

    def e_Attribute(self, n, env, mod):
        b = self.eval(n.value, env, mod)
        if isinstance(b, Ref):
            if isinstance(b.target, Module):
                r = self.repo.resolve_attr(b.target, n.attr)
                if isinstance(r, tuple) and r[0] == "var":
                    return self.get(r[1], r[2])
                if r is not None:
                    return Ref(r)
            if isinstance(b.target, tuple) and b.target[0] == "ext":
                d = b.target[1] + "." + n.attr
                if d in ("numpy.inf", "math.inf"):
                    return float("inf")
                if d in ("numpy.pi", "math.pi"):
                    import math
                    return math.pi
                return Ref(("ext", d))
            if isinstance(b.target, Cls):
                v = self.class_attr(b.target, n.attr)
                if v is not UNKNOWN:
                    return v
        raise Unknown("attr " + n.attr)

    def e_List(self, n, env, mod):
        return self._seq(n.elts, env, mod)

    def _seq(self, elts, env, mod):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.eval(e.value, env, mod))
            else:
                out.append(self.safe(e, env, mod))
        return out

    def e_Tuple(self, n, env, mod):
        return tuple(self._seq(n.elts, env, mod))

    def e_Set(self, n, env, mod):
        try:
            return set(self._seq(n.elts, env, mod))
        except TypeError:
            raise Unknown("set")

    def e_Dict(self, n, env, mod):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.eval(v, env, mod))
            else:
                try:
                    d[self.eval(k, env, mod)] = self.safe(v, env, mod)
                except TypeError:
                    raise Unknown("key")
        return d

    def e_BinOp(self, n, env, mod):
        return _binop(n.op, self.eval(n.left, env, mod),
                      self.eval(n.right, env, mod))

    def e_UnaryOp(self, n, env, mod):
        v = self.eval(n.operand, env, mod)
        try:
            if isinstance(n.op, ast.USub):
                return -v
            if isinstance(n.op, ast.UAdd):
                return +v
            if isinstance(n.op, ast.Not):
                return not v
            if isinstance(n.op, ast.Invert):
                return ~v
        except TypeError:
            raise Unknown("unary")

    def e_BoolOp(self, n, env, mod):
        v = None
        for e in n.values:
            v = self.eval(e, env, mod)
            if isinstance(n.op, ast.And) and not v:
                return v
            if isinstance(n.op, ast.Or) and v:
                return v
        return v

    def e_Compare(self, n, env, mod):
        left = self.eval(n.left, env, mod)
        for op, c in zip(n.ops, n.comparators):
            r = self.eval(c, env, mod)
            if isinstance(left, Ref) or isinstance(r, Ref):
                if isinstance(op, (ast.Is, ast.Eq)):
                    ok = left == r
                elif isinstance(op, (ast.IsNot, ast.NotEq)):
                    ok = left != r
                else:
                    raise Unknown("cmp ref")
            else:
                try:
                    ok = {ast.Eq: lambda a, b: a == b,
                          ast.NotEq: lambda a, b: a != b,
                          ast.Lt: lambda a, b: a < b,
                          ast.LtE: lambda a, b: a <= b,
                          ast.Gt: lambda a, b: a > b,
                          ast.GtE: lambda a, b: a >= b,
                          ast.In: lambda a, b: a in b,
                          ast.NotIn: lambda a, b: a not in b,
                          ast.Is: lambda a, b: a is b,
                          ast.IsNot: lambda a, b: a is not b}[type(op)](left, r)
                except TypeError:
                    raise Unknown("cmp")
            if not ok:
                return False
            left = r
        return True

    def e_IfExp(self, n, env, mod):
        return self.eval(n.body if self.eval(n.test, env, mod) else n.orelse,
                         env, mod)

    def e_Subscript(self, n, env, mod):
        o = self.eval(n.value, env, mod)
        if isinstance(o, Ref):
            raise Unknown("subscript ref")
        if isinstance(n.slice, ast.Slice):
            def g(x):
                return None if x is None else self.eval(x, env, mod)
            try:
                return o[slice(g(n.slice.lower), g(n.slice.upper),
                               g(n.slice.step))]
            except TypeError:
                raise Unknown("slice")
        k = self.eval(n.slice, env, mod)
        try:
            return o[k]
        except (KeyError, IndexError, TypeError):
            raise Unknown("subscript")

    def e_JoinedStr(self, n, env, mod):
        out = ""
        for p in n.values:
            if isinstance(p, ast.Constant):
                out += str(p.value)
            else:
                v = self.eval(p.value, env, mod)
                if isinstance(v, Ref):
                    raise Unknown("fstr")
                if p.format_spec is not None or p.conversion not in (-1, 115):
                    raise Unknown("fstr fmt")
                out += str(v)
        return out

    def _comp(self, gens, env, mod, emit):
        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            for x in list(self.eval(g.iter, e, mod)):
                self.steps += 1
                if self.steps > 5 * MAX_ITER:
                    raise Unknown("budget")
                e2 = dict(e)
                self._bind(g.target, x, e2, mod)
                if all(self.eval(c, e2, mod) for c in g.ifs):
                    rec(i + 1, e2)
        try:
            rec(0, dict(env))
        except TypeError:
            raise Unknown("comp")

    def e_ListComp(self, n, env, mod):
        out = []
        self._comp(n.generators, env, mod,
                   lambda e: out.append(self.safe(n.elt, e, mod)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, env, mod):
        return set(self.e_ListComp(n, env, mod))

    def e_DictComp(self, n, env, mod):
        d = {}

        def emit(e):
            d[self.eval(n.key, e, mod)] = self.safe(n.value, e, mod)
        self._comp(n.generators, env, mod, emit)
        return d

    def e_Lambda(self, n, env, mod):
        return Ref(("lambda", mod.rel, n.lineno))

    def e_Call(self, n, env, mod):
        args = []
        if isinstance(n.func, ast.Attribute):
            # method on a folded value
            try:
                base = self.eval(n.func.value, env, mod)
            except Unknown:
                raise
            if not isinstance(base, Ref):
                for t, names in SAFE_METHODS.items():
                    if type(base) is t and n.func.attr in names:
                        args = self._args(n, env, mod)
                        kw = {k.arg: self.eval(k.value, env, mod)
                              for k in n.keywords if k.arg}
                        try:
                            return getattr(base, n.func.attr)(*args, **kw)
                        except Exception as e:
                            raise Unknown("method %s" % e)
                raise Unknown("method")
        f = self.eval(n.func, env, mod)
        if isinstance(f, Ref):
            t = f.target
            args = self._args(n, env, mod)
            kw = {}
            for k in n.keywords:
                if k.arg is None:
                    kw.update(self.eval(k.value, env, mod))
                else:
                    kw[k.arg] = self.eval(k.value, env, mod)
            if isinstance(t, tuple) and t[0] == "builtin":
                try:
                    v = SAFE_BUILTINS[t[1]](*args, **kw)
                    if t[1] in ("zip", "enumerate", "reversed", "range"):
                        v = list(v)
                    return v
                except Exception as e:
                    raise Unknown("builtin %s" % e)
            if isinstance(t, tuple) and t[0] == "ext":
                if t[1] == "copy.deepcopy":
                    return _copy.deepcopy(args[0])
                if t[1] == "copy.copy":
                    return _copy.copy(args[0])
                if t[1] in ("itertools.product",):
                    import itertools
                    return list(itertools.product(*args, **kw))
                if t[1] in ("itertools.chain",):
                    return [x for a in args for x in a]
                if t[1] == "numpy.log10":
                    import math
                    try:
                        return math.log10(args[0])
                    except Exception:
                        raise Unknown("log10")
                if t[1] in ("numpy.sqrt", "math.sqrt"):
                    try:
                        return args[0] ** 0.5
                    except Exception:
                        raise Unknown("sqrt")
                if t[1] in ("numpy.array", "numpy.asarray") and isinstance(args[0], list):
                    return args[0]
                if t[1] == "os.path.join" and all(isinstance(a, str) for a in args):
                    return "/".join(args)
            if isinstance(t, Func):
                return self.call(t, args, kw)
        raise Unknown("call")

    def _args(self, n, env, mod):
        out = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                out.extend(self.eval(a.value, env, mod))
            else:
                out.append(self.eval(a, env, mod))
        return out

    def call(self, f, args, kw):
        if f.key in self._busy:
            raise Unknown("recursion")
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        for nm, v in zip(names, args):
            env[nm] = v
        if len(args) > len(names):
            raise Unknown("too many args")
        for k, v in kw.items():
            if k not in names and k not in [x.arg for x in a.kwonlyargs]:
                raise Unknown("kw")
            env[k] = v
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)
                 if d is not None]
        for nm, d in defs:
            if nm not in env:
                env[nm] = self.eval(d, {}, f.mod)
        for nm in names:
            if nm not in env:
                raise Unknown("missing arg")
        self._busy.add(f.key)
        try:
            try:
                self._exec_block(f.node.body, env, f.mod)
            except _Ret as r:
                if r.v is UNKNOWN:
                    raise Unknown("return")
                return r.v
            return None
        finally:
            self._busy.discard(f.key)


def _as_load(t):
    t = _copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def _binop(op, a, b):
    if isinstance(a, Ref) or isinstance(b, Ref):
        raise Unknown("binop ref")
    try:
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                ast.Pow: lambda: a ** b, ast.BitOr: lambda: a | b,
                ast.BitAnd: lambda: a & b, ast.BitXor: lambda: a ^ b,
                ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b,
                }[type(op)]()
    except Exception as e:
        raise Unknown("binop %s" % e)
