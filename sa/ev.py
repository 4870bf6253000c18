"""Gated value-numbering of functions (see vn.py).

One structured pass over a function body.  Locals and object attributes map to
value nodes, both arms of a branch are merged with a gate, calls to functions of
the package are inlined (bounded depth), loops over literal tables are unrolled
and other loops are summarised by an opaque loop node over their body's value.
"""
import ast

from . import vn
from .consts import UNKNOWN, ConstEval, Ref
from .repo import Cls, Func, Module
from .vn import (DC, FALSE, NONE, TRUE, UNBOUND, TooComplex, add_, and_, atomcond,
                 c, div_, eq, ite, lt, mk, mkcall, mul_, neg_, not_, or_, pow_,
                 sub_, sym, truth)

PURE_EXT = ("numpy", "math", "scipy", "pandas", "copy")
NUMFN = {"log10", "log", "exp", "sin", "cos", "tan", "arccos", "arcsin", "arctan",
         "abs", "min", "max", "sign", "floor", "ceil", "isnan", "isfinite", "clip",
         "sum", "float", "int", "str", "len", "bool", "arctan2", "round", "log1p",
         "cosh", "sinh", "tanh", "heaviside", "any", "all", "where", "isinf"}
ALIASES = {"fabs": "abs", "absolute": "abs", "minimum": "min", "maximum": "max",
           "amax": "max", "amin": "min", "acos": "arccos", "asin": "arcsin",
           "atan": "arctan", "isna": "isnan", "isnull": "isnan", "nanmax": "max"}
ELEMENTWISE1 = {"sqrt", "cbrt", "square", "log10", "log", "log1p", "exp", "expm1", "isnan",
                "abs", "negative", "reciprocal", "logical_not", "sin", "cos", "tan"}
ELEMENTWISE2 = {"min", "max", "power", "add", "subtract", "multiply", "divide",
                "true_divide", "logical_and", "logical_or"}
# statements whose only effect is diagnostics
DIAG = {"print", "Pwarn", "warn", "info", "debug", "warning", "_say", "tqdm",
        "showwarning", "SetPOSYDONWarnings"}


class Closure:
    def __init__(self, node, env, mod, cls):
        self.node, self.env, self.mod, self.cls = node, env, mod, cls


class State:
    __slots__ = ("env", "heap", "pc", "dead")

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc
        self.dead = False

    def fork(self, cond):
        s = State(dict(self.env), dict(self.heap), and_(self.pc, cond))
        if s.pc is FALSE:
            s.dead = True
        return s


class Frame:
    def __init__(self, fn_key, mod, cls, depth):
        self.key, self.mod, self.cls, self.depth = fn_key, mod, cls, depth
        self.exits = []       # (kind, pc, state, value)
        self.loops = []       # per enclosing loop: list of (kind, state)
        self.nonlocals = set()
        self.node = None


class Evaluator:
    def __init__(self, repo, consts=None, max_depth=5, types=None, noinline=(),
                 inline_pred=None, assume=None, unroll=64):
        self.repo = repo
        self.consts = consts or ConstEval(repo)
        self.max_depth = max_depth
        self._lam = 0
        self.noinline = set(noinline)
        self.inline_pred = inline_pred
        self.types = types or {}
        self.attr_types = {}
        self.effects = []       # (pc, node)
        self._blk_cache = {}
        self.unbound = {}       # (func key, var) -> (pc paths)
        self.track_unbound = False
        self.unroll = unroll
        self.values = {}        # placeholder id -> python object (Closure/Ref/...)
        self._exc = 0
        self._stack = []
        self.unsupported = set()
        self.inlined = set()
        self.opaque_attr = {}   # attr name -> fn(ev, obj) custom
        self.overrides = {}     # func key/name -> callable(ev, args, kw, st)
        self.notes = []
        self.merge_none_exc = True
        self.attr_hook = None   # (object node, attribute) -> value or None
        self.isinst = {}        # node id -> names of the types it has
        self.instantiate = set()    # class keys whose construction is inlined
        self.ninst = 0
        self.arrays = False         # one-element arrays are lists of their element
        self.masks = False          # an array is one of its elements, a mask a condition
        self.no_exc = False         # follow the exception-free path of try blocks

    # ------------------------------------------------------------------ values
    def obj(self, o):
        """Wrap a python-side object (closure, reference) into a node."""
        if isinstance(o, Ref):
            n = mk("ref", str(o.target) if not isinstance(o.target, (Func, Cls, Module))
                   else ("F:" + o.target.key if isinstance(o.target, Func) else
                         "C:" + o.target.key if isinstance(o.target, Cls) else
                         "M:" + o.target.name))
        elif isinstance(o, Closure):
            n = mk("closure", id(o))
        else:
            n = mk("obj", id(o))
        self.values[n.id] = o
        return n

    def const_node(self, v, depth=0):
        if v is UNKNOWN:
            return None
        if isinstance(v, Ref):
            return self.obj(v)
        if isinstance(v, (bool, int, float, str)) or v is None:
            return c(v)
        if isinstance(v, (list, tuple)):
            if len(v) > 400:
                return None
            items = [self.const_node(x, depth + 1) for x in v]
            if any(i is None for i in items):
                return None
            return mk("list" if isinstance(v, list) else "tuple", *items)
        if isinstance(v, dict):
            if len(v) > 400:
                return None
            out = []
            for k, x in v.items():
                kn, xn = self.const_node(k), self.const_node(x)
                if kn is None:
                    return None
                out.append((kn, xn if xn is not None else mk("unk", repr(k))))
            return self.mkdict(out)
        if isinstance(v, (set, frozenset)):
            items = [self.const_node(x) for x in sorted(v, key=repr)]
            if any(i is None for i in items):
                return None
            return mk("set", *items)
        return None

    def mkdict(self, items):
        d = {}
        for k, v in items:
            d[k] = v
        return mk("dict", *sorted(d.items(), key=lambda t: t[0].id))

    # ---------------------------------------------------------------- functions
    def run(self, f, args=None, pc=None, self_node=None, heap=None):
        """Value-number function f with symbolic parameters."""
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        given = args or {}
        for i, nm in enumerate(names):
            if nm in given:
                env[nm] = given[nm]
            elif i == 0 and f.cls is not None and "staticmethod" not in f.decorators():
                env[nm] = self_node or sym("self")
                self.types.setdefault(env[nm].id, f.cls)
            else:
                env[nm] = sym(nm)
        if a.vararg:
            env[a.vararg.arg] = given.get(a.vararg.arg, sym("*" + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = given.get(a.kwarg.arg, sym("**" + a.kwarg.arg))
        st = State(env, dict(heap or {}), pc or TRUE)
        fr = Frame(f.key, f.mod, f.cls, 0)
        return self._run_body(f.node, st, fr)

    def _run_body(self, node, st, fr):
        """-> (value, heap, raise_cond); value merged over all normal exits."""
        fr.node = node
        self._stack.append(fr.key)
        try:
            self.block(node.body, st, fr)
        finally:
            self._stack.pop()
        if not st.dead:
            fr.exits.append(("fall", st.pc, st, NONE))
        rets = [e for e in fr.exits if e[0] in ("ret", "fall")]
        raises = [e for e in fr.exits if e[0] == "raise"]
        raise_pc = FALSE
        for e in raises:
            raise_pc = or_(raise_pc, e[1])
        if not rets:
            return None, None, raise_pc, fr
        val = rets[-1][3]
        heap = dict(rets[-1][2].heap)
        for kind, pc, s, v in reversed(rets[:-1]):
            val = ite(pc, v, val)
            heap = self._merge_heap(pc, s.heap, heap)
        return val, heap, raise_pc, fr

    def _merge_heap(self, cond, h1, h2):
        out = {}
        for k in set(h1) | set(h2):
            a, b = h1.get(k), h2.get(k)
            if a is None:
                a = self._init(k)
            if b is None:
                b = self._init(k)
            out[k] = a if a is b else ite(cond, a, b)
        return out

    def _init(self, k):
        o, attr = k
        if isinstance(attr, str):
            return mk("attr", o, attr)
        return mk("idx", o, attr)

    def _merge_env(self, cond, e1, e2):
        out = {}
        for k in set(e1) | set(e2):
            a, b = e1.get(k, UNBOUND), e2.get(k, UNBOUND)
            out[k] = a if a is b else ite(cond, a, b)
        return out

    def merge_into(self, st, cond, s1, s2):
        """st := cond ? s1 : s2 (in place)."""
        if s1.dead and s2.dead:
            st.dead = True
            return
        if s1.dead or s2.dead:
            s = s2 if s1.dead else s1
            st.env, st.heap, st.pc = s.env, s.heap, s.pc
            return
        st.env = self._merge_env(cond, s1.env, s2.env)
        st.heap = self._merge_heap(cond, s1.heap, s2.heap)
        st.pc = or_(s1.pc, s2.pc)

    # --------------------------------------------------------------- statements
    def block(self, body, st, fr):
        for s in body:
            if st.dead:
                return
            self.stmt(s, st, fr)

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported.add(type(s).__name__)
            return
        m(s, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    def s_ImportFrom(self, s, st, fr):
        """Imports inside a function bind local names."""
        if s.level or not s.module:
            return
        for a in s.names:
            full = s.module + "." + a.name
            if full in self.repo.modules:
                r = self.repo.modules[full]
            elif s.module in self.repo.modules:
                r = self.repo.resolve(self.repo.modules[s.module], a.name)
            else:
                r = ("ext", full)
            if r is None or isinstance(r, tuple) and r[0] == "var":
                continue
            st.env[a.asname or a.name] = self.obj(Ref(r))

    s_Import = s_Pass

    def s_Global(self, s, st, fr):
        for n in s.names:
            fr.nonlocals.add(n)
    s_Nonlocal = s_Global

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            if s.value.value is not None:
                v = self.ex(s.value.value, st, fr)
                self.effect(st, mk("yield", v))
            return
        if isinstance(s.value, ast.Call):
            o = [k for k in s.value.keywords if k.arg == "out"]
            if len(o) == 1 and isinstance(o[0].value, ast.Name) \
                    and isinstance(s.value.func, ast.Attribute):
                # np.f(x, out=name, where=cond): name becomes f(x) where cond
                w = [k.value for k in s.value.keywords if k.arg == "where"]
                cl = ast.Call(func=s.value.func, args=s.value.args, keywords=[
                    k for k in s.value.keywords if k.arg not in ("out", "where")])
                v = self.ex(ast.copy_location(cl, s.value), st, fr)
                old = self.ex(o[0].value, st, fr)
                if w:
                    v = ite(truth(self.ex(w[0], st, fr)), v, old)
                self.bind(ast.copy_location(ast.Name(o[0].value.id, ast.Store()), s.value),
                          v, st, fr)
                return
        v = self.ex(s.value, st, fr, stmt=True)
        if v is not None and v.k not in ("c",) and isinstance(s.value, ast.Call):
            nm = _callname(s.value)
            if nm not in DIAG:
                self.effect(st, v)

    def effect(self, st, node):
        self.effects.append((st.pc, node))

    def s_Assign(self, s, st, fr):
        v = self.ex(s.value, st, fr)
        for t in s.targets:
            self.bind(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.bind(s.target, self.ex(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        t = s.target
        cur = self.ex(_load(t), st, fr)
        v = self.ex(s.value, st, fr)
        self.bind(t, self.binop(s.op, cur, v), st, fr)

    def bind(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                for e in t.elts:
                    self.bind(e.value if isinstance(e, ast.Starred) else e,
                              mk("unpack", v, ast.unparse(e)), st, fr)
                return
            for i, e in enumerate(t.elts):
                self.bind(e, self.item(v, c(i), st, fr), st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ex(t.value, st, fr)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            self.setitem(t, v, st, fr)

    def setattr(self, o, attr, v, st, cond=TRUE):
        if o.k == "ite":
            self.setattr(o.a[1], attr, v, st, and_(cond, atomcond(o.a[0])))
            self.setattr(o.a[2], attr, v, st, and_(cond, not_(atomcond(o.a[0]))))
            return
        if o.k in ("unbound", "dontcare"):
            return
        key = (o, attr)
        if cond is TRUE:
            st.heap[key] = v
        else:
            old = st.heap.get(key) or self._init(key)
            st.heap[key] = ite(cond, v, old)

    def setitem(self, t, v, st, fr):
        base = self.ex(t.value, st, fr)
        if isinstance(t.slice, ast.Slice):
            k = self.slice_node(t.slice, st, fr)
        else:
            k = self.ex(t.slice, st, fr)
        if self.masks and self._boolish(k):
            self.assign_back(t.value, ite(truth(k), v, base), st, fr)
            return
        if self.masks and vn.isnum(k) and (base.k in ("sym", "poly", "call")
                                           or vn.isnum(base)):
            self.assign_back(t.value, v, st, fr)
            return
        new = self._upd(base, k, v)
        if new is None:
            self._store_item(base, k, v, st)
            return
        self.assign_back(t.value, new, st, fr)

    def _upd(self, base, k, v):
        if base.k == "ite":
            ls = vn.leaves(base)
            if len(ls) <= 16 and all(
                    x.k in ("list", "dict", "upd", "dontcare") for x in ls):
                return vn.lift(lambda x: x if x.k == "dontcare" else
                               self._upd(x, k, v), base, limit=16)
            return None
        if base.k == "dict" and k.k == "c":
            items = [(a, b) for a, b in base.a if a is not k] + [(k, v)]
            return self.mkdict(items)
        if base.k == "list" and vn.isnum(k) and isinstance(k.a[0], int) \
                and -len(base.a) <= k.a[0] < len(base.a):
            l = list(base.a)
            l[k.a[0]] = v
            return mk("list", *l)
        if base.k in ("dict", "upd", "call", "list", "rep", "poly", "comp", "loopval",
                      "concat", "undefined"):
            # array or mapping value: element-wise masked update
            return mk("upd", base, k, v)
        return None

    def _store_item(self, base, k, v, st, cond=TRUE):
        if base.k == "ite":
            self._store_item(base.a[1], k, v, st, and_(cond, atomcond(base.a[0])))
            self._store_item(base.a[2], k, v, st,
                             and_(cond, not_(atomcond(base.a[0]))))
            return
        key = (base, k)
        if cond is TRUE:
            st.heap[key] = v
        else:
            old = st.heap.get(key) or self._init(key)
            st.heap[key] = ite(cond, v, old)

    def assign_back(self, target, v, st, fr):
        """Functional update of the location denoted by target."""
        if isinstance(target, ast.Name):
            st.env[target.id] = v
        elif isinstance(target, ast.Attribute):
            self.setattr(self.ex(target.value, st, fr), target.attr, v, st)
        elif isinstance(target, ast.Subscript):
            self.setitem(target, v, st, fr)

    def _alias_update(self, base, v, st):
        """An attribute's object was updated in place: every other location that
        holds the same object sees the update."""
        root = base
        while root.k == "concat":
            root = root.a[0]
        if root.k != "attr":
            return
        if base is root and (root.a[0], root.a[1]) not in st.heap:
            st.heap[(root.a[0], root.a[1])] = v
        for k, x in list(st.heap.items()):
            if x is base:
                st.heap[k] = v
        for k, x in list(st.env.items()):
            if x is base:
                st.env[k] = v

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.effect(st, mk("del", self.ex(t.value, st, fr),
                                   self.ex(t.slice, st, fr)
                                   if not isinstance(t.slice, ast.Slice) else NONE))

    def s_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ex(s.value, st, fr)
        fr.exits.append(("ret", st.pc, State(st.env, st.heap, st.pc), v))
        st.dead = True

    def s_Raise(self, s, st, fr):
        nm = "raise"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = ast.unparse(e)
        fr.exits.append(("raise", st.pc, State(st.env, st.heap, st.pc), c(nm)))
        st.dead = True

    def s_Assert(self, s, st, fr):
        self.ex(s.test, st, fr)

    def s_If(self, s, st, fr):
        t = self.cond(s.test, st, fr)
        pc_t = and_(st.pc, t)
        if t is TRUE or vn.and_(st.pc, not_(t)) is FALSE:
            self.block(s.body, st, fr)
            return
        if t is FALSE or pc_t is FALSE:
            self.block(s.orelse, st, fr)
            return
        s1, s2 = st.fork(t), st.fork(not_(t))
        self.block(s.body, s1, fr)
        self.block(s.orelse, s2, fr)
        for blk in (s.body, s.orelse):
            for nm in self._block_locals(blk, fr):
                s1.env.pop(nm, None)
                s2.env.pop(nm, None)
        self.merge_into(st, t, s1, s2)

    def _block_locals(self, blk, fr):
        """Variables that exist only inside this block: stored before any use in
        it and never mentioned anywhere else in the function."""
        if not blk or fr.node is None:
            return ()
        cache = self._blk_cache
        if id(blk) in cache:
            return cache[id(blk)][1]
        key = id(fr.node)
        tot = cache.get(key)
        if tot is None or tot[0] is not fr.node:
            d = {}
            for x in ast.walk(fr.node):
                if isinstance(x, ast.Name):
                    d[x.id] = d.get(x.id, 0) + 1
            tot = cache[key] = (fr.node, d)
        mine, out = {}, []
        for st in blk:
            for x in ast.walk(st):
                if isinstance(x, ast.Name):
                    mine[x.id] = mine.get(x.id, 0) + 1
        seen = set()
        for st in blk:
            names = [x for x in ast.walk(st) if isinstance(x, ast.Name)]
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(
                    st.targets[0], (ast.Name, ast.Tuple)):
                used = {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)}
                for x in ast.walk(st.targets[0]):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and \
                            x.id not in seen and x.id not in used and \
                            mine[x.id] == tot[1].get(x.id):
                        out.append(x.id)
            seen.update(x.id for x in names)
        cache[id(blk)] = (blk, tuple(out))
        return cache[id(blk)][1]

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ex(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.bind(it.optional_vars, v, st, fr)
        self.block(s.body, st, fr)

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = self.obj(Closure(s, st.env, fr.mod, fr.cls))

    def s_ClassDef(self, s, st, fr):
        st.env[s.name] = mk("localclass", s.name)

    def s_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1].append(("break", State(dict(st.env), dict(st.heap), st.pc)))
        st.dead = True

    def s_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1].append(("continue",
                                 State(dict(st.env), dict(st.heap), st.pc)))
        st.dead = True

    def s_Try(self, s, st, fr):
        self._exc += 1
        k = self._exc
        pre = State(dict(st.env), dict(st.heap), st.pc)
        body = State(dict(st.env), dict(st.heap), st.pc)
        nex = len(fr.exits)
        self.block(s.body, body, fr)
        # raises inside the body are caught when there is a broad handler
        broad = any(h.type is None or ast.unparse(h.type) in
                    ("Exception", "BaseException") for h in s.handlers)
        if broad:
            fr.exits[nex:] = [e for e in fr.exits[nex:] if e[0] != "raise"]
        if not body.dead:
            self.block(s.orelse, body, fr)
        cur = body
        for i, h in enumerate(s.handlers if not self.no_exc else ()):
            atom = mk("exc", *self._exckey(pre, body, k, i))
            cond = atomcond(atom)
            hs = State(self._exc_env(pre.env, body.env, k, i),
                       dict(pre.heap), and_(pre.pc, cond))
            if h.name:
                hs.env[h.name] = sym("exception")
            self.block(h.body, hs, fr)
            out = State({}, {}, st.pc)
            if cur.dead:
                c2 = cur
            else:
                c2 = State(cur.env, cur.heap, and_(cur.pc, not_(cond)))
            self.merge_into(out, cond, hs, c2)
            cur = out
        st.env, st.heap, st.dead = cur.env, cur.heap, cur.dead
        st.pc = cur.pc
        if s.finalbody:
            st_dead = st.dead
            st.dead = False
            self.block(s.finalbody, st, fr)
            st.dead = st.dead or st_dead
    s_TryStar = s_Try

    def _exckey(self, pre, body, k, i):
        """What the body computes identifies the condition of its failure."""
        vals = [v for n, v in body.env.items() if pre.env.get(n) is not v]
        vals += [v for n, v in body.heap.items() if pre.heap.get(n) is not v]
        if not vals:
            return ("%d.%d" % (k, i),)
        return (str(i), tuple(vals[:6]))

    def _exc_env(self, pre, body, k, i):
        out = dict(pre)
        if self.track_unbound:
            for v in body:
                if v not in pre:
                    out[v] = ite(atomcond(mk("exc", "late%d.%s" % (k, v))),
                                 body[v], UNBOUND)
        return out

    # ------------------------------------------------------------------- loops
    def known_iter(self, node, st, fr):
        """List of element nodes when the iterable is a literal table."""
        v = self.ex(node, st, fr)
        return self.elems(v), v

    def elems(self, v):
        if v.k in ("list", "tuple", "set"):
            return list(v.a)
        if v.k == "dict":
            return [k for k, _ in v.a]
        if v.k == "dictitems":
            return [mk("tuple", k, x) for k, x in v.a[0].a]
        if v.k == "c" and isinstance(v.a[0], str):
            return None
        if self.masks and (v.k in ("sym", "poly") or (
                v.k == "call" and v.a[0] in ("min", "max", "log10", "abs"))):
            return [v]          # an array stands for one of its elements
        if v.k == "call" and v.a[0] in ("set", "frozenset") and not v.a[2]:
            # only used as a whole (membership); a single pass over it is unordered
            return [] if not v.a[1] else self.elems(v.a[1][0])
        if v.k == "call" and v.a[0] in ("zip", "enumerate", "range", "reversed",
                                       "sorted", "list", "tuple") and not v.a[2]:
            args = v.a[1]
            if v.a[0] == "range":
                if all(vn.isnum(x) and isinstance(x.a[0], int) for x in args):
                    r = range(*[x.a[0] for x in args])
                    if len(r) <= self.unroll:
                        return [c(i) for i in r]
                return None
            subs = [self.elems(x) for x in args]
            if v.a[0] == "zip":
                if all(x is not None for x in subs):
                    return [mk("tuple", *t) for t in zip(*subs)]
                known = [x for x in subs if x is not None]
                if known:
                    n = min(len(x) for x in known)
                    return [mk("tuple", *[sub[i] if sub is not None else
                                          mk("idx", a, c(i))
                                          for sub, a in zip(subs, args)])
                            for i in range(n)]
                return None
            if subs and subs[0] is not None:
                if v.a[0] == "enumerate":
                    return [mk("tuple", c(i), x) for i, x in enumerate(subs[0])]
                if v.a[0] == "reversed":
                    return subs[0][::-1]
                if v.a[0] == "sorted" and all(x.k == "c" for x in subs[0]):
                    try:
                        return sorted(subs[0], key=lambda n: n.a[0])
                    except TypeError:
                        return None
                if v.a[0] in ("list", "tuple"):
                    return subs[0]
        return None

    def s_For(self, s, st, fr):
        items, itv = self.known_iter(s.iter, st, fr)
        if items is not None and len(items) <= self.unroll:
            exits = []
            for x in items:
                if st.dead:
                    break
                fr.loops.append([])
                self.bind(s.target, x, st, fr)
                self.block(s.body, st, fr)
                marks = fr.loops.pop()
                for kind, ms in marks:
                    if kind == "continue":
                        self._rejoin(st, ms)
                    else:
                        exits.append(ms)
            if not st.dead and s.orelse:
                self.block(s.orelse, st, fr)
            for ms in exits:
                self._rejoin(st, ms)
            return
        self._opaque_loop(s, itv, st, fr)

    def _rejoin(self, st, ms):
        if st.dead:
            st.env, st.heap, st.pc, st.dead = ms.env, ms.heap, ms.pc, False
            return
        tmp = State({}, {}, TRUE)
        self.merge_into(tmp, ms.pc, ms, st)
        st.env, st.heap, st.pc = tmp.env, tmp.heap, tmp.pc

    def s_While(self, s, st, fr):
        self._opaque_loop(s, None, st, fr)

    def _opaque_loop(self, s, itv, st, fr):
        assigned = _assigned(s.body) | (_tgt(s.target) if isinstance(s, ast.For)
                                        else set())
        lid = "L%d" % len(fr.loops)
        pre_env, pre_heap = dict(st.env), dict(st.heap)
        body = State(dict(st.env), dict(st.heap), st.pc)
        for v in assigned:
            body.env[v] = mk("mu", lid, v)
        if isinstance(s, ast.For):
            self.bind(s.target, mk("elem", itv, lid), body, fr)
            tst = TRUE
        else:
            tst = self.cond(s.test, body, fr)
            body.pc = and_(body.pc, tst)
        neff = len(self.effects)
        nex = len(fr.exits)
        fr.loops.append([])
        # attributes written in the body are loop-carried too
        self.block(s.body, body, fr)
        marks = fr.loops.pop()
        for kind, ms in marks:
            self._rejoin(body, ms)
        src = itv if itv is not None else tst
        # exits (return/raise inside loop): condition becomes existential
        for i in range(nex, len(fr.exits)):
            kind, pc, es, v = fr.exits[i]
            rel = _rel(pc, st.pc)
            ex = atomcond(mk("exists", src, rel))
            fr.exits[i] = (kind, and_(st.pc, ex), es, mk("loopval", src, v))
        for i in range(neff, len(self.effects)):
            pc, n = self.effects[i]
            self.effects[i] = (st.pc, mk("foreach", src, _rel(pc, st.pc), n))
        if body.dead:
            st.env, st.heap = pre_env, pre_heap
            if isinstance(s, ast.For) and s.orelse:
                self.block(s.orelse, st, fr)
            return
        bind = []
        for v in sorted(assigned):
            nv = body.env.get(v, UNBOUND)
            if nv is mk("mu", lid, v):
                continue
            init = pre_env.get(v)
            st.env[v] = mk("loop", src, init if init is not None else NONE,
                           _strip(nv), v)
        for kk, nv in body.heap.items():
            if pre_heap.get(kk) is not nv:
                init = pre_heap.get(kk) or self._init(kk)
                st.heap[kk] = mk("loop", src, init, nv, "@")
        if s.orelse:
            self.block(s.orelse, st, fr)

    # -------------------------------------------------------------- expressions
    def cond(self, n, st, fr):
        if isinstance(n, ast.BoolOp):
            r = None
            s = st
            for v in n.values:
                t = self.cond(v, s, fr)
                r = t if r is None else (and_(r, t) if isinstance(n.op, ast.And)
                                         else or_(r, t))
                if self.track_unbound:
                    s = State(st.env, st.heap, and_(
                        st.pc, r if isinstance(n.op, ast.And) else not_(r)))
                    if s.pc is FALSE:
                        break
            return r
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand, st, fr))
        return truth(self.ex(n, st, fr))

    def ex(self, n, st, fr, stmt=False):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.unsupported.add(type(n).__name__)
            return mk("unk", ast.unparse(n))
        if stmt and isinstance(n, ast.Call):
            return self.e_Call(n, st, fr, stmt=True)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        if n.value is Ellipsis:
            return mk("unk", "...")
        if isinstance(n.value, (bytes, complex)):
            return mk("unk", repr(n.value))
        return c(n.value)

    def e_Name(self, n, st, fr):
        if n.id in st.env:
            v = st.env[n.id]
            if v.ub:
                v = self._check_unbound(n, v, st, fr)
            return v
        if self.track_unbound and n.id in getattr(fr, "locals", ()):
            self._report_unbound(n, st, fr, UNBOUND)
        return self.global_name(n.id, fr.mod)

    def _check_unbound(self, n, v, st, fr):
        if self.track_unbound:
            w = vn.under(v, st.pc)
            if w.ub:
                self._report_unbound(n, st, fr, w)
        return _strip(v)

    def _report_unbound(self, n, st, fr, w):
        ps = vn.paths_to(w, lambda x: x.k == "unbound", lim=3)
        if not ps:
            return
        key = (fr.key, n.id)
        if key not in self.unbound:
            self.unbound[key] = (n.lineno, ps)

    def global_name(self, name, mod):
        env = self.consts.module_env(mod)
        if name in env:
            cn = self.const_node(env[name])
            if cn is not None:
                return cn
            return mk("glob", mod.name, name)
        r = self.repo.resolve(mod, name)
        if r is None:
            return mk("glob", "builtins", name)
        if isinstance(r, tuple) and r[0] == "var":
            v = self.consts.get(r[1], r[2])
            cn = self.const_node(v) if v is not UNKNOWN else None
            if cn is not None:
                return cn
            return mk("glob", r[1].name, r[2])
        return self.obj(Ref(r))

    def e_Attribute(self, n, st, fr):
        o = self.ex(n.value, st, fr)
        return self.getattr(o, n.attr, st, fr)

    def getattr(self, o, attr, st, fr=None):
        if o.k == "ite":
            if o.lc <= 32:
                t = atomcond(o.a[0])
                return ite(t, self.getattr(o.a[1], attr, st, fr),
                           self.getattr(o.a[2], attr, st, fr))
            return mk("attr", o, attr)
        if o.k in ("unbound", "dontcare"):
            return o
        v = st.heap.get((o, attr))
        if v is not None:
            return v
        if self.masks and attr == "size" and o.k not in ("list", "tuple"):
            return c(1)
        ref = self.values.get(o.id)
        if isinstance(ref, Ref):
            r = ref.target
            if isinstance(r, Module):
                rr = self.repo.resolve_attr(r, attr)
                if isinstance(rr, tuple) and rr[0] == "var":
                    return self.global_name(rr[2], rr[1])
                if rr is not None:
                    return self.obj(Ref(rr))
            elif isinstance(r, tuple) and r[0] == "ext":
                d = r[1] + "." + attr
                if d in ("numpy.pi", "math.pi"):
                    return c(3.141592653589793)
                if d in ("numpy.inf", "math.inf"):
                    return c(float("inf"))
                if d in ("numpy.nan", "math.nan", "numpy.NaN"):
                    return c(float("nan"))
                return self.obj(Ref(("ext", d)))
            elif isinstance(r, Cls):
                v = self.consts.class_attr(r, attr)
                cn = self.const_node(v) if v is not UNKNOWN else None
                if cn is not None:
                    return cn
                mth = self.repo.find_method(r, attr)
                if mth is not None:
                    return self.obj(Ref(mth))
        cls = self.types.get(o.id)
        if cls is not None:
            v = self.consts.class_attr(cls, attr)
            cn = self.const_node(v) if v is not UNKNOWN else None
            if cn is not None:
                return cn
        if self.attr_hook is not None:
            v = self.attr_hook(o, attr)
            if v is not None:
                return v
        nd = mk("attr", o, attr)
        if attr in self.attr_types and nd.id not in self.types:
            self.types[nd.id] = self.attr_types[attr]
        return nd

    def slice_node(self, n, st, fr):
        def g(x):
            return NONE if x is None else self.ex(x, st, fr)
        return mk("slice", g(n.lower), g(n.upper), g(n.step))

    def e_Slice(self, n, st, fr):
        return self.slice_node(n, st, fr)

    def e_Subscript(self, n, st, fr):
        o = self.ex(n.value, st, fr)
        k = self.ex(n.slice, st, fr)
        return self.item(o, k, st, fr)

    def item(self, o, k, st, fr):
        if self.masks and self._boolish(k) \
                and o.k not in ("list", "tuple", "dict"):
            return o
        if self.masks and k.k == "tuple" and o.k not in ("list", "tuple", "dict") and all(
                self._boolish(x) or x.k == "slice" for x in k.a) \
                and any(self._boolish(x) for x in k.a):
            return o
        if self.masks and vn.isnum(k) and (o.k in ("sym", "poly", "call") or vn.isnum(o)):
            return o
        if o.k == "ite" and o.lc <= 32:
            t = atomcond(o.a[0])
            return ite(t, self.item(o.a[1], k, st, fr),
                       self.item(o.a[2], k, st, fr))
        if k.k == "ite" and k.lc <= 32:
            t = atomcond(k.a[0])
            return ite(t, self.item(o, k.a[1], st, fr),
                       self.item(o, k.a[2], st, fr))
        v = st.heap.get((o, k))
        if v is not None:
            return v
        if o.k in ("list", "tuple"):
            if vn.isnum(k) and isinstance(k.a[0], int):
                i = k.a[0]
                if -len(o.a) <= i < len(o.a):
                    return o.a[i]
            if k.k == "slice" and all(x is NONE or (vn.isnum(x) and
                                                   isinstance(x.a[0], int)) for x in k.a):
                sl = slice(*[None if x is NONE else x.a[0] for x in k.a])
                return mk(o.k, *o.a[sl])
        if o.k == "dict":
            for a, b in o.a:
                if a is k:
                    return b
            if k.k != "c" and o.a and len(o.a) <= 40 and all(a.k == "c" for a, _ in o.a):
                r = mk("keyerror", o, k)
                for a, b in o.a:
                    r = ite(eq(k, a), b, r)
                return r
        if o.k == "rep" and vn.isnum(k):
            one = [x for x in o.a if x.k in ("list", "tuple") and len(x.a) == 1]
            if len(one) == 1:
                return one[0].a[0]
        if o.k == "upd" and o.a[1] is k:
            return o.a[2]
        if o.k == "upd" and _other_column(o.a[1], k):
            return self.item(o.a[0], k, st, fr)
        if o.k == "upd" and (vn.isstr(k) or k is NONE) and vn.isstr(o.a[1]):
            return self.item(o.a[0], k, st, fr)
        if o.k == "c" and isinstance(o.a[0], str) and k.k == "slice" and all(
                x is NONE or (vn.isnum(x) and isinstance(x.a[0], int)) for x in k.a):
            return c(o.a[0][slice(*[None if x is NONE else x.a[0] for x in k.a])])
        if o.k == "c" and isinstance(o.a[0], str) and vn.isnum(k):
            try:
                return c(o.a[0][k.a[0]])
            except Exception:
                pass
        return mk("idx", o, k)

    def e_Tuple(self, n, st, fr):
        return self._seq("tuple", n.elts, st, fr)

    def e_List(self, n, st, fr):
        return self._seq("list", n.elts, st, fr)

    def e_Set(self, n, st, fr):
        return self._seq("set", n.elts, st, fr)

    def _seq(self, kind, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ex(e.value, st, fr)
                el = self.elems(v)
                if el is None:
                    out.append(mk("star", v))
                else:
                    out.extend(el)
            else:
                out.append(self.ex(e, st, fr))
        return mk(kind, *out)

    def e_Dict(self, n, st, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ex(v, st, fr)
                if d.k == "dict":
                    items.extend(d.a)
                else:
                    items.append((mk("starstar", d), d))
            else:
                items.append((self.ex(k, st, fr), self.ex(v, st, fr)))
        return self.mkdict(items)

    def e_BinOp(self, n, st, fr):
        return self.binop(n.op, self.ex(n.left, st, fr), self.ex(n.right, st, fr))

    def binop(self, op, a, b):
        if self.arrays and type(op) in (ast.Sub, ast.Mult, ast.Div, ast.Pow, ast.Add):
            if a.k == "list" and b.k == "list" and len(a.a) == len(b.a):
                return mk("list", *[self.binop(op, x, y) for x, y in zip(a.a, b.a)])
            if a.k == "list" and b.k not in ("list", "tuple", "ite"):
                return mk("list", *[self.binop(op, x, b) for x in a.a])
            if b.k == "list" and a.k not in ("list", "tuple", "ite"):
                return mk("list", *[self.binop(op, a, x) for x in b.a])
        if isinstance(op, ast.Add):
            return add_(a, b)
        if isinstance(op, ast.Sub) and not (a.k == "set" and b.k == "set"):
            return sub_(a, b)
        if isinstance(op, ast.Mult):
            return mul_(a, b)
        if isinstance(op, ast.Div):
            return div_(a, b)
        if isinstance(op, ast.Pow):
            return pow_(a, b)
        if isinstance(op, ast.Mod) and (vn.isstr(a) or a.k == "fstr"):
            xs = b.a if b.k == "tuple" else (b,)
            if vn.isstr(a) and all(vn.isstr(x) or vn.isnum(x) for x in xs):
                try:
                    return c(a.a[0] % tuple(int(x.a[0]) if vn.isnum(x) and
                                            x.a[0] == int(x.a[0]) else x.a[0]
                                            for x in xs))
                except Exception:
                    pass
            return mk("fmt%", a, b)
        if a.k == "set" and b.k == "set" and type(op).__name__ in SETBIN and \
                all(x.k == "c" for x in a.a + b.a):
            return SETOPS[SETBIN[type(op).__name__]](list(a.a), list(b.a))
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            # element-wise boolean algebra on comparison masks
            if self._boolish(a) and self._boolish(b):
                x, y = truth(a), truth(b)
                return and_(x, y) if isinstance(op, ast.BitAnd) else or_(x, y)
            x, y = sorted((a, b), key=lambda z: z.id)
            return mk("bit" + type(op).__name__, x, y)
        return mk("bin" + type(op).__name__, a, b)

    def _boolish(self, n):
        if n.k == "ite":
            return all(x is TRUE or x is FALSE for x in vn.leaves(n))
        return n in (TRUE, FALSE) or n.k in ("lt", "eq", "isnone")

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand, st, fr))
        v = self.ex(n.operand, st, fr)
        if isinstance(n.op, ast.USub):
            if self.arrays and v.k == "list":
                return mk("list", *[neg_(x) for x in v.a])
            return neg_(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if self._boolish(v):
                return not_(truth(v))
            return mk("invert", v)

    def e_BoolOp(self, n, st, fr):
        vals = []
        s = st
        acc = None
        for v in n.values:
            x = self.ex(v, s, fr)
            vals.append(x)
            t = truth(x)
            acc = t if acc is None else (and_(acc, t) if isinstance(n.op, ast.And)
                                         else or_(acc, t))
            if self.track_unbound:
                s = State(st.env, st.heap, and_(
                    st.pc, acc if isinstance(n.op, ast.And) else not_(acc)))
        if all(self._boolish(v) for v in vals):
            return acc
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = ite(truth(v), r, v) if isinstance(n.op, ast.And) \
                else ite(truth(v), v, r)
        return r

    def e_Compare(self, n, st, fr):
        left = self.ex(n.left, st, fr)
        r = TRUE
        for op, cm in zip(n.ops, n.comparators):
            right = self.ex(cm, st, fr)
            r = and_(r, self.compare(op, left, right))
            left = right
        return r

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.Is)):
            return eq(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return not_(eq(a, b))
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.LtE):
            return vn.le(a, b)
        if isinstance(op, ast.GtE):
            return vn.le(b, a)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else not_(r)
        return truth(mk("cmp" + type(op).__name__, a, b))

    def contains(self, a, b):
        if b.k == "ite" and b.lc <= 16:
            t = atomcond(b.a[0])
            return ite(t, self.contains(a, b.a[1]), self.contains(a, b.a[2]))
        if b.k == "call" and b.a[0] in (".keys",) and b.a[1]:
            return self.contains(a, b.a[1][0])
        el = self.elems(b)
        if el is not None and a.k == "c" and all(x.k == "c" for x in el):
            return TRUE if any(x is a for x in el) else FALSE if not any(
                eq(a, x) is not FALSE for x in el) else TRUE
        if el is not None and len(el) <= 120:
            r = FALSE
            for x in el:
                r = or_(r, eq(a, x))
            return r
        if vn.isstr(a) and vn.isstr(b):
            return TRUE if a.a[0] in b.a[0] else FALSE
        if b.k == "upd" and (vn.isstr(a) or a is NONE) and vn.isstr(b.a[1]):
            return TRUE if a is b.a[1] else self.contains(a, b.a[0])
        return atomcond(mk("truth", mk("in", a, b)))

    def e_IfExp(self, n, st, fr):
        t = self.cond(n.test, st, fr)
        s1 = State(st.env, st.heap, and_(st.pc, t))
        s2 = State(st.env, st.heap, and_(st.pc, not_(t)))
        if t is TRUE:
            return self.ex(n.body, st, fr)
        if t is FALSE:
            return self.ex(n.orelse, st, fr)
        return ite(t, self.ex(n.body, s1, fr), self.ex(n.orelse, s2, fr))

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(c(str(p.value)))
            else:
                v = self.ex(p.value, st, fr)
                if vn.isstr(v) and p.format_spec is None:
                    parts.append(v)
                elif vn.isnum(v) and p.format_spec is None:
                    parts.append(c(str(v.a[0])))
                else:
                    parts.append(v)
        return vn.lift(lambda *x: vn.fstr(list(x)), *parts) if parts else c("")

    def e_FormattedValue(self, n, st, fr):
        return self.ex(n.value, st, fr)

    def e_Lambda(self, n, st, fr):
        fd = ast.FunctionDef(name="<lambda>", args=n.args,
                             body=[ast.copy_location(ast.Return(value=n.body), n)],
                             decorator_list=[], returns=None, type_comment=None,
                             lineno=n.lineno, col_offset=0)
        return self.obj(Closure(fd, st.env, fr.mod, fr.cls))

    def e_Starred(self, n, st, fr):
        return mk("star", self.ex(n.value, st, fr))

    def e_NamedExpr(self, n, st, fr):
        v = self.ex(n.value, st, fr)
        self.bind(n.target, v, st, fr)
        return v

    def _comp(self, n, st, fr, kind):
        s = State(dict(st.env), st.heap, st.pc)
        gens = n.generators

        def rec(i, s):
            if i == len(gens):
                if kind == "dict":
                    return [(TRUE, (self.ex(n.key, s, fr), self.ex(n.value, s, fr)))]
                return [(TRUE, self.ex(n.elt, s, fr))]
            g = gens[i]
            items = self.elems(self.ex(g.iter, s, fr))
            if items is None or len(items) > self.unroll * 4:
                return None
            out = []
            for x in items:
                s2 = State(dict(s.env), s.heap, s.pc)
                self.bind(g.target, x, s2, fr)
                cnd = TRUE
                for cc in g.ifs:
                    cnd = and_(cnd, self.cond(cc, s2, fr))
                if cnd is FALSE:
                    continue
                sub = rec(i + 1, s2)
                if sub is None:
                    return None
                if cnd is not TRUE:
                    return None
                out.extend(sub)
            return out
        r = rec(0, s)
        if r is not None:
            if kind == "dict":
                return self.mkdict([x for _, x in r])
            return mk("list" if kind != "set" else "set", *[x for _, x in r])
        # opaque comprehension over bound element variables
        s = State(dict(st.env), st.heap, st.pc)
        srcs, cnds = [], []
        for i, g in enumerate(gens):
            itv = self.ex(g.iter, s, fr)
            srcs.append(itv)
            self.bind(g.target, mk("bound", i), s, fr)
            for cc in g.ifs:
                t = self.cond(cc, s, fr)
                cnds.append(t)
                s = State(s.env, s.heap, and_(s.pc, t))
        if kind == "dict":
            body = mk("tuple", self.ex(n.key, s, fr), self.ex(n.value, s, fr))
        else:
            body = self.ex(n.elt, s, fr)
        return mk("comp", kind if kind != "gen" else "list", body, tuple(srcs),
                  tuple(cnds))

    def e_ListComp(self, n, st, fr):
        return self._comp(n, st, fr, "list")

    def e_GeneratorExp(self, n, st, fr):
        return self._comp(n, st, fr, "gen")

    def e_SetComp(self, n, st, fr):
        return self._comp(n, st, fr, "set")

    def e_DictComp(self, n, st, fr):
        return self._comp(n, st, fr, "dict")

    def e_Await(self, n, st, fr):
        return self.ex(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        return mk("unk", "yield")

    # -------------------------------------------------------------------- calls
    def e_Call(self, n, st, fr, stmt=False):
        f = n.func
        args, star = [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ex(a.value, st, fr)
                el = self.elems(v)
                if el is None:
                    args.append(mk("star", v))
                    star = True
                else:
                    args.extend(el)
            else:
                args.append(self.ex(a, st, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ex(k.value, st, fr)
                if d.k == "dict" and all(vn.isstr(a) for a, _ in d.a):
                    for a, b in d.a:
                        kw[a.a[0]] = b
                else:
                    kw["**"] = d
            else:
                kw[k.arg] = self.ex(k.value, st, fr)
        # builtins with structure
        if isinstance(f, ast.Name) and f.id not in st.env:
            r = self.builtin(f.id, args, kw, st, fr)
            if r is not None:
                return r
        if isinstance(f, ast.Attribute):
            r = self.method(n, f, args, kw, st, fr)
            if r is not None:
                return r
        fv = self.ex(f, st, fr)
        return self.apply(fv, args, kw, st, fr, n)

    def builtin(self, name, args, kw, st, fr):
        if name == "getattr" and len(args) >= 2 and vn.isstr(args[1]):
            return self.getattr(args[0], args[1].a[0], st, fr)
        if name == "getattr" and len(args) >= 2 and args[1].k == "ite" \
                and all(vn.isstr(x) for x in vn.leaves(args[1])):
            return vn.lift(lambda k: self.getattr(args[0], k.a[0], st, fr), args[1])
        if name == "setattr" and len(args) == 3 and vn.isstr(args[1]):
            self.setattr(args[0], args[1].a[0], args[2], st)
            return NONE
        if name == "setattr" and len(args) == 3:
            self._store_item(args[0], mk("dynattr", args[1]), args[2], st)
            return NONE
        if name == "getattr" and len(args) >= 2:
            return mk("idx", args[0], mk("dynattr", args[1]))
        if name == "dict" and not args:
            return self.mkdict([(c(k), v) for k, v in kw.items()])
        if name == "dict" and len(args) == 1 and args[0].k == "dict":
            return self.mkdict(list(args[0].a) + [(c(k), v) for k, v in kw.items()])
        if name in ("list", "tuple") and len(args) == 1 and not kw:
            el = self.elems(args[0])
            if el is not None:
                return mk(name, *el)
        if name in ("list", "tuple") and not args:
            return mk(name)
        if name in ("set", "frozenset") and len(args) == 1 and not kw:
            el = self.elems(args[0])
            if el is not None and all(x.k == "c" for x in el):
                return _mkset(el)
        if name == "len" and len(args) == 1 and args[0].k in ("list", "tuple", "dict"):
            return c(len(args[0].a))
        if name == "len" and len(args) == 1 and args[0].k == "ite" and all(
                x.k in ("list", "tuple", "dict") for x in vn.leaves(args[0])):
            return vn.lift(lambda x: c(len(x.a)), args[0])
        if name == "isinstance":
            return self._isinstance(args)
        if name == "slice" and 1 <= len(args) <= 3 and not kw:
            a = [NONE] + list(args) if len(args) == 1 else list(args)
            return mk("slice", *(a + [NONE])[:3])
        if name in ("any", "all") and len(args) == 1 and not kw:
            el = self.elems(args[0])
            if el is not None and len(el) <= 400:
                ts = [truth(x) for x in el]
                if all(t in (TRUE, FALSE) for t in ts):
                    return TRUE if (any if name == "any" else all)(
                        t is TRUE for t in ts) else FALSE
        if name == "hasattr" and len(args) == 2 and vn.isstr(args[1]) and \
                (args[0], args[1].a[0]) in st.heap:
            return TRUE
        if name in ("min", "max", "sum", "abs", "float", "int", "len", "str", "bool",
                    "round", "zip", "enumerate", "range", "sorted", "reversed",
                    "any", "all", "set", "map", "filter", "hasattr", "type",
                    "callable", "iter", "next", "id", "repr", "frozenset",
                    "divmod", "pow", "print", "super", "open", "list", "tuple"):
            if name == "print":
                return NONE
            if name == "float" and len(args) == 1:
                return args[0]
            if name == "int" and len(args) == 1 and vn.isnum(args[0]) and \
                    isinstance(args[0].a[0], int):
                return args[0]
            if name == "sum" and len(args) == 1 and args[0].k in ("list", "tuple"):
                r = c(0)
                for x in args[0].a:
                    r = add_(r, x)
                return r
            if name == "abs" and len(args) == 1 and vn.isnum(args[0]):
                return c(abs(args[0].a[0]))
            if name == "bool" and len(args) == 1:
                return truth(args[0])
            if name in ("any", "all") and len(args) == 1:
                el = self.elems(args[0])
                if el is not None:
                    r = FALSE if name == "any" else TRUE
                    for x in el:
                        r = or_(r, truth(x)) if name == "any" else and_(r, truth(x))
                    return r
            if name == "pow" and len(args) == 2:
                return pow_(*args)
            if name == "super":
                return mk("super", st.env.get("self", sym("self")))
            return mkcall(name, tuple(args), tuple(sorted(kw.items())))
        return None

    def _isinstance(self, args):
        x = args[0]
        if x.id in self.isinst and len(args) == 2:
            ts = args[1].a if args[1].k == "tuple" else (args[1],)
            names = {vn.show(t).split(".")[-1].rstrip(">)'\"") for t in ts}
            return c(bool(names & self.isinst[x.id]))
        if len(args) == 2 and args[1].k == "glob" and args[1].a[-1] == "str" \
                and (vn.isstr(args[0]) or vn.isnum(args[0])):
            return TRUE if vn.isstr(args[0]) else FALSE
        return mkcall("isinstance", tuple(args))

    MUTATORS = {"append", "extend", "insert", "update", "pop", "remove", "clear",
                "sort", "add", "setdefault"}

    def method(self, n, f, args, kw, st, fr):
        # copy()/get()/items() etc. on folded containers, in-place list updates
        name = f.attr
        if isinstance(f.value, ast.Name) and f.value.id not in st.env:
            r = self.repo.resolve(fr.mod, f.value.id)
            if isinstance(r, (Module, Cls)) or (isinstance(r, tuple) and r[0] == "ext"):
                return None
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == "super" and fr.cls is not None:
            for b in self.repo.mro(fr.cls)[1:]:
                if name in b.methods:
                    selfn = st.env.get("self", sym("self"))
                    return self.call_func(b.methods[name], [selfn] + args, kw, st, fr)
            return mkcall("super." + name, tuple(args), tuple(sorted(kw.items())))
        base = self.ex(f.value, st, fr)
        if isinstance(self.values.get(base.id), Ref):
            return None
        ov = self.overrides.get("." + name)
        if ov is not None:
            return ov(self, [base] + list(args), kw, st, fr)
        if name == "sum" and not args and not kw and base.k == "list":
            return self.ext("numpy.sum", [base], {}, st, fr)
        if name in ("__and__", "__or__") and len(args) == 1 and not kw:
            return self.binop(ast.BitAnd() if name == "__and__" else ast.BitOr(),
                              base, args[0])
        if base.k == "dict":
            if name == "copy":
                return base
            if name == "items":
                return mk("dictitems", base)
            if name == "keys":
                return mk("list", *[k for k, _ in base.a])
            if name == "values":
                return mk("list", *[v for _, v in base.a])
            if name == "get" and args:
                for k, v in base.a:
                    if k is args[0]:
                        return v
                if args[0].k == "c" and all(k.k == "c" for k, _ in base.a):
                    return args[1] if len(args) > 1 else NONE
                if len(base.a) <= 40 and all(k.k == "c" for k, _ in base.a):
                    r = args[1] if len(args) > 1 else NONE
                    for k, v in base.a:
                        r = ite(eq(args[0], k), v, r)
                    return r
            if name == "update":
                items = list(base.a)
                if args and args[0].k == "dict":
                    items += list(args[0].a)
                elif args:
                    items.append((mk("starstar", args[0]), args[0]))
                items += [(c(k), v) for k, v in kw.items()]
                self.assign_back(f.value, self.mkdict(items), st, fr)
                return NONE
            if name == "pop" and args and args[0].k == "c":
                for k, v in base.a:
                    if k is args[0]:
                        self.assign_back(f.value, self.mkdict(
                            [(a, b) for a, b in base.a if a is not args[0]]), st, fr)
                        return v
                return args[1] if len(args) > 1 else mk("keyerror", base, args[0])
        if base.k == "set" and len(args) == 1 and name in SETOPS:
            el = self.elems(args[0])
            if el is not None and all(x.k == "c" for x in el + list(base.a)):
                return SETOPS[name](list(base.a), el)
        if base.k == "list":
            if name == "append" and len(args) == 1:
                self.assign_back(f.value, mk("list", *(base.a + (args[0],))), st, fr)
                return NONE
            if name == "extend" and len(args) == 1:
                el = self.elems(args[0])
                v = mk("list", *(base.a + tuple(el))) if el is not None else \
                    mk("concat", base, args[0])
                self.assign_back(f.value, v, st, fr)
                return NONE
            if name == "copy":
                return base
            if name == "insert" and len(args) == 2 and vn.isnum(args[0]) and \
                    isinstance(args[0].a[0], int):
                l = list(base.a)
                l.insert(args[0].a[0], args[1])
                self.assign_back(f.value, mk("list", *l), st, fr)
                return NONE
        if name in ("append", "extend") and len(args) == 1 and base.k in (
                "concat", "attr", "upd", "mu", "loop", "idx", "ite", "rep", "comp"):
            v = mk("concat", base, args[0] if name == "extend" else mk("list", args[0]))
            self.assign_back(f.value, v, st, fr)
            self._alias_update(base, v, st)
            return NONE
        if vn.isstr(base) and name in ("format",) and not kw:
            s = base.a[0]
            if all(vn.isstr(a) or vn.isnum(a) for a in args) and "{" in s:
                try:
                    return c(s.format(*[a.a[0] for a in args]))
                except Exception:
                    pass
        if vn.isstr(base) and all(vn.isstr(a) for a in args) and not kw and \
                name in ("startswith", "endswith", "replace", "lower", "upper",
                         "strip", "split", "rsplit", "lstrip", "rstrip", "title",
                         "removeprefix", "removesuffix", "partition", "rpartition",
                         "capitalize", "count", "find", "isdigit"):
            try:
                r = getattr(base.a[0], name)(*[a.a[0] for a in args])
                if isinstance(r, (str, bool, int)):
                    return c(r)
                return mk("tuple" if isinstance(r, tuple) else "list",
                          *[c(x) for x in r])
            except Exception:
                pass
        # object of a known class -> inline; unless a local closure is stored there
        v = st.heap.get((base, name))
        if v is not None and isinstance(self.values.get(v.id), (Closure, Ref)):
            return self.apply(v, args, kw, st, fr, n)
        cands = [base] if base.k != "ite" else vn.leaves(base)
        cls = self.types.get(base.id)
        if cls is None and base.k == "ite":
            cs = {self.types.get(x.id) for x in cands}
            if len(cs) == 1:
                cls = cs.pop()
        if cls is not None:
            m = self.repo.find_method(cls, name)
            if m is not None:
                decs = m.decorators()
                a2 = list(args) if "staticmethod" in decs else [base] + list(args)
                return self.call_func(m, a2, kw, st, fr)
            fv = self.getattr(base, name, st, fr)
            if isinstance(self.values.get(fv.id), (Closure, Ref)):
                return self.apply(fv, args, kw, st, fr, n)
        if base.k in ("unbound", "dontcare"):
            return base
        if (base, name) in st.heap and st.heap[base, name].k in ("sym", "ite"):
            # a callable kept in an attribute
            return self.apply(st.heap[base, name], args, kw, st, fr, n)
        if name == "copy" and not args:
            return base
        nm = "." + name
        node = mkcall(nm, tuple([base] + list(args)), tuple(sorted(kw.items())))
        return node

    def apply(self, fv, args, kw, st, fr, n=None):
        if fv.k == "ite" and fv.lc <= 16:
            t = atomcond(fv.a[0])
            # branch on the callee; each with its own state
            s1, s2 = st.fork(t), st.fork(not_(t))
            v1 = self.apply(fv.a[1], args, kw, s1, fr, n) if not s1.dead else DC
            v2 = self.apply(fv.a[2], args, kw, s2, fr, n) if not s2.dead else DC
            self.merge_into(st, t, s1, s2)
            return ite(t, v1, v2)
        o = self.values.get(fv.id)
        if isinstance(o, Closure):
            return self.call_closure(o, args, kw, st, fr)
        if isinstance(o, Ref):
            t = o.target
            if isinstance(t, Func):
                if t.cls is not None and "classmethod" in t.decorators():
                    args = [self.obj(Ref(t.cls))] + list(args)
                return self.call_func(t, args, kw, st, fr)
            if isinstance(t, Cls):
                return self.construct(t, args, kw, st, fr)
            if isinstance(t, tuple) and t[0] in ("ext", "builtin"):
                return self.ext(t[1], args, kw, st, fr)
        if fv.k == "glob" and fv.a[0] == "builtins":
            return mkcall(fv.a[1], tuple(args), tuple(sorted(kw.items())))
        if fv.k in ("unbound", "dontcare"):
            return fv
        if fv.k == "attr" and isinstance(fv.a[1], str) \
                and self.types.get(fv.a[0].id) is not None:
            # a bound method kept in a variable
            m = self.repo.find_method(self.types[fv.a[0].id], fv.a[1])
            if m is not None and not {"property", "classmethod"} & set(m.decorators()):
                a2 = list(args) if "staticmethod" in m.decorators() \
                    else [fv.a[0]] + list(args)
                return self.call_func(m, a2, kw, st, fr)
        return mkcall("@", tuple([fv] + list(args)), tuple(sorted(kw.items())))

    def canon(self, nodes, st, fr):
        """Closures handed to opaque functions -> value of their body."""
        out = []
        for x in nodes:
            o = self.values.get(x.id)
            if isinstance(o, Closure) and x.k == "closure":
                a = o.node.args
                ps = [mk("arg", i, self._lam) for i in range(len(a.args))]
                self._lam += 1       # nesting of anonymous functions
                try:
                    s2 = State(dict(st.env), dict(st.heap), st.pc)
                    v = self.call_closure(o, ps, {}, s2, fr)
                    out.append(mk("lam", len(ps), v))
                    continue
                except (TooComplex, RecursionError):
                    pass
                finally:
                    self._lam -= 1
            out.append(x)
        return out

    def construct(self, cls, args, kw, st, fr):
        ov = self.overrides.get("new:" + cls.name)
        if ov is not None:
            return ov(self, args, kw, st, fr)
        if cls.key in self.instantiate:
            init = self.repo.find_method(cls, "__init__")
            if init is not None:
                self.ninst += 1
                o = mk("inst", cls.name, self.ninst)
                self.types[o.id] = cls
                snap = (dict(st.env), dict(st.heap), st.pc, len(self.effects))
                try:
                    r = self._inline(init.node, init.mod, init.cls, init.key,
                                     [o] + list(args), kw, {}, st, fr, fr.depth + 1)
                    if r is not None:
                        return o
                except TooComplex:
                    pass
                st.env, st.heap, st.pc = snap[0], snap[1], snap[2]
                del self.effects[snap[3]:]
        return mkcall("new:" + cls.name, tuple(args), tuple(sorted(kw.items())))

    def ext(self, dotted, args, kw, st, fr):
        ov = self.overrides.get(dotted)
        if ov is not None:
            return ov(self, args, kw, st, fr)
        if any(x.k == "closure" for x in args):
            args = self.canon(args, st, fr)
        if any(x.k == "closure" for x in kw.values()):
            kw = dict(zip(kw, self.canon(list(kw.values()), st, fr)))
        parts = dotted.split(".")
        base = parts[-1]
        base = ALIASES.get(base, base)
        if self.arrays and parts[0] == "numpy" and not kw and (
                base in ELEMENTWISE1 and len(args) == 1
                or base in ELEMENTWISE2 and len(args) == 2
                or base in ("where", "clip") and len(args) == 3):
            n = {len(x.a) for x in args if x.k == "list"}
            if len(n) == 1:
                return mk("list", *[self.ext(dotted, [x.a[i] if x.k == "list" else x
                                                      for x in args], kw, st, fr)
                                    for i in range(n.pop())])
        if self.masks and parts[0] == "numpy":
            if base in ("zeros_like", "zeros") and args and args[0].k != "list":
                return c(0)
            if base in ("ones_like", "ones") and args and args[0].k != "list":
                return c(1)
            if base in ("full_like", "full") and len(args) == 2:
                return args[1]
            if base in ("empty_like", "empty") and args:
                return mk("undefined", NONE)
            if base in ("any", "all") and len(args) == 1 and self._boolish(args[0]):
                return args[0]
            if base in ("sum", "count_nonzero") and len(args) == 1 and self._boolish(args[0]):
                return ite(truth(args[0]), c(1), c(0))
            if base in ("where", "nonzero") and len(args) == 1 and self._boolish(args[0]):
                return mk("tuple", args[0])
            if base in ("array", "asarray", "fromiter") and args and args[0].k == "list" \
                    and len(args[0].a) == 1 and args[0].a[0].k not in (
                        "list", "tuple", "dict", "c"):
                return args[0].a[0]
            if base == "isfinite" and len(args) == 1:
                return not_(or_(truth(self.ext("numpy.isnan", args, kw, st, fr)),
                                truth(self.ext("numpy.isinf", args, kw, st, fr))))
            if base in ("max", "min") and len(args) == 1 and args[0].k == "list":
                return mkcall(base, args[0].a)
        if parts[0] in ("numpy", "math", "pandas"):
            if base == "sqrt" and len(args) == 1:
                return pow_(args[0], c(0.5))
            if base == "cbrt" and len(args) == 1:
                return pow_(args[0], div_(c(1), c(3)))
            if base in ("power", "pow", "float_power") and len(args) == 2:
                return pow_(*args)
            if base == "log1p" and len(args) == 1:
                base, args = "log", [add_(c(1), args[0])]
            if base == "expm1" and len(args) == 1:
                return sub_(self.ext("numpy.exp", args, kw, st, fr), c(1))
            if base == "reciprocal" and len(args) == 1:
                return div_(c(1), args[0])
            if base == "negative" and len(args) == 1:
                return neg_(args[0])
            if base == "clip" and len(args) == 3 and NONE not in args:
                return self.ext("numpy.min", [self.ext("numpy.max", args[:2], kw, st, fr),
                                              args[2]], kw, st, fr)
            if base == "sum" and len(args) == 1 and not kw and args[0].k in ("list", "tuple"):
                r = c(0)
                for x in args[0].a:
                    r = add_(r, x)
                return r
            if base == "square":
                return pow_(args[0], c(2))
            if base == "log10" and len(args) == 1:
                return vn.lift(_log10, args[0])
            if self.arrays and base == "atleast_1d" and args and \
                    args[0].k not in ("list", "tuple"):
                return mk("list", args[0])
            if base in ("array", "asarray", "float64", "atleast_1d", "squeeze",
                        "copy", "asanyarray") and args:
                return args[0]
            if base == "logical_and" and len(args) == 2:
                return and_(truth(args[0]), truth(args[1]))
            if base == "logical_or" and len(args) == 2:
                return or_(truth(args[0]), truth(args[1]))
            if base == "logical_not" and len(args) == 1:
                return not_(truth(args[0]))
            if base in ("multiply", "add", "subtract", "divide") and len(args) == 2:
                return {"multiply": mul_, "add": add_, "subtract": sub_,
                        "divide": div_}[base](*args)
            if base == "where" and len(args) == 3:
                return ite(truth(args[0]), args[1], args[2])
            if base == "exp" and len(args) == 1:
                return vn.lift(lambda x: mkcall("exp", (x,)), args[0])
            if base == "isnan" and len(args) == 1:
                return vn.lift(_isnan, args[0])
            if base == "isinf" and len(args) == 1:
                return vn.lift(lambda x: FALSE if vn.isnum(x) else
                               atomcond(mkcall("isinf", (x,))), args[0])
            if base in ("notna", "notnull") and len(args) == 1:
                return not_(vn.lift(_isnan, args[0]))
            if base in ("min", "max") and len(args) == 1 and args[0].k in ("list", "tuple"):
                return mkcall(base, args[0].a)
            if base == "deg2rad" or base == "radians":
                return mul_(args[0], div_(c(3.141592653589793), c(180)))
            if base == "abs" and len(args) == 1 and vn.isnum(args[0]):
                return c(abs(args[0].a[0]))
            if base in NUMFN:
                return vn.lift(lambda *a: mkcall(base, tuple(a),
                                                 tuple(sorted(kw.items()))), *args,
                               limit=8)
        if dotted in ("copy.copy", "copy.deepcopy"):
            return args[0]
        if dotted in ("os.path.isfile", "os.path.exists") and args and \
                vn.isstr(args[0]) and args[0].a[0] == "":
            return FALSE
        return mkcall(dotted if parts[0] not in ("numpy", "math") else base,
                      tuple(args), tuple(sorted(kw.items())))

    # ----------------------------------------------------------------- inlining
    def call_func(self, f, args, kw, st, fr):
        ov = self.overrides.get(f.key) or self.overrides.get(f.name)
        if ov is not None:
            return ov(self, args, kw, st, fr)
        if f.name in DIAG:
            return NONE
        depth = fr.depth + 1
        ok = depth <= self.max_depth and f.name not in self.noinline \
            and f.key not in self.noinline and self._stack.count(f.key) == 0
        if ok and self.inline_pred is not None:
            ok = self.inline_pred(f)
        if ok and any(a.k == "star" for a in args):
            ok = False
        if ok and any(isinstance(x, (ast.Yield, ast.YieldFrom))
                      for x in ast.walk(f.node)):
            ok = False
        if ok:
            snap = (dict(st.env), dict(st.heap), st.pc, len(self.effects))
            try:
                r = self._inline(f.node, f.mod, f.cls, f.key, args, kw, {}, st, fr,
                                 depth)
                if r is not None:
                    self.inlined.add(f.key)
                    return r
            except TooComplex:
                pass
            st.env, st.heap, st.pc = snap[0], snap[1], snap[2]
            del self.effects[snap[3]:]
        name = f.name if f.cls is None else "." + f.name
        a, k = self.normalise_args(f, args, kw)
        return mkcall(name, tuple(a), tuple(sorted(k.items())))

    def normalise_args(self, f, args, kw):
        """Bind positional arguments to names so that both spellings agree."""
        if "**" in kw or any(a.k == "star" for a in args):
            return args, kw
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names):
            return args, kw
        k = dict(zip(names, args))
        first = []
        if f.cls is not None and names and "staticmethod" not in f.decorators():
            if names[0] in k:
                first = [k.pop(names[0])]
        k.update(kw)
        k.pop("verbose", None)
        # an argument equal to its default is the same as none
        d = dict(zip(reversed([x.arg for x in a.posonlyargs + a.args]),
                     reversed(a.defaults)))
        d.update((x.arg, v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v)
        for n, v in d.items():
            if n in k and isinstance(v, ast.Constant) and isinstance(
                    v.value, (bool, int, float, str, type(None))):
                w = NONE if v.value is None else (
                    (TRUE if v.value else FALSE) if isinstance(v.value, bool)
                    else c(v.value))
                if k[n] is w:
                    del k[n]
        return first, k

    def call_closure(self, cl, args, kw, st, fr):
        depth = fr.depth + 1
        if depth > self.max_depth + 2 or self._stack.count("closure:%d" % id(cl)) > 0:
            return mkcall("closure", tuple(args))
        snap = (dict(st.env), dict(st.heap), st.pc, len(self.effects))
        try:
            r = self._inline(cl.node, cl.mod, cl.cls, "closure:%d" % id(cl), args, kw,
                             cl.env, st, fr, depth)
            if r is not None:
                return r
        except TooComplex:
            pass
        st.env, st.heap, st.pc = snap[0], snap[1], snap[2]
        del self.effects[snap[3]:]
        return mkcall("closure", tuple(args))

    def _inline(self, node, mod, cls, key, args, kw, closure_env, st, fr, depth):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(closure_env)
        for loc in _assigned(node.body):
            env.pop(loc, None)
        kwonly = [x.arg for x in a.kwonlyargs]
        if len(args) > len(names) and not a.vararg:
            return None
        bound = {}
        for nm, v in zip(names, args):
            bound[nm] = v
        if a.vararg:
            bound[a.vararg.arg] = mk("tuple", *args[len(names):])
        extra = []
        for k, v in kw.items():
            if k == "**":
                if not a.kwarg:
                    for nm in names + kwonly:
                        if nm not in bound:
                            bound[nm] = mk("idx", v, c(nm))
                else:
                    extra.append((mk("starstar", v), v))
            elif k in names or k in kwonly:
                bound[k] = v
            elif a.kwarg:
                extra.append((c(k), v))
            else:
                return None
        if a.kwarg:
            bound[a.kwarg.arg] = self.mkdict(extra)
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs += [(x, d) for x, d in zip(kwonly, a.kw_defaults) if d is not None]
        nfr = Frame(key, mod, cls, depth)
        for nm, d in defs:
            if nm not in bound:
                bound[nm] = self.ex(d, State({}, {}, TRUE), nfr)
        for nm in names + kwonly:
            if nm not in bound:
                return None
        env.update(bound)
        inner = State(env, dict(st.heap), st.pc)
        val, heap, raise_pc, nfr = self._run_body(node, inner, nfr)
        for e in nfr.exits:
            if e[0] == "raise":
                fr.exits.append(e)
        if val is None:
            st.dead = True
            return NONE
        st.heap = heap
        if raise_pc is not FALSE:
            st.pc = and_(st.pc, not_(raise_pc))
        return val


def _mkset(nodes):
    return mk("set", *sorted(set(nodes), key=lambda n: n.id))


SETOPS = {
    "difference": lambda a, b: _mkset([x for x in a if x not in b]),
    "union": lambda a, b: _mkset(a + b),
    "intersection": lambda a, b: _mkset([x for x in a if x in b]),
    "issubset": lambda a, b: TRUE if all(x in b for x in a) else FALSE,
    "issuperset": lambda a, b: TRUE if all(x in a for x in b) else FALSE,
    "isdisjoint": lambda a, b: FALSE if any(x in a for x in b) else TRUE,
}
SETBIN = {"Sub": "difference", "BitOr": "union", "BitAnd": "intersection"}


def _other_column(a, b):
    """Two indices that select different columns of all rows."""
    return (a.k == b.k == "tuple" and len(a.a) == len(b.a) and a is not b
            and all(x is y or (vn.isnum(x) and vn.isnum(y)) for x, y in zip(a.a, b.a)))


def _log10(x):
    if vn.isnum(x) and x.a[0] > 0:
        from decimal import Decimal
        r = Decimal(x.a[0]).log10()
        return c(int(r) if r == int(r) else r)
    if x.k == "pow" and vn.isnum(x.a[0]) and x.a[0].a[0] == 10:
        return x.a[1]
    if x.k == "poly" and len(x.a[0]) == 1:
        # logarithm of a product with a power of ten
        (coef, mono), = x.a[0]
        tens = [(a, e) for a, e in mono if a.k == "pow" and vn.isnum(a.a[0])
                and a.a[0].a[0] == 10]
        if tens:
            r, rest = c(0), c(coef)
            for a, e in mono:
                if (a, e) in tens:
                    r = add_(r, mul_(a.a[1], c(e)))
                else:
                    rest = mul_(rest, vn.pow_(a, c(e)))
            return r if rest is c(1) else add_(r, vn.lift(_log10, rest))
    return mkcall("log10", (x,))


def _isnan(x):
    if x.k == "c":
        return TRUE if x.a[0] == "NaN!" or x.a[0] is None else FALSE
    return atomcond(mk("isnan", x))


def _strip(v):
    """Drop the unbound leaves of a value."""
    if not v.ub:
        return v
    if v.k == "unbound":
        return DC
    if v.k == "ite":
        h, l = v.a[1], v.a[2]
        if h.k == "unbound":
            return _strip(l)
        if l.k == "unbound":
            return _strip(h)
        h, l = _strip(h), _strip(l)
        return ite(atomcond(v.a[0]), h, l)
    return v


def _rel(pc, base):
    """pc relative to a known outer condition."""
    if base is TRUE:
        return pc
    return ite(base, pc, FALSE) if pc is not base else TRUE


def _callname(n):
    f = n.func
    return f.id if isinstance(f, ast.Name) else getattr(f, "attr", "")


def _tgt(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _assigned(body):
    out = set()

    def w(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        # in-place container updates count as writes of the container variable
        if isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and isinstance(n.func.value, ast.Name) \
                and n.func.attr in Evaluator.MUTATORS:
            out.add(n.func.value.id)
        for ch in ast.iter_child_nodes(n):
            w(ch)
    for s in body:
        w(s)
    return out


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t
