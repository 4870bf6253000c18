"""Provenance of random-number generators.

A context-sensitive, flow-sensitive abstract interpreter over the syntax trees.
Abstract values are sets of atoms:
  G      the generator that was handed in
  F      a generator of unknown origin created on the spot (unseeded, constant or
         clock seed) or a duplicate of the given one
  S      module-level state that outlives the call
  E      a generator seeded from the recorded seed (entropy, job number)
  SEED   the recorded seed itself
  N      None
  D      a mapping that carries G under 'RNG'
  ('obj', class, id)      an instance with tracked attributes
  ('ref', Func|Cls)       a function or class of the package
  ('bound', Func, objatom)
An empty set means "anything else".
"""
import ast

from .repo import Cls, Func, Module

GOODRANDOM = {"default_rng", "SeedSequence", "Generator", "PCG64", "Philox",
              "BitGenerator", "MT19937", "SFC64"}
DRAWS = {"uniform", "normal", "random", "choice", "integers", "shuffle", "permutation",
         "permuted", "standard_normal", "exponential", "standard_exponential",
         "lognormal", "poisson", "binomial", "gamma", "beta", "power", "pareto",
         "triangular", "rayleigh", "vonmises", "weibull", "multinomial", "dirichlet",
         "multivariate_normal", "standard_t", "laplace", "logistic", "randint",
         "random_sample", "rand", "randn", "sample", "bytes", "geometric", "chisquare"}
RNGNAMES = {"RNG", "rng", "random_state"}
SEEDNAMES = {"entropy", "JOB_ID", "seed", "seed_seq"}
TOKENS = RNGNAMES | {"rvs", "random", "default_rng", "SeedSequence", "urandom", "uuid4",
                     "secrets"}
NONE_ = frozenset(["N"])
U = frozenset()


def good(v):
    return bool(v) and v <= {"G", "E"}


def words(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name):
            out.add(x.id)
        elif isinstance(x, ast.Attribute):
            out.add(x.attr)
        elif isinstance(x, ast.Constant) and isinstance(x.value, str) \
                and x.value in ("RNG", "rng"):
            out.add("RNG")
        elif isinstance(x, ast.keyword) and x.arg:
            out.add(x.arg)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
    return out


class Prov:
    def __init__(self, repo, max_depth=9):
        self.repo, self.max_depth = repo, max_depth
        self.events = {}        # (func key, construct) -> (line, path, message)
        self.draws = set()      # (func key, lineno, col) of draws proven good
        self.unknown = set()
        self.calls = 0
        self.stack = []
        self.nobj = 0
        self.relevant = self._relevant()

    # ---- which functions can touch a generator at all
    def _relevant(self):
        fs = list(self.repo.functions())
        W = {f.key: words(f.node) for f in fs}
        rel = {f.key for f in fs if W[f.key] & TOKENS}
        names = {f.name for f in fs if f.key in rel}
        inits = {f.cls.name for f in fs if f.key in rel and f.cls is not None}
        names |= inits
        names.discard("__init__")
        names.discard("__call__")
        names.discard("__repr__")
        while True:
            new = {f.key for f in fs if f.key not in rel and W[f.key] & names}
            if not new:
                break
            rel |= new
            for f in fs:
                if f.key in new and not f.name.startswith("__"):
                    names.add(f.name)
        return rel

    # ---- entry
    def event(self, n, fk, what, msg):
        key = (fk, what)
        if key not in self.events:
            self.events[key] = (getattr(n, "lineno", 0), list(self.stack), msg)

    def given(self, f):
        """Bindings of f's parameters when the caller supplies a generator."""
        a = f.node.args
        b = {}
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg in RNGNAMES:
                b[p.arg] = frozenset(["G"])
            elif p.arg in SEEDNAMES:
                b[p.arg] = frozenset(["SEED"])
            else:
                b[p.arg] = U
        if a.kwarg:
            b[a.kwarg.arg] = frozenset(["D"])
        return b

    def instance(self, cls, st):
        self.nobj += 1
        return ("obj", cls, self.nobj)

    def root(self, f, obj=None, heap=None):
        st = dict(heap or {})
        b = self.given(f)
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and names and "staticmethod" not in f.decorators():
            if "classmethod" in f.decorators():
                b[names[0]] = frozenset([("ref", f.cls)])
            else:
                if obj is None:
                    obj = self.instance(f.cls, st)
                    st[(obj[2], "RNG")] = frozenset(["G"])
                    st[(obj[2], "entropy")] = frozenset(["SEED"])
                    st[(obj[2], "kwargs")] = frozenset(["D"])
                b[names[0]] = frozenset([obj])
        return self.body(f, b, st)

    def body(self, f, b, st):
        env = {k: v for k, v in st.items() if isinstance(k, tuple)}
        env.update(b)
        self.stack.append(f.key)
        rets = []
        fr = {"f": f, "mod": f.mod, "ret": rets, "globals": set()}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Global):
                fr["globals"] |= set(x.names)
        try:
            self.block(f.node.body, env, fr)
        finally:
            self.stack.pop()
        out = {k: v for k, v in env.items() if isinstance(k, tuple)}
        val = U
        for r, h in rets:
            val |= r
            for k, v in h.items():
                out[k] = out.get(k, U) | v if k in out else v
        return val, out

    # ---- statements
    def block(self, body, env, fr):
        for s in body:
            if self.stmt(s, env, fr):
                return True      # control does not fall through
        return False

    def join(self, env, *alts):
        keys = set()
        for a in alts:
            keys |= set(a)
        env.clear()
        for k in keys:
            v = U
            for a in alts:
                v |= a.get(k, U)
            env[k] = v

    def stmt(self, s, env, fr):
        if isinstance(s, ast.Return):
            v = self.ex(s.value, env, fr) if s.value is not None else NONE_
            fr["ret"].append((v, {k: x for k, x in env.items() if isinstance(k, tuple)}))
            return True
        if isinstance(s, ast.Raise):
            for x in ast.iter_child_nodes(s):
                self.ex(x, env, fr)
            return True
        if isinstance(s, (ast.Break, ast.Continue)):
            return False        # approximated as falling through
        if isinstance(s, ast.Assign):
            v = self.ex(s.value, env, fr)
            for t in s.targets:
                self.assign(t, v, env, fr, s.value)
            return False
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ex(s.value, env, fr), env, fr, s.value)
            return False
        if isinstance(s, ast.AugAssign):
            v = self.ex(s.value, env, fr) | self.ex(s.target, env, fr)
            self.assign(s.target, v, env, fr, None)
            return False
        if isinstance(s, ast.If):
            t = self.test(s.test, env, fr)
            self.ex(s.test, env, fr)
            if t is True:
                return self.block(s.body, env, fr)
            if t is False:
                return self.block(s.orelse, env, fr)
            a, b = dict(env), dict(env)
            self.refine(s.test, True, a)
            self.refine(s.test, False, b)
            da = self.block(s.body, a, fr)
            db = self.block(s.orelse, b, fr)
            alts = ([] if da else [a]) + ([] if db else [b])
            if not alts:
                return True
            self.join(env, *alts)
            return False
        if isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.ex(s.iter, env, fr)
            for _ in range(2):
                a = dict(env)
                self.assign(s.target, v, a, fr, None)
                self.block(s.body, a, fr)
                self.join(env, dict(env), a)
            self.block(s.orelse, env, fr)
            return False
        if isinstance(s, ast.While):
            for _ in range(2):
                self.ex(s.test, env, fr)
                a = dict(env)
                self.block(s.body, a, fr)
                self.join(env, dict(env), a)
            return False
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ex(i.context_expr, env, fr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, fr, None)
            return self.block(s.body, env, fr)
        if isinstance(s, ast.Try):
            pre = dict(env)
            dead = self.block(s.body, env, fr)
            if not dead:
                dead = self.block(s.orelse, env, fr)
            alts = [] if dead else [dict(env)]
            for h in s.handlers:
                e = {}
                self.join(e, pre, dict(env))
                if not self.block(h.body, e, fr):
                    alts.append(e)
            if alts:
                self.join(env, *alts)
            d2 = self.block(s.finalbody, env, fr)
            return d2 or not alts
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            e = dict(env)
            for p in s.args.args + s.args.kwonlyargs:
                e[p.arg] = frozenset(["G"]) if p.arg in RNGNAMES else U
            f2 = dict(fr)
            f2["ret"] = []
            self.block(s.body, e, f2)
            return False
        if isinstance(s, ast.Expr):
            self.ex(s.value, env, fr)
            return False
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass, ast.Import,
                          ast.ImportFrom, ast.ClassDef)):
            return False
        if isinstance(s, ast.Assert):
            self.ex(s.test, env, fr)
            return False
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.ex(x, env, fr)
        return False

    def assign(self, t, v, env, fr, src):
        if isinstance(t, ast.Name):
            if t.id in fr["globals"]:
                objs = {x for x in v if isinstance(x, tuple) and x[0] == "obj"}
                for x in objs:
                    env[(x[2], "~")] = frozenset(["stale"])
                env[t.id] = frozenset(["S"]) | objs
                return
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ex(t.value, env, fr)
            for x in o:
                if isinstance(x, tuple) and x[0] == "obj":
                    env[(x[2], t.attr)] = v
                    if t.attr in RNGNAMES:
                        env.pop((x[2], "~"), None)
        elif isinstance(t, ast.Subscript):
            o = self.ex(t.value, env, fr)
            self.ex(t.slice, env, fr)
            k = t.slice.value if isinstance(t.slice, ast.Constant) else None
            if k in ("RNG", "rng"):
                new = None
                if good(v):
                    new = (o - {"D", "DF"}) | {"D"}
                elif "F" in v or "S" in v:
                    new = (o - {"D"}) | {"DF"}
                else:
                    new = o - {"D"}
                self._restore(t.value, new, env, fr)
            elif isinstance(t.value, ast.Name) and t.value.id in env and \
                    (v & {"G", "F", "S", "E"}):
                # stored in a container: the container carries it
                env[t.value.id] = env[t.value.id] | (v & {"G", "F", "S", "E"})
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                for a, b in zip(t.elts, src.elts):
                    self.assign(a, self.ex(b, env, fr), env, fr, b)
            else:
                for a in t.elts:
                    self.assign(a, v, env, fr, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, fr, None)

    def _restore(self, target, new, env, fr):
        if isinstance(target, ast.Name):
            env[target.id] = frozenset(new)
        elif isinstance(target, ast.Attribute):
            for x in self.ex(target.value, env, fr):
                if isinstance(x, tuple) and x[0] == "obj":
                    env[(x[2], target.attr)] = frozenset(new)

    # ---- tests
    def test(self, n, env, fr):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t = self.test(n.operand, env, fr)
            return None if t is None else not t
        if isinstance(n, ast.BoolOp):
            ts = [self.test(v, env, fr) for v in n.values]
            if isinstance(n.op, ast.And):
                if False in ts:
                    return False
                return True if all(t is True for t in ts) else None
            if True in ts:
                return True
            return False if all(t is False for t in ts) else None
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = n.left, n.comparators[0]
            op = n.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and \
                    isinstance(b, ast.Constant) and b.value is None:
                v = self.ex(a, env, fr)
                r = None
                if v == NONE_:
                    r = True
                elif v and "N" not in v and v <= {"G", "F", "E", "D"}:
                    r = False
                if r is None:
                    return None
                return r if isinstance(op, (ast.Is, ast.Eq)) else not r
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, ast.Constant) \
                    and a.value in ("RNG", "rng"):
                v = self.ex(b, env, fr)
                if v == frozenset(["D"]):
                    return isinstance(op, ast.In)
                return None
        if isinstance(n, (ast.Name, ast.Attribute)):
            v = self.ex(n, env, fr)
            if v == NONE_:
                return False
            if v and v <= {"G", "F", "E"}:
                return True
        return None

    def refine(self, n, val, env):
        """x is None / x tested: narrow x in the branch."""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return self.refine(n.operand, not val, env)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                isinstance(n.left, ast.Name) and \
                isinstance(n.comparators[0], ast.Constant) and \
                n.comparators[0].value is None and n.left.id in env:
            isnone = isinstance(n.ops[0], (ast.Is, ast.Eq)) == val
            v = env[n.left.id]
            if isnone:
                env[n.left.id] = NONE_
            else:
                env[n.left.id] = v - {"N"}

    # ---- expressions
    def dotted(self, n, env, fr):
        """External dotted name of an expression, or None."""
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if isinstance(n, ast.Name) and n.id not in env:
            r = self.repo.resolve(fr["mod"], n.id)
            if isinstance(r, tuple) and r[0] == "ext":
                return ".".join([r[1]] + parts[::-1])
        return None

    def ex(self, n, env, fr):
        if n is None:
            return U
        if isinstance(n, ast.Constant):
            return NONE_ if n.value is None else U
        if isinstance(n, ast.Name):
            if n.id in fr["globals"]:
                return env.get(n.id, U) | {"S"}
            if n.id in env:
                return env[n.id]
            r = self.repo.resolve(fr["mod"], n.id)
            if isinstance(r, (Func, Cls)):
                return frozenset([("ref", r)])
            if isinstance(r, tuple) and r[0] == "var":
                return self.modvar(r[1], r[2])
            return U
        if isinstance(n, ast.Attribute):
            o = self.ex(n.value, env, fr)
            out = set()
            for x in o:
                if isinstance(x, tuple) and x[0] == "obj":
                    k = (x[2], n.attr)
                    if k in env:
                        out |= env[k]
                    else:
                        m = self.repo.find_method(x[1], n.attr)
                        if m is not None:
                            out.add(("bound", m, x))
                        elif n.attr in SEEDNAMES:
                            out.add("SEED")
                        elif n.attr in RNGNAMES:
                            out |= self.classattr(x[1], n.attr, env, fr)
                elif isinstance(x, tuple) and x[0] == "ref" and isinstance(x[1], Cls):
                    m = self.repo.find_method(x[1], n.attr)
                    if m is not None:
                        out.add(("bound", m, x) if "classmethod" in m.decorators()
                                else ("ref", m))
                elif x == "S":
                    out.add("S")
                elif x in ("G", "E") and n.attr in ("bit_generator", "_seed_seq",
                                                    "seed_seq", "entropy", "spawn_key"):
                    out.add("SEED")
                elif x == "SEED":
                    out.add("SEED")
            if not o:
                # module attribute of the package
                if isinstance(n.value, ast.Name) and n.value.id not in env:
                    r = self.repo.resolve(fr["mod"], n.value.id)
                    if isinstance(r, Module):
                        q = self.repo.resolve(r, n.attr)
                        if isinstance(q, (Func, Cls)):
                            return frozenset([("ref", q)])
                        if isinstance(q, tuple) and q[0] == "var":
                            return self.modvar(q[1], q[2])
                if n.attr in SEEDNAMES:
                    return frozenset(["SEED"])
            return frozenset(out)
        if isinstance(n, ast.Call):
            return self.call(n, env, fr)
        if isinstance(n, ast.IfExp):
            t = self.test(n.test, env, fr)
            self.ex(n.test, env, fr)
            if t is True:
                return self.ex(n.body, env, fr)
            if t is False:
                return self.ex(n.orelse, env, fr)
            return self.ex(n.body, env, fr) | self.ex(n.orelse, env, fr)
        if isinstance(n, ast.BoolOp):
            out = U
            for i, v in enumerate(n.values):
                x = self.ex(v, env, fr)
                if isinstance(n.op, ast.Or):
                    if x and x <= {"G", "E", "F"}:
                        return out | x
                    out |= x - {"N"} if i + 1 < len(n.values) else x
                else:
                    out |= x
            return out
        if isinstance(n, ast.Subscript):
            o = self.ex(n.value, env, fr)
            self.ex(n.slice, env, fr)
            k = n.slice.value if isinstance(n.slice, ast.Constant) else None
            if k in ("RNG", "rng"):
                return self.lookup(o)
            if k in SEEDNAMES:
                return frozenset(["SEED"])
            return frozenset(x for x in o if x in ("G", "F", "S", "E", "SEED"))
        if isinstance(n, ast.Dict):
            out = set()
            for k, v in zip(n.keys, n.values):
                x = self.ex(v, env, fr)
                if k is None:
                    out |= x & {"D", "DF"}
                elif isinstance(k, ast.Constant) and k.value in ("RNG", "rng"):
                    out -= {"D", "DF"}
                    out.add("D" if good(x) else "DF" if x & {"F", "S"}
                            else "N")
            out.discard("N")
            return frozenset(out)
        if isinstance(n, ast.Lambda):
            e = dict(env)
            for p in n.args.args:
                e[p.arg] = U
            self.ex(n.body, e, fr)
            return U
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            for g in n.generators:
                v = self.ex(g.iter, e, fr)
                self.assign(g.target, v, e, fr, None)
                for i in g.ifs:
                    self.ex(i, e, fr)
            if isinstance(n, ast.DictComp):
                # {k: v for k, v in kwargs.items()}
                return self.ex(n.key, e, fr) | self.ex(n.value, e, fr) & {"D"}
            v = self.ex(n.elt, e, fr)
            return frozenset(x for x in v if x in ("G", "F", "S", "E", "SEED"))
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            out = U
            for x in n.elts:
                out |= self.ex(x, env, fr) - {"N"}
            return frozenset(x for x in out if x in ("G", "F", "S", "E", "SEED"))
        if isinstance(n, ast.BinOp):
            a, b = self.ex(n.left, env, fr), self.ex(n.right, env, fr)
            return frozenset(x for x in a | b if x in ("SEED", "D", "DF"))
        if isinstance(n, ast.NamedExpr):
            v = self.ex(n.value, env, fr)
            env[n.target.id] = v
            return v
        out = U
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.ex(x, env, fr)
        return out

    def lookup(self, o):
        out = set()
        if "D" in o:
            out.add("G")
        if "DF" in o:
            out.add("F")
        return frozenset(out)

    def modvar(self, mod, name):
        """Module-level variable: shared state if some function rebinds it or it
        holds a generator."""
        for f in self.repo.functions():
            if f.mod is mod:
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Global) and name in x.names:
                        return frozenset(["S"])
        for s in mod.tree.body:
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == name for t in s.targets):
                for x in ast.walk(s.value):
                    if isinstance(x, ast.Attribute) and x.attr in (
                            "default_rng", "RandomState", "Generator"):
                        return frozenset(["S"])
        return U

    def classattr(self, cls, attr, env, fr):
        for k in self.repo.mro(cls):
            a = k.assigns.get(attr)
            if a is not None:
                f2 = dict(fr, mod=k.mod)
                v = self.ex(a if isinstance(a, ast.expr) else getattr(a, "value", None),
                            {}, f2)
                return v
        return U

    # ---- calls
    def call(self, n, env, fr):
        fk = fr["f"].key
        f = n.func
        pos, kw, dd, stars = [], {}, U, False
        for a in n.args:
            if isinstance(a, ast.Starred):
                stars = True
                pos.append(self.ex(a.value, env, fr))
            else:
                pos.append(self.ex(a, env, fr))
        for k in n.keywords:
            v = self.ex(k.value, env, fr)
            if k.arg is None:
                dd |= v
            else:
                kw[k.arg] = v
        dot = self.dotted(f, env, fr)
        if dot is not None:
            return self.external(n, dot, pos, kw, dd, fk)
        if isinstance(f, ast.Attribute):
            o = self.ex(f.value, env, fr)
            r = self.method(n, f, o, pos, kw, dd, env, fr, fk)
            if r is not None:
                return r
        elif not isinstance(f, ast.Name):
            self.ex(f, env, fr)
        fv = self.ex(f, env, fr)
        if isinstance(f, ast.Name) and f.id == "dict" and not fv:
            out = set(dd)
            for p in pos:
                out |= p & {"D", "DF"}
            if "RNG" in kw:
                out -= {"D", "DF"}
                out.add("D" if good(kw["RNG"]) else "DF")
            return frozenset(x for x in out if x in ("D", "DF"))
        if isinstance(f, ast.Name) and f.id in ("list", "tuple", "next", "iter",
                                                "enumerate", "zip", "int") and not fv:
            out = U
            for p in pos:
                out |= p
            return frozenset(x for x in out if x in ("G", "F", "S", "E", "SEED"))
        if isinstance(f, ast.Name) and f.id == "getattr" and not fv and \
                len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            return self.ex(ast.copy_location(ast.Attribute(
                n.args[0], n.args[1].value, ast.Load()), n), env, fr)
        if isinstance(f, ast.Name) and f.id == "setattr" and not fv and \
                len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
            self.assign(ast.Attribute(n.args[0], n.args[1].value, ast.Store()), pos[2],
                        env, fr, None)
            return U
        if not fv:
            fv = self.attr_callee(f, env, fr)
        out = U
        for x in fv:
            if isinstance(x, tuple) and x[0] == "ref":
                if isinstance(x[1], Func):
                    out |= self.invoke(n, x[1], pos, kw, dd, stars, env, fr)
                else:
                    out |= self.construct(n, x[1], pos, kw, dd, stars, env, fr)
            elif isinstance(x, tuple) and x[0] == "bound":
                out |= self.invoke(n, x[1], [frozenset([x[2]])] + pos, kw, dd, stars,
                                   env, fr)
            elif isinstance(x, tuple) and x[0] == "obj":
                m = self.repo.find_method(x[1], "__call__")
                if m is not None:
                    out |= self.invoke(n, m, [frozenset([x])] + pos, kw, dd, stars, env,
                                       fr, shared="S" in fv)
        if not fv:
            self.leak(n, kw, fk)
        return out

    def leak(self, n, kw, fk):
        """A generator handed to code outside the package."""
        for k, v in kw.items():
            if k in RNGNAMES and v & {"F", "S"}:
                self.event(n, fk, "argument:" + k,
                           "%s= is given a generator that is not the one seeded for "
                           "the population" % k)

    def attr_callee(self, f, env, fr):
        """self.sampler(...) where sampler is a constructor parameter with a default."""
        if not isinstance(f, ast.Attribute):
            return U
        out = set()
        for x in self.ex(f.value, env, fr):
            if isinstance(x, tuple) and x[0] == "obj":
                init = self.repo.find_method(x[1], "__init__")
                if init is None:
                    continue
                a = init.node.args
                names = [p.arg for p in a.posonlyargs + a.args]
                defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
                d = defs.get(f.attr)
                if isinstance(d, ast.Name):
                    r = self.repo.resolve(init.mod, d.id)
                    if isinstance(r, (Func, Cls)):
                        out.add(("ref", r))
        return frozenset(out)

    def method(self, n, f, o, pos, kw, dd, env, fr, fk):
        name = f.attr
        if o & {"D", "DF"}:
            if name in ("get", "pop", "setdefault") and n.args and \
                    isinstance(n.args[0], ast.Constant):
                k = n.args[0].value
                if k in ("RNG", "rng"):
                    if name == "pop":
                        self._restore(f.value, o - {"D", "DF"}, env, fr)
                    return self.lookup(o)
                if k in SEEDNAMES:
                    return frozenset(["SEED"])
                return U
            if name == "copy":
                return o
            if name == "items":
                return o
            if name == "update":
                new = set(o)
                if "RNG" in kw:
                    new -= {"D", "DF"}
                    new.add("D" if good(kw["RNG"]) else "DF")
                for p in pos + [dd]:
                    if p & {"D", "DF"}:
                        new -= {"D", "DF"}
                        new |= p & {"D", "DF"}
                self._restore(f.value, new, env, fr)
                return U
        elif name == "update" and (any(p & {"D", "DF"} for p in pos + [dd])
                                   or "RNG" in kw):
            new = set(o)
            for p in pos + [dd]:
                new |= p & {"D", "DF"}
            if "RNG" in kw:
                new.add("D" if good(kw["RNG"]) else "DF")
            self._restore(f.value, new, env, fr)
            return U
        elif name in ("get", "pop") and n.args and isinstance(n.args[0], ast.Constant):
            if n.args[0].value in SEEDNAMES:
                return frozenset(["SEED"])
            if n.args[0].value in RNGNAMES:
                return (pos[1] if len(pos) > 1 else NONE_) | self.lookup(o)
        if name == "spawn":
            return frozenset(x for x in o if x in ("G", "F", "S", "E", "SEED"))
        objs = [x for x in o if isinstance(x, tuple)]
        if name in DRAWS and not objs:
            if o & {"F", "S"}:
                self.event(n, fk, "draw:" + name,
                           "draws (%s) from %s instead of the generator seeded for "
                           "the population" % (name, "module-level state that outlives "
                                               "the population" if "S" in o else
                                               "a generator created on the spot"))
            elif o & {"G", "E"}:
                self.draws.add((fk, n.lineno, n.col_offset))
            elif name in ("uniform", "normal", "integers", "permutation", "shuffle",
                          "standard_normal", "lognormal", "poisson"):
                self.unknown.add((fk, n.lineno, name))
            if name == "sample" and not o and "random_state" not in kw and \
                    ("n" in kw or "frac" in kw):
                self.event(n, fk, "draw:sample", "rows are sampled with the global "
                           "generator (no random_state)")
            return U
        if name == "rvs" and not objs:
            return self.rvs(n, kw, fk)
        if objs:
            out = U
            hit = False
            for x in objs:
                if x[0] == "obj":
                    k = (x[2], name)
                    if k in env:
                        continue
                    m = self.repo.find_method(x[1], name)
                    if m is not None:
                        hit = True
                        out |= self.invoke(n, m, [frozenset([x])] + pos, kw, dd, False,
                                           env, fr, shared="S" in o)
            return out if hit else None
        return None

    def rvs(self, n, kw, fk):
        v = kw.get("random_state")
        if v is None:
            self.event(n, fk, "draw:rvs", "rvs() without random_state draws from the "
                       "process-global generator")
        elif v & {"F", "S", "N"}:
            self.event(n, fk, "draw:rvs", "random_state is not the generator seeded for "
                       "the population")
        elif v & {"G", "E"}:
            self.draws.add((fk, n.lineno, n.col_offset))
        else:
            self.event(n, fk, "draw:rvs", "random_state is not a generator handed in by "
                       "the population")
        return U

    def external(self, n, dot, pos, kw, dd, fk):
        p = dot.split(".")
        if p[:2] == ["numpy", "random"] and len(p) > 2 and p[2] in (
                "default_rng", "RandomState", "Generator", "PCG64", "SeedSequence",
                "Philox", "MT19937"):
            args = pos + list(kw.values())
            if args and all(a & {"SEED"} and not a & {"F", "S"} for a in args):
                return frozenset(["SEED"]) if p[2] not in (
                    "default_rng", "RandomState", "Generator") else frozenset(["E"])
            if args and all(good(a) for a in args):
                return frozenset(["G"])
            return frozenset(["F"])
        if p[:2] == ["numpy", "random"] and len(p) > 2 or p[0] in ("random", "secrets") \
                or dot in ("os.urandom", "uuid.uuid4", "uuid.uuid1"):
            self.event(n, fk, "global:" + dot,
                       "%s uses the process-global generator, not the one seeded for "
                       "the population" % dot)
            return frozenset(["F"])
        if p[-1] == "rvs":
            return self.rvs(n, kw, fk)
        if p[0] == "copy" and pos and pos[0] & {"G"}:
            return frozenset(["F"])
        if p[0] == "copy" and pos:
            return pos[0]
        self.leak(n, kw, fk)
        return U

    def construct(self, n, cls, pos, kw, dd, stars, env, fr):
        init = self.repo.find_method(cls, "__init__")
        o = self.instance(cls, env)
        if init is not None:
            self.invoke(n, init, [frozenset([o])] + pos, kw, dd, stars, env, fr)
        return frozenset([o])

    def invoke(self, n, f, pos, kw, dd, stars, env, fr, shared=False):
        if f.key not in self.relevant or len(self.stack) > self.max_depth or \
                self.stack.count(f.key) > 1:
            return U
        self.calls += 1
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        if stars:
            for x in names + [p.arg for p in a.kwonlyargs]:
                b[x] = U
        else:
            for nm, v in zip(names, pos):
                b[nm] = v
        kd = set(x for x in dd if x in ("D", "DF"))
        allp = names + [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in allp:
                b[k] = v
            elif k in ("RNG", "rng"):
                kd -= {"D", "DF"}
                kd.add("D" if good(v) else "DF" if v & {"F", "S"} else "N")
        for x in allp:
            if x not in b and x == "RNG" and dd & {"D", "DF"}:
                b[x] = self.lookup(dd)
            elif x not in b and dd and x in SEEDNAMES:
                b[x] = frozenset(["SEED"])
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs += [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)
                 if d is not None]
        for nm, d in defs:
            if nm not in b:
                v = self.ex(d, {}, {"f": f, "mod": f.mod, "ret": [], "globals": set()})
                b[nm] = v
        for x in allp:
            b.setdefault(x, U)
        if a.kwarg:
            if "RNG" in allp:
                kd -= {"D", "DF"}
            kd.discard("N")
            b[a.kwarg.arg] = frozenset(kd)
        if a.vararg:
            b[a.vararg.arg] = U
        if shared and names and f.cls is not None:
            # an object kept in module-level state: its generator is that of an
            # earlier caller
            st = {k: v for k, v in env.items() if isinstance(k, tuple)}
            for x in b.get(names[0], U):
                if isinstance(x, tuple) and x[0] == "obj" and env.get((x[2], "~")):
                    st[(x[2], "RNG")] = frozenset(["S"])
            val, _ = self.body(f, b, st)
            return val
        val, out = self.body(f, b, env)
        for k, v in out.items():
            env[k] = v
        return val
