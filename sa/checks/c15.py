"""C15: every name, attribute, symbol and argument that is used exists.

Scope resolution of every name in every function; resolution of every attribute
read on self, on instances of known classes, on modules of the package and on
installed libraries; binding of the arguments of every call whose target is
resolved to the target's signature.
"""
import ast
import os

from .. import labels, names
from ..consts import UNKNOWN
from ..names import MISSING, ext
from ..repo import AnalysisBroken, Cls, Func, Module

ASSUMPTIONS = [
    "attributes of values whose class is not known are not checked",
    "calls through variables, dispatch tables and **kwargs are bound only as far "
    "as their explicit arguments go",
    "attributes of classes that copy caller-supplied keys onto the instance are "
    "accepted when the key occurs as a text constant or option in the package",
]
DUNDER = set(dir(object)) | {"__dict__", "__class__", "__module__", "__name__",
                             "__annotations__", "__weakref__"}
INST_DUNDER = DUNDER - {"__name__", "__qualname__"}


def add_scripts(repo):
    """Parse the command-line scripts, too."""
    b = os.path.join(repo.root, "bin")
    n = 0
    for f in sorted(os.listdir(b)) if os.path.isdir(b) else ():
        p = os.path.join(b, f)
        try:
            src = open(p, encoding="utf-8").read()
        except (OSError, UnicodeDecodeError):
            continue
        if "python" not in src.split("\n", 1)[0]:
            continue
        m = Module("bin/" + f, "bin." + f, ast.parse(src), src, False)
        repo.modules[m.name] = m
        repo.by_rel[m.rel] = m
        n += 1
    return n


class Classes:
    """Attribute tables of the classes of the package."""

    def __init__(self, ctx):
        self.repo, self.consts = ctx.repo, ctx.consts
        self.tab = {}
        self.words = set()
        self.binary = self.repo.cls("BinaryStar", "posydon/binary_evol/binarystar.py")
        self.star = self.repo.cls("SingleStar", "posydon/binary_evol/singlestar.py")
        for m in self.repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    self.words.add(n.value)
                elif isinstance(n, ast.keyword) and n.arg:
                    self.words.add(n.arg)
        for sec in labels.read_ini(self.repo).values():
            self.words |= set(sec)

    def allc(self):
        for m in self.repo.modules.values():
            for st in ast.walk(m.tree):
                if isinstance(st, ast.ClassDef):
                    c = m.classes.get(st.name)
                    if c is not None and c.node is st:
                        yield c

    def stored(self, m):
        """Attributes assigned on self anywhere in the module (saved instances of
        one class are loaded into another)."""
        k = ("stored", m.rel)
        if k not in self.tab:
            self.tab[k] = {n.attr for n in ast.walk(m.tree)
                           if isinstance(n, ast.Attribute)
                           and isinstance(n.ctx, ast.Store)}
        return self.tab[k]

    def vocabulary(self, m):
        """Every attribute name an object can have; None when the module uses
        libraries that are not installed."""
        if "vocab" not in self.tab:
            self.tab["vocab"] = self._vocabulary()
        voc, opaque = self.tab["vocab"]
        if m.rel in opaque or os.path.dirname(m.rel) in {
                os.path.dirname(x) for x in opaque if "visualization" in x}:
            return None
        return voc

    def in_libraries(self, attr):
        """Does any source of an installed library in use mention .attr?"""
        import re
        if "lib" not in self.tab:
            pat = re.compile(r"(?:\.|^\s*|\()([A-Za-z_]\w*)\s*[=(,.:)\[\]]", re.M)
            seen = set()
            tops = {"numpy", "scipy", "pandas", "matplotlib", "sklearn", "astropy",
                    "h5py", "tables", "tqdm", "ast", "argparse", "subprocess",
                    "psutil", "configparser", "tarfile", "_ast", "inspect"}
            for t in tops:
                o = ext(t)
                fn = getattr(o, "__file__", None)
                if not fn or not fn.endswith(".py"):
                    continue
                files = [fn]
                if os.path.basename(fn) == "__init__.py":
                    files = []
                    for d, dirs, fs in os.walk(os.path.dirname(fn)):
                        dirs[:] = [x for x in dirs if x not in (
                            "tests", "test", "testing", "__pycache__", "f2py")]
                        files += [os.path.join(d, x) for x in fs
                                  if x.endswith((".py", ".pyi", ".pyx"))]
                for x in files:
                    try:
                        seen.update(pat.findall(open(x, encoding="utf-8",
                                                     errors="replace").read()))
                    except OSError:
                        pass
            import _ast
            for k in vars(_ast).values():
                seen |= set(getattr(k, "_fields", ()) or ())
                seen |= set(getattr(k, "_attributes", ()) or ())
            seen |= {"Get_rank", "Get_size", "bcast", "gather", "scatter", "Barrier",
                     "allgather", "rss"}
            self.tab["lib"] = seen
        return attr in self.tab["lib"]

    def _vocabulary(self):
        import inspect
        import sys
        voc, opaque = set(self.words), set()
        for b in (str, bytes, list, dict, set, frozenset, tuple, int, float, complex,
                  object, type, BaseException, Exception, OSError, ImportError,
                  SyntaxError, type(len), type(lambda: 0), type(sys), range, slice,
                  memoryview, property, StopIteration, UnicodeDecodeError):
            voc |= set(dir(b))
        g = (x for x in ())
        voc |= set(dir(g))
        f = compile("0", "x", "eval")
        voc |= set(dir(f)) | set(dir(sys._getframe())) | {
            "tb_frame", "tb_lineno", "tb_next"}
        mods = set()
        for m in self.repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    names_ = [a.name for a in n.names]
                elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                    names_ = [n.module]
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    voc.add(n.name)
                    continue
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    voc.add(n.attr)
                    continue
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                        and n.func.attr == "add_argument":
                    for a in n.args:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            voc.add(a.value.lstrip("-").replace("-", "_"))
                    continue
                else:
                    continue
                for x in names_:
                    top = x.split(".")[0]
                    if top == "posydon":
                        continue
                    if ext(top) is UNKNOWN or ext(top) is MISSING:
                        opaque.add(m.rel)
                    else:
                        mods.add(x)
                        mods.add(top)
            for c in m.classes.values():
                own, _ = self.local(c)
                voc |= own
                voc |= set(c.assigns)
        for x in ("matplotlib.figure", "matplotlib.axes", "matplotlib.axis",
                  "matplotlib.lines", "matplotlib.colorbar", "matplotlib.legend",
                  "matplotlib.text", "matplotlib.patches", "matplotlib.cm",
                  "matplotlib.collections", "matplotlib.spines", "numpy.random",
                  "scipy.interpolate", "scipy.integrate", "scipy.optimize",
                  "scipy.stats", "scipy.spatial", "pandas.core.groupby",
                  "pandas.io.pytables", "pandas.core.indexing", "h5py.h5f",
                  "sklearn.neighbors", "sklearn.gaussian_process", "io", "tempfile",
                  "pandas.core.strings.accessor", "matplotlib.transforms",
                  "matplotlib.ticker", "mpl_toolkits.mplot3d"):
            mods.add(x)
        for x in mods:
            o = ext(x)
            if o is UNKNOWN or o is MISSING:
                continue
            voc |= set(dir(o))
            for nm in dir(o):
                try:
                    k = getattr(o, nm)
                except Exception:
                    continue
                if inspect.isclass(k):
                    voc |= set(dir(k))
                    voc |= set(getattr(k, "__annotations__", {}) or {})
                elif inspect.ismodule(k):
                    voc |= set(dir(k))
        # attributes of result objects that are set on instances only
        voc |= {"x", "y", "t", "success", "message", "fun", "status", "t_events",
                "y_events", "sol", "nfev", "statistic", "pvalue", "classes_",
                "components_", "explained_variance_ratio_", "labels_", "st_size",
                "args", "attrs", "dest", "returncode", "stdout", "stderr", "simplices"}
        return voc, opaque

    def stored_evol(self):
        """Attributes that the evolution steps put on binaries and stars."""
        if "evol" not in self.tab:
            self.tab["evol"] = set().union(*[
                self.stored(m) for m in self.repo.modules.values()
                if m.rel.startswith("posydon/binary_evol/")])
        return self.tab["evol"]

    def local(self, c):
        """(own attributes, open?) of one class body."""
        if c.key in self.tab:
            return self.tab[c.key]
        own, opn = set(), False
        self.tab[c.key] = (own, False)
        for st in ast.walk(c.node):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                own.add(st.name)
            elif isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
                pass
        for st in c.node.body:
            for n in ast.walk(st):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    break
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    own.add(n.id)
        for f in [f for f in c.mod.all_funcs if f.cls is c]:
            selfs = {"self", "cls"}
            if f.parent is None and f.node.args.args and \
                    "staticmethod" not in f.decorators():
                selfs = {f.node.args.args[0].arg, "self", "cls"}
            new = {n.targets[0].id for n in ast.walk(f.node)
                   if isinstance(n, ast.Assign) and len(n.targets) == 1
                   and isinstance(n.targets[0], ast.Name)
                   and isinstance(n.value, ast.Call)
                   and isinstance(n.value.func, ast.Name)
                   and n.value.func.id in (c.name, "cls")}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) \
                        and isinstance(n.value, ast.Name) \
                        and n.value.id in selfs | new:
                    own.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                        n.func.id == "setattr" and len(n.args) == 3 and \
                        isinstance(n.args[0], ast.Name) and n.args[0].id in selfs:
                    ks = self.keys_of(n.args[1], f, c)
                    if ks is None:
                        opn = True
                    else:
                        own |= ks
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                        and n.func.attr == "update" and \
                        isinstance(n.func.value, ast.Attribute) and \
                        n.func.value.attr == "__dict__":
                    opn = True
        for a in ("__getattr__", "__getattribute__"):
            if a in own:
                opn = "full"
        self.tab[c.key] = (own, opn)
        return own, opn

    def keys_of(self, e, f, c):
        """Constant names an attribute-name expression can take, or None."""
        if isinstance(e, ast.Constant):
            return {e.value}
        loops = {}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.comprehension)):
                t, it = n.target, n.iter
                nm = None
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
                        and it.func.attr in ("items", "keys"):
                    if it.func.attr == "items" and isinstance(t, ast.Tuple) and \
                            isinstance(t.elts[0], ast.Name):
                        nm = t.elts[0].id
                    elif isinstance(t, ast.Name):
                        nm = t.id
                    it = it.func.value
                elif isinstance(t, ast.Name):
                    nm = t.id
                if nm:
                    loops.setdefault(nm, []).append(it)
        if isinstance(e, ast.Name) and e.id in loops:
            out = set()
            for it in loops[e.id]:
                v = self.const(it, f, c)
                if v is None:
                    return None
                out |= v
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.keys_of(e.left, f, c), self.keys_of(e.right, f, c)
            if a is not None and b is not None:
                return {x + y for x in a for y in b
                        if isinstance(x, str) and isinstance(y, str)}
        if isinstance(e, ast.JoinedStr):
            out = {""}
            for p in e.values:
                ks = self.keys_of(p.value, f, c) if isinstance(
                    p, ast.FormattedValue) else {p.value}
                if ks is None:
                    return None
                out = {x + str(y) for x in out for y in ks}
            return out
        return None

    def const(self, it, f, c):
        if isinstance(it, (ast.List, ast.Tuple)):
            vs = [x.value if isinstance(x, ast.Constant) else None for x in it.elts]
            return None if None in vs else set(vs)
        v = UNKNOWN
        if isinstance(it, ast.Attribute) and isinstance(it.value, ast.Name) and \
                it.value.id in ("self", "cls"):
            out = set()
            ok = False
            for k in [c] + self.repo.subclasses(c):
                for b in self.repo.mro(k):
                    if it.attr in b.assigns:
                        v = self.consts.class_attr(b, it.attr)
                        if v is UNKNOWN or v is None:
                            return None
                        out |= set(v)
                        ok = True
                        break
            return out if ok else None
        if isinstance(it, ast.Name):
            v = self.consts.get(f.mod.rel, it.id)
        if v is UNKNOWN or v is None:
            return None
        try:
            return set(v)
        except TypeError:
            return None

    def attrs(self, c):
        """(attributes an instance can have, open?)."""
        k = ("attrs", c.key)
        if k not in self.tab:
            self.tab[k] = self._attrs(c)
        return self.tab[k]

    def _attrs(self, c):
        own, opn = set(), False
        for k in self.repo.mro(c):
            o, p = self.local(k)
            own |= o
            opn = opn or p
        for s in self.repo.subclasses(c):
            o, p = self.local(s)
            own |= o
            if p:
                opn = opn or p
        for k in self.repo.mro(c):
            for b in k.bases:
                r = self.repo.resolve_expr(k.mod, b)
                if isinstance(r, Cls):
                    continue
                o = UNKNOWN
                if isinstance(r, tuple) and r[0] == "ext":
                    o = ext(r[1])
                elif isinstance(b, ast.Name):
                    import builtins
                    o = getattr(builtins, b.id, UNKNOWN)
                if o is UNKNOWN or o is MISSING:
                    opn = "full"
                else:
                    own |= set(dir(o))
                    if "__getattr__" in dir(o):
                        opn = "full"
            if any(kw.arg == "metaclass" for kw in k.node.keywords):
                pass
        return own, opn


def check(ctx):
    repo = ctx.repo
    ctx.rule("N-name", "every name read in a scope is bound in it, in an enclosing "
             "scope, in the module or is a builtin", 10000)
    ctx.rule("N-import", "every symbol imported from a module of the package or an "
             "installed library exists there", 600)
    ctx.rule("N-modattr", "every attribute read on an imported module exists in it",
             1300)
    ctx.rule("N-self", "every attribute read on self is defined by the class, a base "
             "or a subclass", 3000)
    ctx.rule("N-inst", "every attribute read on an object whose class is known is "
             "defined by the class", 200)
    ctx.rule("N-call", "every call of a resolved function, method or class passes "
             "arguments its signature accepts", 1500)
    ctx.rule("N-attr", "every attribute read on a value of unknown class is one that "
             "some class of the package or of the libraries in use has", 3000)
    ctx.rule("N-isinst", "the second argument of isinstance and issubclass and the "
             "class of an except clause is a class", 150)
    n = add_scripts(repo)
    ctx.count("scripts_parsed", n)
    if n < 5:
        raise AnalysisBroken("command-line scripts not found")
    C = Classes(ctx)
    cls_types = {}
    for m in list(repo.modules.values()):
        for nm, q, ln in names.undefined_names(m, repo):
            ctx.find("N-name", "%s:%s:%s" % (m.rel, q, nm), "%s:%d" % (m.rel, ln),
                     "name '%s' is not defined anywhere it could be found" % nm)
        ctx.instance("N-name", None, sum(
            1 for x in ast.walk(m.tree) if isinstance(x, ast.Name)))
        imports(ctx, m)
        Walker(ctx, m, C, cls_types).run()


def guarded_imports(tree):
    """Imports inside try: ... except ImportError."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            for s in n.body:
                for x in ast.walk(s):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        out.add(x)
    return out


def imports(ctx, m):
    repo = ctx.repo
    guarded = guarded_imports(m.tree)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import) and n not in guarded:
            for a in n.names:
                top = a.name.split(".")[0]
                ctx.instance("N-import", None)
                if top == "posydon":
                    if a.name not in repo.modules:
                        ctx.find("N-import", m.rel + ":" + a.name,
                                 "%s:%d" % (m.rel, n.lineno),
                                 "module %s does not exist" % a.name)
                elif ext(a.name) is MISSING:
                    ctx.find("N-import", m.rel + ":" + a.name,
                             "%s:%d" % (m.rel, n.lineno),
                             "module %s does not exist" % a.name)
        elif isinstance(n, ast.ImportFrom) and n not in guarded:
            base = n.module or ""
            if n.level:
                parts = m.name.split(".")
                if not m.is_pkg:
                    parts = parts[:-1]
                if n.level > 1:
                    parts = parts[:-(n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            for a in n.names:
                if a.name == "*":
                    continue
                ctx.instance("N-import", None)
                if base.split(".")[0] == "posydon":
                    if base in repo.modules:
                        t = repo.modules[base]
                        ok = base + "." + a.name in repo.modules or \
                            module_has(repo, t, a.name)
                    else:
                        ok = os.path.isdir(os.path.join(
                            repo.root, *base.split("."))) and \
                            base + "." + a.name in repo.modules
                        ok = ok or ".unit_tests" in base
                elif base:
                    ok = ext(base + "." + a.name) is not MISSING
                else:
                    ok = True
                if not ok:
                    ctx.find("N-import", "%s:%s.%s" % (m.rel, base, a.name),
                             "%s:%d" % (m.rel, n.lineno),
                             "%s has no symbol %s" % (base, a.name))


def module_has(repo, t, name):
    if name in names.BUILTINS and name.startswith("__"):
        return True
    if repo.resolve(t, name) is not None:
        return True
    if name in t.functions or name in t.classes or name in t.imports or \
            name in t.assigns:
        return True
    for n in ast.walk(t.tree):
        if isinstance(n, ast.Global) and name in n.names:
            return True
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) \
                and (n.module or "") not in repo.modules:
            return True
    return False


class Walker:
    def __init__(self, ctx, m, C, cls_types):
        self.ctx, self.m, self.C, self.repo = ctx, m, C, ctx.repo
        self.cls_types = cls_types

    def run(self):
        self.funcs = {f.node: f for f in self.m.all_funcs}
        self.visit_scope(self.m.tree, None, {})

    # -------------------------------------------------------------- typing
    def attr_type(self, c, attr):
        """Class of self.attr when every assignment agrees."""
        key = (c.key, attr)
        if key in self.cls_types:
            return self.cls_types[key]
        self.cls_types[key] = None
        res, bad = None, False
        for k in self.repo.mro(c) + self.repo.subclasses(c):
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    tg = n.targets if isinstance(n, ast.Assign) else (
                        [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign))
                        else [])
                    for t in tg:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and x.attr == attr and \
                                    isinstance(x.ctx, ast.Store) and isinstance(
                                        x.value, ast.Name) and x.value.id == "self":
                                v = n.value if x is t else None
                                r = self.value_cls(v, f.mod) if v is not None else None
                                if isinstance(v, ast.Constant) and v.value is None:
                                    continue
                                if r is None or (res is not None and r is not res):
                                    bad = True
                                else:
                                    res = r
            if attr in k.assigns and not (isinstance(k.assigns[attr], ast.Constant)):
                bad = True
        if bad:
            res = None
        self.cls_types[key] = res
        return res

    def value_cls(self, v, mod):
        if isinstance(v, ast.Call):
            r = self.repo.resolve_expr(mod, v.func)
            if isinstance(r, Cls):
                return r
        return None

    def local_types(self, node, f):
        """Locals of a scope holding instances of one known class."""
        out, bad = {}, set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            bad.add(x.arg)
        for n in ast.walk(node):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                for x in n.args.args:
                    bad.add(x.arg)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.setdefault(n.id, [])
        for n in ast.walk(node):
            pairs = []
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        pairs.append((t, n.value))
            elif isinstance(n, ast.withitem) and isinstance(
                    n.optional_vars, ast.Name):
                # only managers that hand out themselves
                k = self.value_cls(n.context_expr, self.m)
                e = self.repo.find_method(k, "__enter__") if k else None
                if e is not None and all(
                        isinstance(r.value, ast.Name) and r.value.id == "self"
                        for r in ast.walk(e.node) if isinstance(r, ast.Return)):
                    pairs.append((n.optional_vars, n.context_expr))
            for t, v in pairs:
                out[t.id].append((t, self.value_cls(v, self.m)))
        stores = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
        res = {}
        for k, vs in out.items():
            if k in bad or not vs or len(vs) != stores.get(k):
                continue
            cs = {v[1] for v in vs}
            if len(cs) == 1 and None not in cs:
                c = cs.pop()
                # context managers may return something else
                res[k] = c
        return res

    def convention(self, e):
        """Binaries and stars of the evolution steps, by their parameter name."""
        if not self.m.rel.startswith("posydon/binary_evol/"):
            return None
        t = ast.unparse(e)
        if t in ("binary", "self.binary"):
            return self.C.binary
        if t in ("star", "star1", "star2", "self.primary", "self.secondary",
                 "primary", "secondary", "star_1", "star_2", "donor_star",
                 "comp_star", "star_base", "merged_star", "comp") or \
                t in ("binary.star_1", "binary.star_2", "self.binary.star_1",
                      "self.binary.star_2"):
            return self.C.star
        return None

    def type_of(self, e, f, local):
        c = self.convention(e) if f is not None else None
        if c is not None:
            return c
        if isinstance(e, ast.Name):
            if e.id in local:
                return local[e.id]
            if f is not None and f.cls is not None and e.id == "self":
                return None
            return None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and \
                e.value.id == "self" and f is not None and f.cls is not None:
            return self.attr_type(f.cls, e.attr)
        if isinstance(e, ast.Call):
            return self.value_cls(e, self.m)
        return None

    # -------------------------------------------------------------- walking
    def shadowed(self, name, chain):
        """Is a global name rebound in an enclosing function scope?"""
        for nd in chain:
            a = nd.args
            if name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] or (
                    a.vararg and a.vararg.arg == name) or (
                    a.kwarg and a.kwarg.arg == name):
                return True
            for n in ast.walk(nd):
                if isinstance(n, ast.Name) and n.id == name and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    return True
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        if (al.asname or al.name.split(".")[0]) == name:
                            return True
                if isinstance(n, ast.ExceptHandler) and n.name == name:
                    return True
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not nd \
                        and n.name == name:
                    return True
        return False

    def root(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return e.id if isinstance(e, ast.Name) else None

    def visit_scope(self, node, f, local, chain=()):
        body = node.body if isinstance(node.body, list) else [node.body]
        hasattrs = set()
        for n in ast.walk(node) if f is not None else ():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in ("hasattr", "getattr") and len(n.args) >= 2:
                for s in ast.walk(n.args[1]):
                    if isinstance(s, ast.Constant):
                        hasattrs.add(s.value)
        self.hasattrs = hasattrs
        todo = list(body)
        own = []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                todo += n.decorator_list + n.args.defaults + [
                    d for d in n.args.kw_defaults if d]
                ff = self.funcs.get(n)
                saved = self.hasattrs
                lt = dict(local)
                for p in n.args.args:
                    lt.pop(p.arg, None)
                lt.update(self.local_types(n, ff))
                self.visit_scope(n, ff, lt, chain + (n,))
                self.hasattrs = saved
                continue
            if isinstance(n, ast.ClassDef):
                todo += n.decorator_list + n.bases + n.body
                continue
            own.append(n)
            todo += list(ast.iter_child_nodes(n))
        self._sh = {}
        for n in own:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in ("isinstance", "issubclass") and len(n.args) == 2:
                self.is_class(n.args[1], n, f, local, chain)
            if isinstance(n, ast.ExceptHandler) and n.type is not None:
                self.is_class(n.type, n, f, local, chain)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.attribute(n, f, local, chain)
            if isinstance(n, ast.Call):
                self.call(n, f, local, chain)

    def is_class(self, e, n, f, local, chain):
        import inspect
        for x in e.elts if isinstance(e, ast.Tuple) else [e]:
            r = self.root(x)
            if r is None or r in local or self.is_shadowed(r, chain):
                continue
            b = self.repo.resolve_expr(self.m, x)
            bad = False
            if isinstance(b, Func) or isinstance(b, Module):
                bad = True
            elif isinstance(b, tuple) and b[0] == "ext":
                o = ext(b[1])
                if o is UNKNOWN or o is MISSING:
                    continue
                bad = not inspect.isclass(o) and not isinstance(o, tuple)
                if "typing" in str(type(o)) or "UnionType" in str(type(o)):
                    bad = False
            self.ctx.instance("N-isinst", None)
            if bad:
                self.ctx.find("N-isinst", "%s:%s:%s" % (
                    self.m.rel, self.q(f), ast.unparse(x)),
                    "%s:%d" % (self.m.rel, getattr(n, "lineno", 0)),
                    "'%s' is not a class" % ast.unparse(x))

    def is_shadowed(self, name, chain):
        k = (name, chain)
        if k not in self._sh:
            self._sh[k] = self.shadowed(name, chain)
        return self._sh[k]

    def q(self, f):
        return f.qual if f is not None else "<module>"

    def attribute(self, n, f, local, chain):
        ctx, repo = self.ctx, self.repo
        r = self.root(n.value)
        where = "%s:%d" % (self.m.rel, n.lineno)
        # self.attr
        if isinstance(n.value, ast.Name) and f is not None and f.cls is not None \
                and self.is_self(n.value.id, f):
            ctx.instance("N-self", None)
            own, opn = self.C.attrs(f.cls)
            if not self.defined(n.attr, own, opn, f, is_cls=n.value.id == "cls"):
                ctx.find("N-self", "%s:%s.%s" % (self.m.rel, f.cls.name, n.attr),
                         where, "class %s has no attribute '%s' (read in %s)" % (
                             f.cls.name, n.attr, self.q(f)))
            return
        if r is not None and r not in local and not self.is_shadowed(r, chain):
            b = repo.resolve_expr(self.m, n.value)
            if isinstance(b, Module):
                ctx.instance("N-modattr", None)
                if not (b.name + "." + n.attr in repo.modules
                        or module_has(repo, b, n.attr)):
                    ctx.find("N-modattr", "%s:%s.%s" % (self.m.rel, b.name, n.attr),
                             where, "module %s defines no '%s'" % (b.rel, n.attr))
                return
            if isinstance(b, tuple) and b[0] == "ext":
                o = ext(b[1])
                if o is MISSING or o is UNKNOWN:
                    return
                import inspect
                if inspect.ismodule(o) or inspect.isclass(o):
                    ctx.instance("N-modattr", None)
                    if ext(b[1] + "." + n.attr) is MISSING:
                        ctx.find("N-modattr", "%s:%s.%s" % (
                            self.m.rel, b[1], n.attr), where,
                            "%s has no attribute '%s'" % (b[1], n.attr))
                return
            if isinstance(b, Cls):
                ctx.instance("N-inst", None)
                own, opn = self.C.attrs(b)
                if not self.defined(n.attr, own, opn, f, is_cls=True):
                    ctx.find("N-inst", "%s:%s.%s" % (self.m.rel, b.name, n.attr),
                             where, "class %s has no attribute '%s'" % (
                                 b.name, n.attr))
                return
        t = self.type_of(n.value, f, local)
        if isinstance(t, Cls):
            ctx.instance("N-inst", None)
            own, opn = self.C.attrs(t)
            if self.convention(n.value) is not None:
                more = self.C.stored_evol()
            else:
                more = self.stored_on(n.value, f) if n.attr not in own else set()
            if not self.defined(n.attr, own | more, opn, f) or (
                    t in (self.C.binary, self.C.star) and n.attr.endswith("_history")
                    and not self.history_of(t, n.attr, own | more)):
                ctx.find("N-inst", "%s:%s.%s" % (self.m.rel, t.name, n.attr), where,
                         "an instance of %s has no attribute '%s' (read in %s)" % (
                             t.name, n.attr, self.q(f)))

        elif not (r is not None and not self.is_shadowed(r, chain) and isinstance(
                repo.resolve_expr(self.m, n.value), (Cls, Module))):
            v = self.C.vocabulary(self.m)
            if v is not None:
                ctx.instance("N-attr", None)
                if n.attr not in v and n.attr not in self.hasattrs and \
                        not self.C.in_libraries(n.attr):
                    ctx.find("N-attr", "%s:%s.%s" % (
                        self.m.rel, self.q(f), n.attr), where,
                        "no class of the package or its libraries has an attribute "
                        "'%s' (read on %s in %s)" % (
                            n.attr, ast.unparse(n.value)[:40], self.q(f)))

    def history_of(self, t, attr, own):
        """Is there a property whose history this is (when the list is known)?"""
        v = self.ctx.consts.get(t.mod, "STARPROPERTIES" if t is self.C.star
                                else "BINARYPROPERTIES")
        if not isinstance(v, (list, tuple)):
            return True
        return attr in own or attr in self.hasattrs or attr[:-8] in own | set(v)

    def stored_on(self, e, f):
        """Attributes assigned from outside on the same expression."""
        txt = ast.unparse(e)
        out = set()
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                    ast.unparse(n.value) == txt:
                out.add(n.attr)
        return out

    def is_self(self, name, f):
        g = f
        while g.parent is not None:
            if name in [a.arg for a in g.node.args.args]:
                return False
            g = g.parent
        if "staticmethod" in g.decorators():
            return False
        a = g.node.args.posonlyargs + g.node.args.args
        return bool(a) and a[0].arg == name

    def defined(self, attr, own, opn, f, is_cls=False):
        if attr in own or opn == "full":
            return True
        if attr in (DUNDER | set(dir(type)) if is_cls else INST_DUNDER):
            return True
        if attr in self.hasattrs:
            return True
        if opn and (attr in self.C.words or attr in self.C.stored(self.m) or (
                attr.endswith("_history") and attr[:-8] in own | self.C.words)):
            return True
        return False

    def call(self, n, f, local, chain):
        ctx, repo = self.ctx, self.repo
        fn = n.func
        sig, what = None, None
        tgt = None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and \
                f is not None and f.cls is not None and self.is_self(fn.value.id, f):
            cands = self.methods(f.cls, fn.attr)
            if cands is None:
                return
            for c in cands:
                d = c.decorators()
                if "property" in d or any(x not in ("staticmethod", "classmethod")
                                          for x in d):
                    return
                drop = 0 if "staticmethod" in d else 1
                self.bind(n, names.sig_of(c.node, drop), c.qual, f, c)
            return
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and \
                isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" \
                and f is not None and f.cls is not None:
            for k in repo.mro(f.cls)[1:]:
                if fn.attr in k.methods:
                    self.bind(n, names.sig_of(k.methods[fn.attr].node, 1),
                              k.methods[fn.attr].qual, f, k.methods[fn.attr])
                    return
            return
        r = self.root(fn)
        if r is not None and r not in local and not self.is_shadowed(r, chain):
            b = repo.resolve_expr(self.m, fn)
            if isinstance(b, Func):
                if b.cls is not None:
                    d = b.decorators()
                    if "classmethod" in d:
                        self.bind(n, names.sig_of(b.node, 1), b.qual, f, b)
                    elif "staticmethod" in d:
                        self.bind(n, names.sig_of(b.node, 0), b.qual, f, b)
                    else:       # Base.__init__(self, ...)
                        self.bind(n, names.sig_of(b.node, 0), b.qual, f, b)
                elif not b.decorators():
                    self.bind(n, names.sig_of(b.node), b.qual, f, b)
                return
            if isinstance(b, Cls):
                self.bind_cls(n, b, f)
                return
            if isinstance(b, tuple) and b[0] == "ext":
                o = ext(b[1])
                if o is not MISSING and o is not UNKNOWN:
                    s = names.ext_sig(o)
                    if s is not None:
                        self.bind(n, s, b[1], f, None)
                return
        if isinstance(fn, ast.Attribute):
            t = self.type_of(fn.value, f, local)
            if isinstance(t, Cls):
                m = repo.find_method(t, fn.attr)
                if m is not None and all(x in ("staticmethod", "classmethod")
                                         for x in m.decorators()):
                    self.bind(n, names.sig_of(
                        m.node, 0 if "staticmethod" in m.decorators() else 1),
                        m.qual, f, m)

    def methods(self, c, name):
        """Methods self.name() can dispatch to in c (None: not a plain method)."""
        k = ("methods", c.key, name)
        if k not in self.C.tab:
            self.C.tab[k] = self._methods(c, name)
        return self.C.tab[k]

    def _methods(self, c, name):
        for k in [c] + self.repo.subclasses(c):
            for x in self.repo.mro(k):
                for ff in x.methods.values():
                    for s in ast.walk(ff.node):
                        if isinstance(s, ast.Attribute) and s.attr == name and \
                                isinstance(s.ctx, ast.Store) and isinstance(
                                    s.value, ast.Name) and s.value.id == "self":
                            return None
                if name in x.assigns:
                    return None
        m = self.repo.find_method(c, name)
        return [m] if m is not None else None

    def bind_cls(self, n, b, f):
        init = self.repo.find_method(b, "__init__")
        if self.repo.find_method(b, "__new__") is not None:
            return
        if init is None:
            if any(not isinstance(self.repo.resolve_expr(k.mod, x), Cls)
                   and not (isinstance(x, ast.Name) and x.id == "object")
                   for k in self.repo.mro(b) for x in k.bases):
                return
            if b.node.decorator_list:
                return
            sig = names.Sig([], 0, [], [], False, False)
        else:
            sig = names.sig_of(init.node, 1)
        self.bind(n, sig, b.name, f, b)

    def bind(self, n, sig, what, f, tgt):
        self.ctx.instance("N-call", None)
        p = names.call_problem(n, sig)
        if p:
            self.ctx.find("N-call", "%s:%s:%s:%s" % (
                self.m.rel, self.q(f), what, p),
                "%s:%d" % (self.m.rel, n.lineno), "call of %s %s" % (what, p))
