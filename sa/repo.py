"""Program database: parses every non-test module of the package under study.

Nothing of the package is imported or executed; everything is decided from the
syntax trees of the current working tree.
"""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "posydon"


class AnalysisBroken(Exception):
    """An anchor the analysis depends on cannot be found."""


class Func:
    __slots__ = ("mod", "name", "qual", "node", "cls", "parent")

    def __init__(self, mod, name, qual, node, cls, parent=None):
        self.mod, self.name, self.qual = mod, name, qual
        self.node, self.cls, self.parent = node, cls, parent

    @property
    def key(self):
        return self.mod.rel + ":" + self.qual

    def decorators(self):
        out = []
        for d in self.node.decorator_list:
            if isinstance(d, ast.Name):
                out.append(d.id)
            elif isinstance(d, ast.Attribute):
                out.append(d.attr)
            elif isinstance(d, ast.Call):
                f = d.func
                out.append(f.id if isinstance(f, ast.Name) else
                           getattr(f, "attr", "?"))
        return out

    def __repr__(self):
        return "<Func %s>" % self.key


class Cls:
    __slots__ = ("mod", "name", "node", "methods", "bases", "assigns")

    def __init__(self, mod, name, node):
        self.mod, self.name, self.node = mod, name, node
        self.methods, self.assigns = {}, {}
        self.bases = node.bases

    @property
    def key(self):
        return self.mod.rel + ":" + self.name

    def __repr__(self):
        return "<Cls %s>" % self.key


class Module:
    def __init__(self, rel, dotted, tree, src, is_pkg):
        self.rel, self.name, self.tree, self.src = rel, dotted, tree, src
        self.is_pkg = is_pkg
        self.functions, self.classes = {}, {}
        self.imports = {}      # local name -> ("mod", dotted) | ("from", dotted, attr)
        self.assigns = {}      # global name -> list of statements (in order)
        self.all_funcs = []    # every def, nested included
        self._index()

    def _index(self):
        def visit_body(body, prefix, cls, parent):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + st.name
                    f = Func(self, st.name, q, st, cls, parent)
                    self.all_funcs.append(f)
                    if cls is not None and parent is None:
                        # keep getters for properties; setters separately
                        decs = f.decorators()
                        if "setter" in decs:
                            cls.methods[st.name + ".setter"] = f
                        else:
                            cls.methods[st.name] = f
                    elif parent is None and cls is None:
                        self.functions[st.name] = f
                    visit_body(st.body, q + ".", cls, f)
                elif isinstance(st, ast.ClassDef):
                    c = Cls(self, st.name, st)
                    if parent is None and cls is None:
                        self.classes[st.name] = c
                    for s2 in st.body:
                        if isinstance(s2, ast.Assign):
                            for t in s2.targets:
                                if isinstance(t, ast.Name):
                                    c.assigns[t.id] = s2.value
                        elif isinstance(s2, ast.AnnAssign) and s2.value is not None \
                                and isinstance(s2.target, ast.Name):
                            c.assigns[s2.target.id] = s2.value
                    visit_body(st.body, prefix + st.name + ".", c, None)
                else:
                    for sub in child_blocks(st):
                        visit_body(sub, prefix, cls, parent)

        visit_body(self.tree.body, "", None, None)

        def imps(body):
            for st in body:
                if isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            self.imports[a.asname] = ("mod", a.name)
                        else:
                            top = a.name.split(".")[0]
                            self.imports[top] = ("mod", top)
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ""
                    if st.level:
                        parts = self.name.split(".")
                        if not self.is_pkg:
                            parts = parts[:-1]
                        if st.level > 1:
                            parts = parts[:-(st.level - 1)]
                        base = ".".join(parts + ([st.module] if st.module else []))
                    for a in st.names:
                        self.imports[a.asname or a.name] = ("from", base, a.name)
                else:
                    if not isinstance(st, (ast.FunctionDef, ast.ClassDef,
                                           ast.AsyncFunctionDef)):
                        for sub in child_blocks(st):
                            imps(sub)
        imps(self.tree.body)

        def assigns(body):
            for st in body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                self.assigns.setdefault(n.id, []).append(st)
                elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
                    if isinstance(st.target, ast.Name):
                        self.assigns.setdefault(st.target.id, []).append(st)
                elif isinstance(st, (ast.FunctionDef, ast.ClassDef,
                                     ast.AsyncFunctionDef)):
                    continue
                else:
                    if isinstance(st, (ast.For,)):
                        for n in ast.walk(st.target):
                            if isinstance(n, ast.Name):
                                self.assigns.setdefault(n.id, []).append(st)
                    if isinstance(st, (ast.With,)):
                        for it in st.items:
                            if it.optional_vars is not None:
                                for n in ast.walk(it.optional_vars):
                                    if isinstance(n, ast.Name):
                                        self.assigns.setdefault(n.id, []).append(st)
                    for sub in child_blocks(st):
                        assigns(sub)
        assigns(self.tree.body)

    def __repr__(self):
        return "<Module %s>" % self.rel


def child_blocks(st):
    out = []
    for f in ("body", "orelse", "finalbody"):
        b = getattr(st, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            out.append(b)
    for h in getattr(st, "handlers", []) or []:
        out.append(h.body)
    for c in getattr(st, "cases", []) or []:
        out.append(c.body)
    return out


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}     # dotted -> Module
        self.by_rel = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken("package directory %s missing" % base)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs
                             if x not in ("__pycache__", "unit_tests", "tests"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src)
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                m = Module(rel, ".".join(parts), tree, src, is_pkg)
                self.modules[m.name] = m
                self.by_rel[rel] = m
        self._cls_by_name = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self._cls_by_name.setdefault(c.name, []).append(c)

    # ------------------------------------------------------------------ lookup
    def module(self, rel):
        if rel in self.by_rel:
            return self.by_rel[rel]
        if rel in self.modules:
            return self.modules[rel]
        raise AnalysisBroken("module %s not found" % rel)

    def resolve(self, mod, name, _seen=None):
        """Resolve a global name of a module.

        Returns Func | Cls | Module | ("ext", dotted) | ("var", Module, name) |
        None.
        """
        _seen = _seen or set()
        if (mod.name, name) in _seen:
            return None
        _seen.add((mod.name, name))
        if name in mod.functions:
            return mod.functions[name]
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == "mod":
                return self.modules.get(imp[1], ("ext", imp[1]))
            base, attr = imp[1], imp[2]
            if base + "." + attr in self.modules:
                return self.modules[base + "." + attr]
            if base in self.modules:
                r = self.resolve(self.modules[base], attr, _seen)
                if r is not None:
                    return r
                return None
            return ("ext", base + "." + attr)
        if name in mod.assigns:
            return ("var", mod, name)
        # star imports
        for k, imp in mod.imports.items():
            if imp[0] == "from" and imp[2] == "*" and imp[1] in self.modules:
                r = self.resolve(self.modules[imp[1]], name, _seen)
                if r is not None:
                    return r
        return None

    def resolve_attr(self, r, attr):
        """Resolve r.attr where r came from resolve()."""
        if isinstance(r, Module):
            sub = r.name + "." + attr
            if sub in self.modules:
                return self.modules[sub]
            return self.resolve(r, attr)
        if isinstance(r, tuple) and r[0] == "ext":
            return ("ext", r[1] + "." + attr)
        if isinstance(r, Cls):
            m = self.find_method(r, attr)
            if m is not None:
                return m
        return None

    def resolve_expr(self, mod, node):
        """Resolve a dotted expression of global names."""
        if isinstance(node, ast.Name):
            return self.resolve(mod, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(mod, node.value)
            if b is None:
                return None
            return self.resolve_attr(b, node.attr)
        return None

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            for b in c.bases:
                r = self.resolve_expr(c.mod, b)
                if isinstance(r, Cls):
                    todo.append(r)
        return out

    def ext_bases(self, cls):
        out = []
        for c in self.mro(cls):
            for b in c.bases:
                r = self.resolve_expr(c.mod, b)
                if not isinstance(r, Cls):
                    out.append(ast.unparse(b))
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def subclasses(self, cls):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if c is not cls and cls in self.mro(c):
                    out.append(c)
        return out

    def func(self, rel, qual):
        m = self.module(rel)
        for f in m.all_funcs:
            if f.qual == qual:
                return f
        raise AnalysisBroken("function %s not found in %s" % (qual, rel))

    def find_func(self, qual, prefer=None):
        """Find a function by qualified name anywhere (survives file moves)."""
        hits = [f for m in self.modules.values() for f in m.all_funcs
                if f.qual == qual]
        if prefer:
            p = [f for f in hits if f.mod.rel == prefer]
            if p:
                return p[0]
        if len(hits) == 1:
            return hits[0]
        if not hits:
            raise AnalysisBroken("function %s not found" % qual)
        raise AnalysisBroken("function %s ambiguous: %s" % (qual, hits))

    def cls(self, name, prefer=None):
        hits = self._cls_by_name.get(name, [])
        if prefer:
            p = [c for c in hits if c.mod.rel == prefer]
            if p:
                return p[0]
        if len(hits) == 1:
            return hits[0]
        raise AnalysisBroken("class %s: %d candidates" % (name, len(hits)))

    def functions(self):
        for m in self.modules.values():
            for f in m.all_funcs:
                yield f
