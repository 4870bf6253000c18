"""Name, attribute and call-signature resolution over the whole package.

Nothing of the package is imported; installed third-party modules are imported
only to ask them which names and signatures they offer.
"""
import ast
import builtins
import importlib
import inspect
import os
import symtable
import warnings

from .consts import UNKNOWN
from .repo import Cls, Func, Module

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__",
                                 "__spec__", "__package__", "__builtins__",
                                 "__loader__", "WindowsError"}
EXT_OK = ("numpy", "scipy", "pandas", "matplotlib", "sklearn", "astropy", "h5py",
          "tables", "tqdm", "os", "sys", "ast", "shutil", "time", "glob", "re",
          "json", "copy", "pickle", "itertools", "functools", "math", "warnings",
          "argparse", "subprocess", "random", "configparser", "collections",
          "textwrap", "pprint", "operator", "importlib", "tarfile", "hashlib",
          "urllib", "errno", "platform", "datetime", "gc", "signal", "logging",
          "string", "io", "tempfile", "types", "abc", "contextlib", "inspect",
          "traceback", "atexit", "numexpr", "dotenv", "enum", "dataclasses",
          "typing", "progressbar", "zipfile", "zlib", "struct", "psutil")
_ext = {}


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


def ext(dotted):
    """Object for a dotted external name, MISSING when absent, UNKNOWN if opaque."""
    if dotted in _ext:
        return _ext[dotted]
    top = dotted.split(".")[0]
    r = UNKNOWN
    if top in EXT_OK:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                importlib.import_module(top)
            except Exception:
                _ext[dotted] = UNKNOWN
                return UNKNOWN
            try:
                r = importlib.import_module(dotted)
            except Exception:
                if "." not in dotted:
                    r = UNKNOWN
                else:
                    b, _, a = dotted.rpartition(".")
                    o = ext(b)
                    if o is MISSING or o is UNKNOWN:
                        r = o
                    else:
                        try:
                            r = getattr(o, a)
                        except AttributeError:
                            r = MISSING if inspect.ismodule(o) or inspect.isclass(o) \
                                else UNKNOWN
                        except Exception:
                            r = UNKNOWN
    _ext[dotted] = r
    return r


def undefined_names(mod, repo):
    """Yield (name, scope qualified name, line) read but defined nowhere."""
    table = symtable.symtable(mod.src, mod.rel, "exec")
    glob = set()
    for s in table.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace():
            glob.add(s.get_name())

    def globs(t):
        for s in t.get_symbols():
            if s.is_declared_global() and s.is_assigned():
                glob.add(s.get_name())
        for c in t.get_children():
            globs(c)
    globs(table)
    star_open = False
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            base = n.module or ""
            if base in repo.modules:
                m = repo.modules[base]
                glob |= set(m.functions) | set(m.classes) | set(m.imports) \
                    | set(m.assigns)
            else:
                o = ext(base)
                if o is UNKNOWN or o is MISSING:
                    star_open = True
                else:
                    glob |= set(dir(o))
    if star_open:
        return
    lines = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, []).append(n.lineno)
    seen = set()

    def go(t, q):
        for s in t.get_symbols():
            nm = s.get_name()
            if not s.is_referenced() or nm in glob or nm in BUILTINS:
                continue
            if t.get_type() == "module":
                bad = not s.is_assigned() and not s.is_imported()
            else:
                bad = s.is_global()
                if t.get_type() == "class" and nm in ("__qualname__", "__module__",
                                                      "__class__"):
                    bad = False
            if bad and (nm, q) not in seen:
                seen.add((nm, q))
                ln = [x for x in lines.get(nm, []) if x >= t.get_lineno()]
                yield nm, q or "<module>", (ln or lines.get(nm) or [0])[0]
        for c in t.get_children():
            yield from go(c, (q + "." if q else "") + c.get_name())
    yield from go(table, "")


# ------------------------------------------------------------------ signatures
class Sig:
    def __init__(self, pos, defaults, kwonly, kwreq, var, kwvar, posonly=0):
        self.pos, self.ndef, self.kwonly, self.kwreq = pos, defaults, kwonly, kwreq
        self.var, self.kwvar, self.posonly = var, kwvar, posonly


def sig_of(node, drop=0):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args][drop:]
    return Sig(pos, len(a.defaults), [x.arg for x in a.kwonlyargs],
               [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None],
               a.vararg is not None, a.kwarg is not None)


def ext_sig(o):
    """Signature of an external function, or None when it cannot be trusted."""
    if not (inspect.isfunction(o) or inspect.isclass(o)):
        return None
    try:
        s = inspect.signature(o)
    except Exception:
        return None
    ps = list(s.parameters.values())
    if hasattr(o, "__wrapped__") and not o.__module__.startswith("sklearn"):
        return None
    if any(p.kind is p.VAR_KEYWORD for p in ps):
        return None
    pos = [p.name for p in ps if p.kind in (p.POSITIONAL_ONLY,
                                            p.POSITIONAL_OR_KEYWORD)]
    nd = sum(1 for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)
             and p.default is not p.empty)
    kwo = [p.name for p in ps if p.kind is p.KEYWORD_ONLY]
    kwr = [p.name for p in ps if p.kind is p.KEYWORD_ONLY and p.default is p.empty]
    return Sig(pos, nd, kwo, kwr, any(p.kind is p.VAR_POSITIONAL for p in ps), False,
               sum(1 for p in ps if p.kind is p.POSITIONAL_ONLY))


def call_problem(call, sig):
    """Why the call cannot bind to the signature, or None."""
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    if npos > len(sig.pos) and not sig.var:
        return "takes %d positional arguments, %d given" % (len(sig.pos), npos)
    kws = [k.arg for k in call.keywords if k.arg]
    names = set(sig.pos[sig.posonly:]) | set(sig.kwonly)
    if not sig.kwvar:
        for k in kws:
            if k not in names:
                return "has no parameter '%s'" % k
    for k in kws:
        if k in sig.pos[sig.posonly:npos] and not star:
            return "gets parameter '%s' twice" % k
    if not star and not dstar:
        req = sig.pos[:len(sig.pos) - sig.ndef]
        miss = [p for i, p in enumerate(req) if i >= npos and p not in kws]
        if miss:
            return "misses required argument '%s'" % miss[0]
        miss = [p for p in sig.kwreq if p not in kws]
        if miss:
            return "misses required keyword '%s'" % miss[0]
    return None
