"""Defaults and shared tables are never modified by use.

Interprocedural alias and mutation analysis (see alias.py) of the whole package:
no function may apply an in-place operation to an object that can be (or be
inside) a module-level table, a class-level table or a default argument value,
through any chain of assignments, attributes, parameters and return values.
Functions never hand such a table to the outside either.
"""
import ast

from ..alias import Alias
from ..consts import UNKNOWN
from ..repo import AnalysisBroken

EXPLANATION = __doc__
ASSUMPTIONS = [
    "objects reached only through containers nested more than one level, or through "
    "attributes of objects of unknown class, are not followed",
    "tables that are empty at import time (registries, caches) are state, not defaults",
    "in-place arithmetic on a value of unknown type counts only if it is used as a "
    "container",
]


def literal_kinds(n, depth=0):
    """Kinds of mutable containers written inside a literal."""
    out = set()
    if n is None:
        return {"dict", "list", "set", "array"}
    for x in ast.walk(n):
        if x is n:
            continue
        if isinstance(x, (ast.Dict, ast.DictComp)):
            out.add("dict")
        elif isinstance(x, (ast.List, ast.ListComp)):
            out.add("list")
        elif isinstance(x, (ast.Set, ast.SetComp)):
            out.add("set")
    return out


def value_kinds(v):
    """Kinds of mutable containers inside a constant value."""
    out, todo = set(), [(v, 0)]
    while todo:
        x, d = todo.pop()
        if d:
            for ty, nm in ((dict, "dict"), (list, "list"), (set, "set")):
                if isinstance(x, ty):
                    out.add(nm)
        if d < 4:
            if isinstance(x, dict):
                todo.extend((y, d + 1) for y in x.values())
            elif isinstance(x, (list, tuple)):
                todo.extend((y, d + 1) for y in x)
    return out


def module_of(repo, name):
    for m in repo.modules.values():
        if m.name == name:
            return m
    return None


def assigned_expr(mod, name):
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == name for t in s.targets):
            return s.value
    return None


def shared(ctx, o, need):
    """Is origin o (module or class level) a table that a mutation of kind `need`
    can really hit?"""
    repo, consts = ctx.repo, ctx.consts
    inside = o[-1] == "*"
    if o[0] == "M":
        mod = module_of(repo, o[1])
        v = consts.get(mod, o[2])
        ex = assigned_expr(mod, o[2])
        if v is not UNKNOWN:
            if v is None or (isinstance(v, (list, dict, set)) and not v):
                return False
            if isinstance(v, (int, float, str, bytes, bool)):
                return False
            kinds = value_kinds(v) if inside else {type(v).__name__}
        else:
            if isinstance(ex, ast.Constant) and ex.value is None:
                return False
            if isinstance(ex, (ast.Dict, ast.List, ast.Set)) and not (
                    ex.keys if isinstance(ex, ast.Dict) else ex.elts):
                return False
            kinds = literal_kinds(ex) if inside else None
    else:
        kinds = None
        for m in repo.modules.values():
            for k in m.classes.values():
                if k.key == o[1] and o[2] in k.assigns:
                    a = k.assigns[o[2]]
                    a = a if isinstance(a, ast.expr) else getattr(a, "value", None)
                    kinds = literal_kinds(a) if inside else None
    if kinds is None:
        return True
    if need == "any":
        return bool(kinds)
    return need in kinds or (need == "list" and "ndarray" in kinds) or \
        (need == "dict" and "DataFrame" in kinds)


def mutable_default(d, consts, mod, repo):
    """Does a default argument expression denote a shared mutable object?"""
    if isinstance(d, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp)):
        return "outer"
    if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in (
            "dict", "list", "set"):
        return "outer"
    if isinstance(d, ast.Tuple) and any(
            isinstance(x, (ast.Dict, ast.List, ast.Set)) for x in d.elts):
        return "inner"
    return None


def instance_of(d, mod, repo):
    from ..repo import Cls
    if isinstance(d.func, ast.Name):
        r = repo.resolve(mod, d.func.id)
        return r if isinstance(r, Cls) else None
    return None


def kept(f, name):
    """Is the parameter stored somewhere or are its attributes set?"""
    for x in ast.walk(f.node):
        if isinstance(x, (ast.Assign, ast.AnnAssign)):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            for t in ts:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                        t.value.id == name:
                    return True
                if isinstance(t, (ast.Attribute, ast.Subscript)) and \
                        x.value is not None and any(
                        isinstance(y, ast.Name) and y.id == name
                        for y in [x.value] + (x.value.values if isinstance(
                            x.value, ast.BoolOp) else [])):
                    return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == "setattr" and any(
                isinstance(y, ast.Name) and y.id == name for y in x.args):
            return True
    return False


def check(ctx):
    repo, consts = ctx.repo, ctx.consts
    ctx.rule("D-func", "functions whose effects on shared objects were derived", 800)
    ctx.rule("D-table", "no function modifies a module-level table", 100)
    ctx.rule("D-class", "no function modifies a class-level table", 8)
    ctx.rule("D-default", "no function modifies a default argument value", 10)
    ctx.rule("D-import", "no module modifies another module's table on import", 50)
    ctx.rule("D-return", "no public function hands out a module-level table", 100)
    A = Alias(repo, consts).solve()
    ctx.count("rounds", A.iterations)
    ctx.count("in-place operations examined", A.instances)
    F = {f.key: f for f in A.funcs}
    tables = set()
    for m in repo.modules.values():
        if "tests" in m.rel:
            continue
        for s in m.tree.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and isinstance(
                            consts.get(m, t.id), (list, dict, set)):
                        tables.add((m.name, t.id))
        for k in m.classes.values():
            for nm, a in k.assigns.items():
                a = a if isinstance(a, ast.expr) else getattr(a, "value", None)
                if isinstance(a, (ast.Dict, ast.List, ast.Set, ast.Call)):
                    ctx.instance("D-class", k.name + "." + nm)
    for t in sorted(tables):
        ctx.instance("D-table", ".".join(t))
    for key, S in sorted(A.sums.items()):
        f = F[key]
        ctx.instance("D-func")
        for (o, need), (line, how, via) in S.mut.items():
            if o[0] not in ("M", "C"):
                continue
            if not shared(ctx, o, need):
                continue
            what = "%s.%s%s" % (o[1], o[2], " (contents)" if o[-1] == "*" else "")
            ctx.find("D-table" if o[0] == "M" else "D-class",
                     "%s|%s.%s" % (key, o[1], o[2]), key,
                     "line %d: %s modifies the shared %s%s" % (
                         line, how, what, trail(via)))
        a = f.node.args
        ps = a.posonlyargs + a.args
        dfl = list(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        dfl += [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in dfl:
            if isinstance(d, ast.Call):
                k = instance_of(d, f.mod, repo)
                if k is not None:
                    ctx.instance("D-default", "%s(%s=)" % (key, p.arg))
                    if k.methods and kept(f, p.arg):
                        ctx.find("D-default", "%s|%s" % (key, p.arg), key,
                                 "the default of parameter %s is one %s object, made "
                                 "when the function is defined and kept by every call "
                                 "that leaves the parameter out" % (p.arg, k.name))
                    continue
            md = mutable_default(d, consts, f.mod, repo)
            mn = None
            if md is None and isinstance(d, ast.Name):
                r = repo.resolve(f.mod, d.id)
                if isinstance(r, tuple) and r[0] == "var" and isinstance(
                        consts.get(r[1], r[2]), (list, dict, set)):
                    md = "outer"
                    mn = (r[1].name, r[2])
            if md is None:
                continue
            ctx.instance("D-default", "%s(%s=)" % (key, p.arg))
            empty = isinstance(d, (ast.Dict, ast.List)) and md == "outer"
            for (o, need), (line, how, via) in S.mut.items():
                if o[0] != "P" or o[1] != p.arg:
                    continue
                if md == "outer" and o[-1] == "*":
                    kinds = literal_kinds(d) if mn is None else value_kinds(
                        consts.get(module_of(repo, mn[0]), mn[1]))
                    if need not in kinds and not (need == "any" and kinds):
                        continue
                if md == "inner":
                    if o[-1] != "*":
                        continue
                    kinds = literal_kinds(d)
                    if need not in kinds and not (need == "any" and kinds):
                        continue
                ctx.find("D-default", "%s|%s" % (key, p.arg), key,
                         "line %d: %s modifies the default value of parameter %s%s" % (
                             line, how, p.arg, trail(via)))
            # a default kept in an attribute that other methods modify
            if f.cls is not None and md == "outer":
                org = ("F", f.cls.key, f.name + ":" + p.arg)
                for k2, S2 in A.sums.items():
                    for (o, need), (line, how, via) in S2.mut.items():
                        if o == org:
                            ctx.find("D-default", "%s|%s" % (key, p.arg), k2,
                                     "line %d: %s modifies the default value of "
                                     "parameter %s of %s, kept in an attribute%s" % (
                                         line, how, p.arg, key, trail(via)))
        # public functions returning a shared table
        if not f.name.startswith("_"):
            ctx.instance("D-return")
            for o in S.ret[0]:
                if o[0] == "M" and o[-1] != "*" and shared(ctx, o, "any") and \
                        f.mod.rel.startswith("posydon/binary_evol"):
                    ctx.find("D-return", "%s|%s" % (key, o[2]), key,
                             "returns the shared table %s.%s itself, so a caller's "
                             "change alters it for everyone" % (o[1], o[2]))
    imports(ctx, A)


def trail(via):
    return "" if not via else " (in %s)" % " -> ".join(
        "%s line %d" % (k.split(":")[1], l) for k, l in via)


def imports(ctx, A):
    """Module-level statements must not modify tables of other modules."""
    repo = ctx.repo
    from ..alias import Summary

    class Mod:
        pass
    for m in repo.modules.values():
        if "tests" in m.rel:
            continue
        f = Mod()
        f.mod, f.cls, f.name, f.key = m, None, "<module>", m.rel + ":<module>"
        S = Summary()
        fr = {"f": f, "S": S, "self": None, "globals": set(), "vararg": None,
              "kwarg": None, "elts": {}}
        body = [s for s in m.tree.body if not isinstance(
            s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
        ctx.instance("D-import", m.name)
        try:
            A.block(body, {}, fr)
        except RecursionError:
            continue
        for (o, need), (line, how, via) in S.mut.items():
            if o[0] == "M" and o[1] != m.name and shared(ctx, o, need):
                ctx.find("D-import", "%s|%s.%s" % (m.rel, o[1], o[2]),
                         "%s:%d" % (m.rel, line),
                         "importing this module modifies %s.%s (%s)" % (o[1], o[2], how))
