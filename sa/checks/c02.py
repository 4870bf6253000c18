"""C02: labels come from one closed vocabulary.

Every expression that holds a label (a `state`, `event`, interpolation class,
supernova type or step name: attributes, history entries, table columns and the
local names assigned from them) is found by a small kind inference; every string
constant, constant list or substring that is stored in it or compared with it
has to be in the vocabulary of its kind, and every label the classification
functions can compute has to be in it, too.
"""
import ast
import re

from .. import labels, vn
from ..consts import UNKNOWN, Ref
from ..ev import Evaluator
from ..repo import AnalysisBroken
from ..vn import TRUE, FALSE, c, mk, sym

FC = "posydon/binary_evol/flow_chart.py"
CF = "posydon/utils/common_functions.py"

IC = {"no_MT", "stable_MT", "unstable_MT", "initial_MT", "not_converged",
      "stable_reverse_MT"}
IGNORED = {"ignored_no_BH", "ignored_no_RLO", "ignored_no_binary_history",
           "ignored_no_final_profile", "ignored_no_history1",
           "ignored_scrubbed_history"}
SN = {"WD", "ECSN", "CCSN", "PPISN", "PISN", "", None}

ASSUMPTIONS = ["labels that come from data files or from user input are not seen",
               "an expression whose kind cannot be inferred is not checked"]


def vocab(ctx):
    consts = ctx.consts
    g = lambda m, n: consts.get(m, n)
    S, B, E = (g(FC, "STAR_STATES_ALL"), g(FC, "BINARY_STATES_ALL"),
               g(FC, "BINARY_EVENTS_ALL"))
    A, R = g(CF, "ALL_STAR_STATES"), g(CF, "RICHNESS_STATES")
    for v in (S, B, E, A, R):
        if v is UNKNOWN:
            raise AnalysisBroken("vocabulary constants not found")
    # documented grammar (docs: single_star.rst): richness x burning status
    star = set(S) | set(A) | {r + "_" + b for r in R for b in (
        "Core_H_burning", "Core_He_burning", "Shell_H_burning", "Shell_He_burning",
        "Core_C_burning", "Core_He_depleted", "Core_C_depleted",
        "non_burning")} | {None}
    steps = labels.step_names(ctx.repo, consts) | {"step_end", "step_isolated", None}
    return {"star": star, "binary": set(B) | {"ERR", "undefined", None},
            "event": set(E) | {"END", "FAILED"}, "class": set(IC) | IGNORED | {"unknown", None},
            "sn": SN, "step": steps}


STARRY = re.compile(r"(star|donor|comp|primary|secondary|merged|remnant)", re.I)


def kind_of(e, f, local):
    """Label kind of an expression or None."""
    if isinstance(e, ast.Name):
        return local.get(e.id)
    if isinstance(e, ast.Subscript):
        s = e.slice
        if isinstance(s, ast.Constant) and isinstance(s.value, str):
            return col_kind(s.value)
        return kind_of(e.value, f, local) if isinstance(e.value, (
            ast.Attribute, ast.Name, ast.Subscript)) else None
    if isinstance(e, ast.Attribute):
        a = e.attr
        if a in ("values", "iloc", "loc", "str", "iat", "at"):
            return kind_of(e.value, f, local)
        if a.endswith("_history"):
            a = a[:-8]
        if a == "state":
            return state_kind(e.value, f)
        if a == "event":
            return "event"
        if a == "SN_type":
            return "sn"
        if a.startswith("interp_class_") or a == "interpolation_class":
            return "class"
        return None
    if isinstance(e, ast.Call):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "getattr" and len(e.args) >= 2 \
                and isinstance(e.args[1], ast.Constant) and \
                isinstance(e.args[1].value, str):
            return kind_of(ast.Attribute(value=e.args[0], attr=e.args[1].value,
                                         ctx=ast.Load()), f, local)
        if isinstance(fn, ast.Attribute) and fn.attr in ("to_numpy", "unique",
                                                         "tolist", "copy"):
            return kind_of(fn.value, f, local)
        n = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
        if n in ("check_state_of_star", "infer_star_state"):
            return "star"
        if n == "infer_interpolation_class":
            return "class"
        if n == "get_next_step_name":
            return "step"
    return None


def state_kind(e, f):
    t = e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", None)
    if t is None and isinstance(e, ast.Subscript):
        t = ast.unparse(e.value)
    if t == "self" and f is not None and f.cls is not None:
        return {"SingleStar": "star", "BinaryStar": "binary"}.get(f.cls.name)
    if t is None:
        return None
    if t in ("binary", "bin") or t.endswith("binary"):
        return "binary"
    if STARRY.search(t):
        return "star"
    return None


def col_kind(s):
    if s in ("event", "event_i", "event_f"):
        return "event"
    if s in ("state", "state_i", "state_f"):
        return "anystate"
    if re.fullmatch(r"S[12]_state(_[if])?", s):
        return "star"
    if re.fullmatch(r"(S[12]_)?SN_type(_[if])?", s):
        return "sn"
    if s.startswith("interp_class_") or s == "interpolation_class":
        return "class"
    return None


def local_kinds(f, node):
    """Names of a function assigned only from one label kind."""
    asg = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    asg.setdefault(t.id, []).append(n.value)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    if isinstance(n.value, (ast.Tuple, ast.List)) and \
                            len(n.value.elts) == len(t.elts):
                        for x, v in zip(t.elts, n.value.elts):
                            if isinstance(x, ast.Name):
                                asg.setdefault(x.id, []).append(v)
                    else:
                        for x in t.elts:
                            if isinstance(x, ast.Name):
                                asg.setdefault(x.id, []).append(None)
        elif isinstance(n, (ast.AugAssign, ast.For)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    asg.setdefault(x.id, []).append(None)
    out = {}
    args = node.args if isinstance(node, ast.FunctionDef) else None
    if args is not None:
        for a in args.args + args.kwonlyargs:
            if a.arg == "interpolation_class":
                out[a.arg] = "class"
    for _ in range(3):
        for n, vs in asg.items():
            ks = set()
            for v in vs:
                if v is None:
                    ks.add(None)
                    continue
                if isinstance(v, ast.Constant):
                    continue
                ks.add(kind_of(v, f, out))
            if len(ks) == 1 and None not in ks:
                out[n] = ks.pop()
    return out


class Scan:
    def __init__(self, ctx, V):
        self.ctx, self.V = ctx, V

    def consts_of(self, e, mod, depth=0):
        """Constant strings an expression denotes: (kind 'one'|'many', list)."""
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str) or e.value is None:
                return "one", [e.value]
            return None, []
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in e.elts:
                k, v = self.consts_of(x, mod, depth + 1)
                out += v
            return "many", out
        if isinstance(e, ast.IfExp):
            a, b = self.consts_of(e.body, mod), self.consts_of(e.orelse, mod)
            return "one", a[1] + b[1]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.consts_of(e.left, mod), self.consts_of(e.right, mod)
            if a[0] == "many" and b[0] == "many":
                return "many", a[1] + b[1]
            return None, []
        if isinstance(e, ast.Name) and e.id in self.lists and depth < 4:
            return self.consts_of(self.lists[e.id], mod, depth + 1)
        if isinstance(e, ast.Name) and isinstance(
                self.ctx.repo.resolve(mod, e.id), tuple):
            v = self.ctx.consts.get(mod, e.id)
            if isinstance(v, str):
                return "one", [v]
            if isinstance(v, (list, tuple, set)) and all(
                    isinstance(x, str) or x is None for x in v):
                return "many", list(v)
        return None, []

    def ok(self, kind, s):
        if kind == "anystate":
            return s in self.V["star"] or s in self.V["binary"]
        return s in self.V[kind] or (kind == "class" and s in self.renamed)

    def sub_ok(self, kind, s):
        vs = (self.V["star"] | self.V["binary"]) if kind == "anystate" \
            else self.V[kind] | (self.renamed if kind == "class" else set())
        return any(isinstance(v, str) and s in v for v in vs)

    def report(self, kind, s, f, node, mod, how):
        name = f.qual if f is not None else "<module>"
        self.ctx.find("V-use", "%s:%s %s %r" % (mod.rel, name, kind, s),
                      "%s:%d" % (mod.rel, node.lineno),
                      "%s label %r %s in %s is not in the vocabulary"
                      % (kind, s, how, name))

    def body(self, f, node, mod):
        ctx = self.ctx
        local = local_kinds(f, node)
        self.lists = {}
        multi = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if t.id in self.lists or t.id in multi:
                            multi.add(t.id)
                        self.lists[t.id] = n.value
            elif isinstance(n, (ast.For, ast.AugAssign)):
                multi |= {x.id for x in ast.walk(n.target)
                          if isinstance(x, ast.Name)}
        for x in multi:
            self.lists.pop(x, None)
        # a table that renames interpolation classes makes its values labels, too
        self.renamed = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Dict) and len(n.keys) > 1 and all(
                    isinstance(k, ast.Constant) and k.value in self.V["class"]
                    for k in n.keys):
                self.renamed |= {v.value for v in n.values
                                 if isinstance(v, ast.Constant)}
        inner = set()
        for n in ast.walk(node):
            if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for x in ast.walk(n):
                    if x is not n:
                        inner.add(id(x))
        for n in ast.walk(node):
            if id(n) in inner and isinstance(n, ast.FunctionDef):
                continue
            if isinstance(n, ast.Compare):
                items = [n.left] + n.comparators
                for i, op in enumerate(n.ops):
                    a, b = items[i], items[i + 1]
                    self.pair(op, a, b, f, n, mod, local)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    if isinstance(t, (ast.Attribute, ast.Name, ast.Subscript)):
                        k = kind_of(t, f, local)
                        if k and n.value is not None:
                            self.store(k, n.value, f, n, mod)
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Name) and fn.id == "setattr" and \
                        len(n.args) == 3 and isinstance(n.args[1], ast.Constant) \
                        and isinstance(n.args[1].value, str):
                    k = kind_of(ast.Attribute(value=n.args[0],
                                              attr=n.args[1].value,
                                              ctx=ast.Load()), f, local)
                    if k:
                        self.store(k, n.args[2], f, n, mod)
                elif isinstance(fn, ast.Attribute) and fn.attr in (
                        "startswith", "endswith", "contains") and n.args:
                    k = kind_of(fn.value, f, local)
                    if k and isinstance(n.args[0], ast.Constant) and \
                            isinstance(n.args[0].value, str):
                        ctx.instance("V-use")
                        if not self.sub_ok(k, n.args[0].value):
                            self.report(k, n.args[0].value, f, n, mod,
                                        "tested as a part")
                elif isinstance(fn, ast.Attribute) and fn.attr == "append" and n.args:
                    k = kind_of(fn.value, f, local)
                    if k:
                        self.store(k, n.args[0], f, n, mod)
                for kw in n.keywords:
                    # star or binary built with a literal label
                    if kw.arg in ("state", "event") and isinstance(
                            kw.value, ast.Constant):
                        cn = fn.attr if isinstance(fn, ast.Attribute) else \
                            getattr(fn, "id", "")
                        k = {"SingleStar": "star", "BinaryStar": "binary"}.get(cn)
                        if k and kw.arg == "event":
                            k = "event"
                        if k:
                            self.store(k, kw.value, f, n, mod)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                    re.fullmatch(r"step_[A-Za-z_]+", n.value):
                pass

    def store(self, kind, value, f, node, mod):
        how, vs = self.consts_of(value, mod)
        if how != "one":
            return
        for v in vs:
            self.ctx.instance("V-use")
            if not self.ok(kind, v):
                self.report(kind, v, f, node, mod, "stored")

    def pair(self, op, a, b, f, node, mod, local):
        ctx = self.ctx
        for x, y, sw in ((a, b, False), (b, a, True)):
            k = kind_of(x, f, local)
            if not k:
                continue
            how, vs = self.consts_of(y, mod)
            if not how:
                continue
            if isinstance(op, (ast.In, ast.NotIn)):
                if not sw and how == "many":            # label in [list]
                    for v in vs:
                        ctx.instance("V-use")
                        if not self.ok(k, v):
                            self.report(k, v, f, node, mod, "tested")
                elif sw and how == "one" and vs[0] is not None:  # 'x' in label
                    ctx.instance("V-use")
                    if not self.sub_ok(k, vs[0]):
                        self.report(k, vs[0], f, node, mod, "tested as a part")
            elif how == "one":
                for v in vs:
                    ctx.instance("V-use")
                    if not self.ok(k, v):
                        self.report(k, v, f, node, mod, "tested")


def near(ctx, V):
    """String constants one typing error away from a label."""
    allv = set()
    for k in ("star", "binary", "event", "class", "step"):
        allv |= {x for x in V[k] if isinstance(x, str) and len(x) >= 7}
    known = set().union(*V.values())
    idents = set()
    for mod in ctx.repo.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Name):
                idents.add(n.id)
            elif isinstance(n, ast.Attribute):
                idents.add(n.attr)
            elif isinstance(n, ast.arg):
                idents.add(n.arg)
            elif isinstance(n, ast.keyword) and n.arg:
                idents.add(n.arg)
    dels = {}

    def neigh(s):
        out = {s}
        for i in range(len(s)):
            out.add(s[:i] + s[i + 1:])
        return out
    for v in allv:
        for d in neigh(v.lower()):
            dels.setdefault(d, set()).add(v)
    for mod in ctx.repo.modules.values():
        if "visualization" in mod.rel or "CLI" in mod.rel:
            continue
        doc = set()
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                doc.add(id(n.value))
        for n in ast.walk(mod.tree):
            if not (isinstance(n, ast.Constant) and isinstance(n.value, str)) \
                    or id(n) in doc:
                continue
            s = n.value
            if len(s) < 6 or len(s) > 40 or not re.fullmatch(r"[A-Za-z0-9_\-]+", s):
                continue
            ctx.instance("V-near")
            if s in known or s in idents:
                continue
            hit = set()
            for d in neigh(s.lower()):
                hit |= dels.get(d, set())
            hit = {h for h in hit if _dist1(s.lower(), h.lower())
                   and s.lower() not in h.lower() and h.lower() not in s.lower()}
            if hit:
                ctx.find("V-near", "%s %r" % (mod.rel, s),
                         "%s:%d" % (mod.rel, n.lineno),
                         "%r is one character away from the label %s but not a label"
                         % (s, sorted(hit)))


def _dist1(a, b):
    if a == b:
        return True
    if abs(len(a) - len(b)) > 1:
        return False
    if len(a) == len(b):
        d = [i for i in range(len(a)) if a[i] != b[i]]
        if len(d) == 1:
            # numbered siblings (oCE1/oCE2, m1/m2) are not typing errors
            return not (a[d[0]].isdigit() or b[d[0]].isdigit())
        return len(d) == 2 and d[1] == d[0] + 1 and a[d[0]] == b[d[1]] \
            and a[d[1]] == b[d[0]]
    if len(a) > len(b):
        a, b = b, a
    return any(b[:i] + b[i + 1:] == a for i in range(len(b)))


def produced(ctx, V):
    """Labels computed by the classification functions."""
    repo = ctx.repo

    def leaves_of(v):
        out = []
        for x in vn.leaves(v):
            out.append(x)
        return out

    def strs(v, kind, what, f):
        for x in leaves_of(v):
            if x.k in ("list", "tuple") and isinstance(kind, tuple):
                for y, k in zip(x.a, kind):
                    if k:
                        strs(y, k, what, f)
                continue
            if vn.isstr(x) or x is vn.NONE:
                s = x.a[0] if vn.isstr(x) else None
                ctx.instance("V-produce", "%s -> %r" % (what, s))
                if s not in V[kind]:
                    ctx.find("V-produce", "%s %r" % (what, s), f.key,
                             "%s can produce %r, which is no %s label"
                             % (what, s, kind))
            else:
                ctx.count("undecided results")
    for name, kind in (("infer_star_state", "star"),
                       ("infer_interpolation_class", "class"),
                       ("get_binary_state_and_event_and_mt_case",
                        ("binary", "event", None))):
        try:
            f = repo.find_func(name)
        except AnalysisBroken:
            ctx.note("%s not found" % name)
            continue
        vn.reset()
        import time
        vn.DEADLINE[0] = time.time() + 60
        try:
            ev = Evaluator(repo, ctx.consts, noinline=[
                "infer_mass_transfer_case", "cumulative_mass_transfer_string"])
            v, h, rp, fr = ev.run(f)
            strs(v, kind, name, f)
        except vn.TooComplex as e:
            ctx.note("%s: not decided (%s)" % (name, e))
        finally:
            vn.DEADLINE[0] = None


def check(ctx):
    V = vocab(ctx)
    ctx.rule("V-use", "a label stored in or compared with a label expression is in "
             "the vocabulary of its kind", 250)
    ctx.rule("V-near", "no string constant is a misspelt label", 2000)
    ctx.rule("V-produce", "classification functions produce vocabulary labels", 20)
    sc = Scan(ctx, V)
    for mod in ctx.repo.modules.values():
        tops = [f for f in mod.all_funcs if f.parent is None]
        for f in tops:
            sc.body(f, f.node, mod)
    near(ctx, V)
    produced(ctx, V)
