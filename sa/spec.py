"""Comparison of the code with reference formulas kept in /verif/spec.

The reference modules are parsed next to the repository's modules (they are
never imported or run) and brought into the same normal form; an output of the
repository function must be the same function of its inputs as the reference,
on every path on which neither raises.
"""
import ast
import os

from . import fp, vn
from .ev import Evaluator
from .mirror import describe
from .repo import Module
from .vn import FALSE, TRUE, c, ite, mk, or_, sym

SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       "spec")


def load(ctx, name):
    rel = "verif_spec/%s.py" % name
    dotted = "verif_spec." + name
    if dotted in ctx.repo.modules:
        return ctx.repo.modules[dotted]
    with open(os.path.join(SPECDIR, name + ".py")) as fh:
        src = fh.read()
    m = Module(rel, dotted, ast.parse(src), src, False)
    ctx.repo.modules[dotted] = m
    return m


def bind(f, args, drop_self=True):
    """Positional arguments by position; remaining constant defaults filled in."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if f.cls is not None and "staticmethod" not in f.decorators() and drop_self:
        names = names[1:]
    out = {}
    byname = args if isinstance(args, dict) else None
    if byname is None:
        for nm, v in zip(names, args):
            out[nm] = v
    else:
        out.update({k: v for k, v in byname.items()
                    if k in names + [x.arg for x in a.kwonlyargs]})
    pos = [x.arg for x in a.posonlyargs + a.args]
    for nm, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if nm not in out:
            out[nm] = _default(d, nm)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg not in out and d is not None:
            out[x.arg] = _default(d, x.arg)
    if "verbose" in out:
        out["verbose"] = FALSE
    elif "verbose" in names:
        out["verbose"] = FALSE
    return out


def _default(d, nm):
    try:
        v = ast.literal_eval(d)
    except ValueError:
        return sym(nm)
    if isinstance(v, (bool, int, float, str)) or v is None:
        return c(v)
    return sym(nm)


def spread(v, n):
    """The n components of a sequence-valued expression, or None."""
    if v is None:
        return None
    if v.k in ("tuple", "list"):
        return list(v.a) if len(v.a) == n else None
    if v.k == "ite":
        a, b = spread(v.a[1], n), spread(v.a[2], n)
        if a is None or b is None:
            return None
        return [x if x is y else ite(v.a[0], x, y) for x, y in zip(a, b)]
    return None


def strconsts(cls, repo):
    """self.<name> = "text" assignments of the constructor."""
    f = repo.find_method(cls, "__init__")
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                and isinstance(n.targets[0], ast.Attribute) \
                and isinstance(n.value, ast.Constant) \
                and isinstance(n.value.value, str):
            out.setdefault(n.targets[0].attr, n.value.value)
    return out


class Pair:
    """Runs repository and reference functions on the same symbols."""

    def __init__(self, ctx, rule, noinline=(), depth=8, overrides=None, types=None,
                 setup=None):
        self.ctx, self.rule = ctx, rule
        self.noinline, self.depth = noinline, depth
        self.overrides = overrides or {}
        self.setup = setup

    def run(self, f, args, self_node=None, heap=None):
        ev = Evaluator(self.ctx.repo, self.ctx.consts, max_depth=self.depth,
                       noinline=self.noinline)
        ev.overrides.update(self.overrides)
        if self.setup:
            self.setup(ev)
        r = ev.run(f, args=bind(f, args), self_node=self_node, heap=dict(heap or {}))
        self.ctx.count("functions inlined", len(ev.inlined))
        self.ev = ev
        return r

    def same(self, label, got, want, where, dontcare=FALSE, what=""):
        """One obligation: got equals want wherever dontcare is false."""
        ctx = self.ctx
        ctx.instance(self.rule, label)
        if got is None or want is None:
            if got is not want:
                ctx.find(self.rule, label, where, "no value where one is expected")
            return got is want
        if got is want:
            return True
        g, w = got, want
        if dontcare is not FALSE:
            g, w = ite(dontcare, c(0), got), ite(dontcare, c(0), want)
        try:
            d = fp.different(g, w)
        except fp.Unknown:
            ctx.count("undecided obligations")
            ctx.note("undecided: %s" % label)
            return True
        if d is None:
            return True
        cond = " and ".join(("" if v else "not ") + vn.show(a) for a, v in d[:6])
        ctx.find(self.rule, label, where,
                 "differs from the reference formula%s: %s%s"
                 % (" " + what if what else "", describe(want, got)[:300],
                    (" when " + cond[:300]) if cond else ""))
        return False

    def both(self, label, f, rp, rp2):
        """Paths on which one side raises; f may only raise where g does."""
        rp, rp2 = rp or FALSE, rp2 or FALSE
        if rp is not FALSE and rp is not rp2:
            self.same(label + ":raises", ite(rp2, c(0), ite(rp, c(1), c(0))), c(0),
                      f.key, what="(an exception where a result is expected)")
        return or_(rp, rp2)

    def compare(self, label, f, g, args, names=None, self_node=None, heap=None,
                what=""):
        """Return values of f and of the reference g, elementwise."""
        v, h, rp, _ = self.run(f, args, self_node, heap)
        w, h2, rp2, _ = self.run(g, args, self_node, heap)
        dc = self.both(label, f, rp, rp2)
        if v is None:
            self.same(label, v, w, f.key, dc, what)
            return h, h2, dc
        if names and len(names) > 1:
            vs, ws = spread(v, len(names)), spread(w, len(names))
            if vs is not None and ws is not None:
                for nm, x, y in zip(names, vs, ws):
                    self.same("%s:%s" % (label, nm), x, y, f.key, dc, what)
                return h, h2, dc
        self.same(label, v, w, f.key, dc, what)
        return h, h2, dc
