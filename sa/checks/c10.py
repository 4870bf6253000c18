"""One failing binary never stops or corrupts a population.

Typestate over every control-flow path, exceptional ones included (paths.py): in
the population loop a path on which evolve() raised must mark the binary, record
the cause and go on to the next binary exactly as a successful path does; the timer
is armed for each step and disarmed on every exit; no handler met while a step runs
swallows the timeout; conversion to tables of one binary cannot affect the others.
"""
import ast

from ..paths import ANY, Client, Paths
from ..repo import AnalysisBroken, Cls, Func

EXPLANATION = __doc__
ASSUMPTIONS = [
    "statements of the exception handlers themselves do not fail (formatting the "
    "message of the failed binary)",
    "the timeout can be raised inside any call made while a step runs",
]
POP = "posydon/popsyn/binarypopulation.py"
BIN = "posydon/binary_evol/binarystar.py"
STEPCODE = ("posydon/binary_evol/", "posydon/utils/common_functions.py",
            "posydon/utils/interpolators.py", "posydon/interpolation/interpolation.py",
            "posydon/interpolation/IF_interpolation.py",
            "posydon/interpolation/data_scaling.py",
            "posydon/interpolation/constraints.py", "posydon/user_modules/")


def const_str(e):
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None


def attr_store(s):
    """(object name, attribute, value) of `x.a = v` / setattr(x, 'a', v)."""
    if isinstance(s, ast.Assign):
        out = []
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                out.append((t.attr, s.value))
            if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
                for a, b in zip(t.elts, s.value.elts):
                    if isinstance(a, ast.Attribute):
                        out.append((a.attr, b))
        return out
    return []


class LoopClient(Client):
    """Facts of one turn of the population loop."""

    def __init__(self, consts):
        self.consts = consts
        self.attrs = set()

    def text(self, e, f):
        v = const_str(e)
        if v is None and isinstance(e, ast.Name):
            w = self.consts.get(f.mod, e.id)
            v = w if isinstance(w, str) else None
        return v

    def store(self, attr, val, st, f):
        if attr == "event":
            st = st - {"event", "rec"}
            if self.text(val, f) == "FAILED":
                st = st | {"event"}
        elif attr == "state":
            st = st - {"state", "rec"}
            if self.text(val, f) == "ERR":
                st = st | {"state"}
        elif attr == "traceback" or "exc" in st:
            if not (isinstance(val, ast.Constant) and val.value is None):
                st = st | {"set:" + attr}
        return st

    def assign(self, s, st, f):
        for a, v in attr_store(s):
            st = self.store(a, v, st, f)
        return [st]

    def evolving(self, n):
        fn = n.func
        return isinstance(fn, ast.Attribute) and fn.attr == "evolve" and not (
            isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls"))

    def call(self, n, st, f):
        fn = n.func
        if self.evolving(n):
            return [st | {"run"}]
        if isinstance(fn, ast.Name) and fn.id == "setattr" and len(n.args) == 3:
            a = const_str(n.args[1])
            if a:
                st = self.store(a, n.args[2], st, f)
        if isinstance(fn, ast.Attribute) and fn.attr == "append_state":
            if "event" in st and "state" in st:
                st = st | {"rec"}
        return [st]

    def raises(self, n, st, f):
        return [st | {"run", "exc"}] if self.evolving(n) else []

    def enter(self, g, n, f):
        if g.mod.rel == BIN:
            return None
        for x in ast.walk(g.node):
            if isinstance(x, ast.Constant) and x.value in ("FAILED", "ERR"):
                return g
            if isinstance(x, ast.Attribute) and (
                    x.attr in ("traceback", "append_state") and
                    isinstance(x.ctx, (ast.Store, ast.Load)) or x.attr == "evolve"):
                return g
            if isinstance(x, ast.Name) and x.id == "set_binary_to_failed":
                return g
        return None


class TimerClient(Client):
    def __init__(self, repo):
        self.repo = repo
        self.bad = []

    def alarm(self, n, f):
        fn = n.func
        nm = None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            r = self.repo.resolve(f.mod, fn.value.id)
            if isinstance(r, tuple) and r[0] == "ext" and r[1] == "signal":
                nm = fn.attr
        elif isinstance(fn, ast.Name):
            r = self.repo.resolve(f.mod, fn.id)
            if isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("signal."):
                nm = r[1].split(".")[-1]
        if nm not in ("alarm", "setitimer"):
            return None
        a = n.args[-1] if n.args else (n.keywords[0].value if n.keywords else None)
        if nm == "setitimer" and len(n.args) > 1:
            a = n.args[1]
        return "off" if isinstance(a, ast.Constant) and a.value == 0 else "on"

    def call(self, n, st, f):
        k = self.alarm(n, f)
        if k == "on":
            return [st | {"armed", "fresh"}]
        if k == "off":
            return [st - {"armed", "fresh"}]
        if isinstance(n.func, ast.Attribute) and n.func.attr == "run_step":
            if "fresh" not in st:
                self.bad.append((f, n))
            return [st - {"fresh"}]
        return [st]

    def raises(self, n, st, f):
        k = self.alarm(n, f)
        if k:
            return []
        if isinstance(n.func, ast.Attribute) and n.func.attr == "run_step" and \
                "fresh" not in st:
            self.bad.append((f, n))
        return [st]

    def enter(self, g, n, f):
        if any(isinstance(x, ast.Call) and self.alarm(x, g) for x in ast.walk(g.node)):
            return g
        return None


class PassClient(Client):
    """Errors of a step reach the population loop."""

    def runs(self, n):
        fn = n.func
        return isinstance(fn, ast.Attribute) and fn.attr == "run_step" or any(
            isinstance(a, ast.Name) and a.id == "self" for a in n.args)

    def raises(self, n, st, f):
        return [st | {"exc"}] if self.runs(n) else []

    def assign(self, s, st, f):
        if any(a == "traceback" for a, _ in attr_store(s)):
            return [st - {"exc"}]
        return [st]

    def enter(self, g, n, f):
        if g.cls is f.cls and any(isinstance(x, ast.Call) and self.runs(x)
                                  for x in ast.walk(g.node)):
            return g
        return None


class TableClient(Client):
    """Conversion of one binary to tables."""

    def call(self, n, st, f):
        fn = n.func
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if fn.attr in ("append", "extend", "insert") and isinstance(v, ast.Attribute):
                if v.attr == "history_dfs":
                    st = st | {"h"}
                elif v.attr == "oneline_dfs":
                    st = st | {"o"}
            if fn.attr in ("remove", "pop") and (
                    isinstance(v, ast.Name) and v.id == "self" or
                    isinstance(v, ast.Attribute) and v.attr == "binaries"):
                st = st | {"rm"}
        return [st]

    def raises(self, n, st, f):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("to_df",
                                                                 "to_oneline_df"):
            return [st | {"exc"}]
        return []

    def branch(self, t, val, st, f):
        neg = False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.comparators[0], ast.Attribute) and t.comparators[0].attr == "binaries":
            isin = isinstance(t.ops[0], ast.In)
            if isin or isinstance(t.ops[0], ast.NotIn):
                inside = (val != neg) == isin
                if not inside:
                    return st | {"rm"}
        return st

    def enter(self, g, n, f):
        if g.cls is f.cls and g.name not in ("remove", "to_df", "to_oneline_df") and \
                any(isinstance(x, ast.Attribute) and x.attr in (
                    "history_dfs", "oneline_dfs", "to_df", "to_oneline_df")
                    for x in ast.walk(g.node)):
            return g
        return None


def loops_of(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.For, ast.While)):
            yield x


def check(ctx):
    repo, consts = ctx.repo, ctx.consts
    ctx.rule("F-loop", "a failing binary is marked, its cause recorded, and the loop "
             "goes on", 1)
    ctx.rule("F-flag", "the failure is visible in the one-line table", 1)
    ctx.rule("F-timer", "a timer is disarmed on every exit of the function arming it", 1)
    ctx.rule("F-armed", "every step runs under a freshly armed timer", 1)
    ctx.rule("F-pass", "errors of a step reach the population loop", 1)
    ctx.rule("F-alarm", "the timer's handler raises", 1)
    ctx.rule("F-timeout", "no handler swallows the timeout while a step runs", 3)
    ctx.rule("F-stop", "a failed or ended binary takes no further step", 2)
    ctx.rule("F-table", "converting one binary cannot affect the tables of others", 1)
    mod = ctx.repo.modrel(POP) if hasattr(repo, "modrel") else next(
        m for m in repo.modules.values() if m.rel == POP)
    binm = next(m for m in repo.modules.values() if m.rel == BIN)
    marks = loop_rule(ctx, mod)
    flag_rule(ctx, binm, marks)
    timer_rules(ctx)
    timeout_rule(ctx, binm)
    stop_rule(ctx, binm)
    table_rule(ctx, mod)


def funcs(repo, pred):
    return [f for f in repo.functions() if "tests" not in f.mod.rel and pred(f)]


def loop_rule(ctx, mod):
    repo = ctx.repo
    marks = None
    for f in funcs(repo, lambda f: f.mod is mod and f.cls is not None):
        for lp in loops_of(f.node):
            if any(isinstance(y, (ast.For, ast.While)) and y is not lp
                   for s in lp.body for y in ast.walk(s)) and False:
                continue
            cl = LoopClient(ctx.consts)
            P = Paths(repo, cl)
            outs = P.body(lp.body, {frozenset()}, f)
            if not any("run" in st for _, _, st in outs):
                continue
            ctx.instance("F-loop", "%s line %d, %d path ends" % (f.key, lp.lineno,
                                                                 len(outs)))
            exc = [(k, c, st) for k, c, st in outs if "exc" in st]
            ok = [(k, c, st) for k, c, st in outs if "run" in st and "exc" not in st]
            key = "%s|loop" % f.key
            if not exc:
                raise AnalysisBroken("no failing path found in %s" % f.key)
            for k, c, st in exc:
                if k in ("raise", "break", "return"):
                    ctx.find("F-loop", key + "-exit", f.key,
                             "line %d: a binary whose evolution raises an exception "
                             "ends the loop over the population (%s)" % (lp.lineno, k))
                    continue
                for need, what in (("event", "event FAILED"), ("state", "state ERR"),
                                   ("rec", "a history entry of the failure"),
                                   ("set:traceback", "the recorded traceback")):
                    if need not in st:
                        ctx.find("F-loop", key + "-" + need, f.key,
                                 "line %d: on a path where evolve() raised the loop goes "
                                 "on without setting %s" % (lp.lineno, what))
                if k == "continue" and not any(k2 == "continue" for k2, _, _ in ok):
                    ctx.find("F-loop", key + "-skip", f.key,
                             "line %d: a failed binary skips what is done with the "
                             "others (saving)" % lp.lineno)
                s = {x[4:] for x in st if x.startswith("set:")}
                marks = s if marks is None else marks & s
            for k, c, st in ok:
                if {"event", "set:traceback"} & st:
                    ctx.find("F-loop", key + "-sound", f.key,
                             "line %d: a binary that evolved without an exception is "
                             "marked as failed" % lp.lineno)
    return marks or set()


def flag_rule(ctx, binm, marks):
    """FAILED in the one-line table depends on something the loop sets."""
    for f in funcs(ctx.repo, lambda f: f.mod is binm):
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Assign) and any(
                    isinstance(t, ast.Subscript) and const_str(t.slice) == "FAILED"
                    for t in x.targets)):
                continue
            ctx.instance("F-flag", "%s line %d" % (f.key, x.lineno))
            # tests under which this assignment runs
            conds = guards(f.node, x)
            val = truth(x.value)
            if val is None:
                conds = conds + [(x.value, True)]
                val = True
            if not any(mentions(t, marks) for t, _ in conds):
                ctx.find("F-flag", "%s|FAILED" % f.key, f.key,
                         "line %d: FAILED does not depend on anything a failure sets "
                         "(%s)" % (x.lineno, ", ".join(sorted(marks))))
                continue
            for t, pol in conds:
                p = polarity(t, marks)
                if p is not None and (p == pol) != val:
                    ctx.find("F-flag", "%s|FAILED-polarity" % f.key, f.key,
                             "line %d: FAILED is set to %s when the binary %s failed" % (
                                 x.lineno, val, "has" if p == pol else "has not"))


def guards(fn, node):
    out = []

    def walk(n, acc):
        if n is node:
            out.extend(acc)
            return True
        if isinstance(n, (ast.If, ast.IfExp)):
            body = n.body if isinstance(n.body, list) else [n.body]
            orelse = n.orelse if isinstance(n.orelse, list) else [n.orelse]
            return any(walk(s, acc + [(n.test, True)]) for s in body) or any(
                walk(s, acc + [(n.test, False)]) for s in orelse)
        return any(walk(c, acc) for c in ast.iter_child_nodes(n))
    walk(fn, [])
    return out


def truth(e):
    if isinstance(e, (ast.List, ast.Tuple)) and len(e.elts) == 1:
        e = e.elts[0]
    if isinstance(e, ast.Constant):
        return bool(e.value)
    return None


def mentions(t, marks):
    for x in ast.walk(t):
        if isinstance(x, ast.Attribute) and x.attr in marks | {"event", "state"}:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and \
                const_str(x.args[1]) in marks | {"event", "state"}:
            return True
    return False


def polarity(t, marks):
    """True: holds for failed binaries; False: for the others; None: unclear."""
    if isinstance(t, (ast.List, ast.Tuple)) and len(t.elts) == 1:
        return polarity(t.elts[0], marks)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        p = polarity(t.operand, marks)
        return None if p is None else not p
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name):
        if t.func.id in ("int", "bool", "float") and t.args:
            return polarity(t.args[0], marks)
        if t.func.id == "hasattr" and const_str(t.args[1]) in marks:
            return True
    if isinstance(t, ast.IfExp):
        p = polarity(t.test, marks)
        a, b = truth(t.body), truth(t.orelse)
        if p is not None and a is not None and b is not None and a != b:
            return p == a
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
            t.left, ast.Attribute):
        k = const_str(t.comparators[0])
        if (t.left.attr, k) in (("event", "FAILED"), ("state", "ERR")):
            if isinstance(t.ops[0], ast.Eq):
                return True
            if isinstance(t.ops[0], ast.NotEq):
                return False
    return None


def timer_rules(ctx):
    repo = ctx.repo
    arming = []
    for f in funcs(repo, lambda f: True):
        cl = TimerClient(repo)
        if any(isinstance(x, ast.Call) and cl.alarm(x, f) == "on"
               for x in ast.walk(f.node)):
            arming.append(f)
    ctxm = [f for f in arming if "contextmanager" in f.decorators()]
    users = [f for f in funcs(repo, lambda f: any(
        isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and
        (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) in
        {g.name for g in arming} for x in ast.walk(f.node))) if arming and
        f not in arming]
    # a helper that only arms is judged in its callers
    helpers = [f for f in arming if users and any(
        calls_name(u, f.name) for u in users) and (f in ctxm or only_arms(f))]
    judged = [f for f in arming if f not in helpers] + [
        u for u in users if any(calls_name(u, h.name) for h in helpers)]
    for f in judged:
        cl = TimerClient(repo)
        P = Paths(repo, cl)
        outs = P.function(f)
        ctx.instance("F-timer", "%s, %d path ends" % (f.key, len(outs)))
        for k, c, st in outs:
            if "armed" in st:
                ctx.find("F-timer", "%s|armed" % f.key, f.key,
                         "the timer is still armed when the function is left by %s" % (
                             "an exception" if k == "raise" else k))
        if steps_in(repo, f.node, f):
            ctx.instance("F-armed", f.key)
            for g, n in cl.bad[:1]:
                ctx.find("F-armed", "%s|run_step" % f.key, f.key,
                         "line %d: a step is run without arming the timer for it" %
                         n.lineno)
    for f in funcs(repo, lambda f: f.mod.rel == BIN and f.cls is not None and
                   f.name in ("evolve", "run_step")):
        outs = Paths(repo, PassClient()).function(f)
        ctx.instance("F-pass", "%s, %d path ends" % (f.key, len(outs)))
        if any("exc" in st and k != "raise" for k, c, st in outs):
            ctx.find("F-pass", "%s|swallowed" % f.key, f.key,
                     "an error raised while a step runs is swallowed here: the binary "
                     "is not marked as failed")
    # every function that runs steps arms the timer
    for f in funcs(repo, lambda f: f.mod.rel == BIN and f.name == "evolve"):
        if f not in judged:
            ctx.instance("F-armed", f.key)
            ctx.find("F-armed", "%s|run_step" % f.key, f.key,
                     "steps are run without a timer")


def calls_name(f, name):
    return any(isinstance(x, ast.Call) and (
        isinstance(x.func, ast.Name) and x.func.id == name or
        isinstance(x.func, ast.Attribute) and x.func.attr == name)
        for x in ast.walk(f.node))


def steps_in(repo, node, f, depth=2):
    """Does the code run a step, itself or through a method of its class?"""
    for x in ast.walk(node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            if x.func.attr == "run_step":
                return True
            if depth and f.cls is not None:
                g = Paths(repo, Client()).target(x, f)
                if g is not None and g.cls is f.cls and g is not f and \
                        steps_in(repo, g.node, g, depth - 1):
                    return True
    return False


def only_arms(f):
    return not any(isinstance(x, (ast.For, ast.While, ast.Try)) for x in ast.walk(f.node))


def timeout_class(ctx, binm):
    """Exception class raised by the SIGALRM handler."""
    repo = ctx.repo
    for m in repo.modules.values():
        if "tests" in m.rel:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr == "signal" and len(x.args) == 2 and \
                    "SIGALRM" in ast.unparse(x.args[0]):
                h = repo.resolve(m, ast.unparse(x.args[1]))
                if isinstance(h, Func):
                    return m, h
    return None, None


def timeout_rule(ctx, binm):
    repo = ctx.repo
    m, h = timeout_class(ctx, binm)
    if h is None:
        ctx.instance("F-alarm")
        ctx.find("F-alarm", "handler", BIN, "no handler is installed for the timer")
        return
    P = Paths(repo, Client())
    outs = P.function(h)
    ctx.instance("F-alarm", h.key)
    classes = set()
    for k, c, st in outs:
        if k != "raise":
            ctx.find("F-alarm", "handler", h.key,
                     "the timer's handler can return without raising, so a step can run "
                     "beyond its time")
        else:
            classes.add(c)
    for cls in sorted(classes):
        up = P.supers(cls, h) if cls != ANY else {"Exception", "BaseException"}
        if not up & {"Exception"}:
            ctx.find("F-alarm", "class", h.key,
                     "the timeout %s is no Exception, so the population loop does not "
                     "catch it" % cls)
        for f in funcs(repo, lambda f: f.mod.rel.startswith(STEPCODE)):
            for t in ast.walk(f.node):
                if not isinstance(t, ast.Try) or not any(
                        isinstance(y, ast.Call) for s in t.body for y in ast.walk(s)):
                    continue
                if f.name in ("__init__", "load_a_step", "load_steps") or \
                        f.name.startswith(("train", "load_", "plot")):
                    continue
                for hd in t.handlers:
                    hs = P.handler_classes(hd)
                    if not hs & up:
                        continue
                    ctx.instance("F-timeout", "%s line %d" % (f.key, hd.lineno))
                    Q = Paths(repo, Client())
                    for k, c, st in Q.body(hd.body, {frozenset()}, f):
                        if k != "raise":
                            ctx.find("F-timeout", "%s|%s" % (f.key, "+".join(sorted(hs))),
                                     f.key, "line %d: this handler also catches the step "
                                     "timeout (%s) and the step goes on, now without a "
                                     "time limit" % (hd.lineno, cls))
                            break
                    break
                else:
                    ctx.instance("F-timeout")


def stop_rule(ctx, binm):
    """The step loop does not run for an ended or failed binary."""
    repo = ctx.repo
    for f in funcs(repo, lambda f: f.mod is binm and f.name == "evolve"):
        loops = [x for x in loops_of(f.node) if steps_in(repo, x, f)]
        for lp in loops:
            for ev in ("END", "FAILED"):
                ctx.instance("F-stop", "%s event %s" % (f.key, ev))
                test = lp.test if isinstance(lp, ast.While) else None
                v = tri(test, ev, f, ctx) if test is not None else None
                if v is not False:
                    # a break or return guarded by the event, before the step
                    if any(breaks(s, ev, f, ctx) for s in lp.body):
                        continue
                    ctx.find("F-stop", "%s|%s" % (f.key, ev), f.key,
                             "line %d: with event %s another step is run" % (
                                 lp.lineno, ev))


def breaks(s, ev, f, ctx):
    return isinstance(s, ast.If) and tri(s.test, ev, f, ctx) is True and \
        isinstance(s.body[-1], (ast.Break, ast.Return))


def tri(t, ev, f, ctx):
    if isinstance(t, ast.Call):
        g = Paths(ctx.repo, Client()).target(t, f)
        if g is not None:
            rs = [x for x in ast.walk(g.node) if isinstance(x, ast.Return)]
            if len(rs) == 1 and rs[0].value is not None:
                return tri(rs[0].value, ev, g, ctx)
    if isinstance(t, ast.BoolOp):
        vs = [tri(x, ev, f, ctx) for x in t.values]
        if isinstance(t.op, ast.And):
            return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = tri(t.operand, ev, f, ctx)
        return None if v is None else not v
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
            t.left, ast.Attribute) and t.left.attr == "event":
        c = t.comparators[0]
        op = t.ops[0]
        if isinstance(c, ast.Constant):
            if isinstance(op, ast.Eq):
                return c.value == ev
            if isinstance(op, ast.NotEq):
                return c.value != ev
        vals = None
        if isinstance(c, (ast.List, ast.Tuple, ast.Set)) and all(
                isinstance(x, ast.Constant) for x in c.elts):
            vals = [x.value for x in c.elts]
        elif isinstance(c, ast.Name):
            w = ctx.consts.get(f.mod, c.id)
            if isinstance(w, (list, tuple, set, frozenset)):
                vals = list(w)
        if vals is not None:
            if isinstance(op, ast.In):
                return ev in vals
            if isinstance(op, ast.NotIn):
                return ev not in vals
    if isinstance(t, ast.Constant):
        return bool(t.value)
    return None


def table_rule(ctx, mod):
    repo = ctx.repo
    for f in funcs(repo, lambda f: f.mod is mod and f.name == "breakdown_to_df"
                   and f.cls is not None):
        if not any(isinstance(x, ast.Attribute) and x.attr in ("history_dfs",)
                   for x in ast.walk(f.node)) and not any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                x.func.attr == "to_df" for x in ast.walk(f.node)):
            continue
        P = Paths(repo, TableClient())
        outs = P.function(f)
        ctx.instance("F-table", "%s, %d path ends" % (f.key, len(outs)))
        for k, c, st in outs:
            if "exc" in st and k == "raise":
                ctx.find("F-table", f.key + "|raise", f.key,
                         "a binary that cannot be converted to a table stops the "
                         "population")
            if ("h" in st) != ("o" in st):
                ctx.find("F-table", f.key + "|pair", f.key,
                         "on a path the history table is kept without the one-line "
                         "table or the reverse, so later binaries are mismatched")
            if "rm" not in st and k != "raise":
                ctx.find("F-table", f.key + "|left", f.key,
                         "on a path the binary stays in the manager, whose tables are "
                         "then not saved")
            if "exc" not in st and not {"h", "o"} <= st:
                ctx.find("F-table", f.key + "|lost", f.key,
                         "on a path the tables of the binary are not kept")
