"""C05: histories stay rectangular.

The functions that write histories (construction, recording a step, restoring,
the grid step, its stop conditions, the detached step, reading a grid run, the
step hooks) are evaluated symbolically; the length of every history afterwards is
computed as a symbolic number of rows, and all histories of a binary and of its
stars have to come out with the same one.
"""
import itertools

from .. import vn
from ..consts import UNKNOWN
from ..ev import Evaluator
from ..lengths import Lengths
from ..repo import AnalysisBroken
from ..vn import FALSE, NONE, TRUE, add_, c, mk, sub_, sym

BS = "posydon/binary_evol/binarystar.py"
SS = "posydon/binary_evol/singlestar.py"

ASSUMPTIONS = [
    "the binary history and the star histories of one grid run have equally many "
    "rows (C20); a truncation index lies inside the history",
    "calls that are not followed act element-wise on their array arguments"]
OPAQUE = ["check_state_of_star", "get_binary_state_and_event_and_mt_case",
          "bondi_hoyle", "eddington_limit", "spin_stable_mass_transfer",
          "infer_star_state", "CO_radius", "_collect_sn_model_values", "Pwarn",
          "zero_negative_values", "orbital_period_from_separation",
          "orbital_separation_from_period", "interpolate_at_t"]


class Sys:
    """A symbolic binary with two stars and the lengths of their histories."""

    def __init__(self, b, props, extra=None, known=()):
        self.b = b
        self.s = [mk("attr", b, "star_1"), mk("attr", b, "star_2")]
        self.props = props
        self.extra = extra
        vn.DISTINCT.update([b] + self.s)

    def base(self, n):
        if self.extra is not None:
            r = self.extra(n)
            if r is not ...:
                return r
        if n.k == "attr":
            if n.a[1].endswith("_history") and n.a[0] in [self.b] + self.s:
                return sym("rows")
            return None
        if n.k == "sym":
            return None
        return ...

    def lengths(self, heap):
        le = Lengths(self.base)
        out = []
        for o, lab, ps in ((self.b, "binary", self.props[0]),
                           (self.s[0], "star_1", self.props[1]),
                           (self.s[1], "star_2", self.props[1])):
            for p in ps:
                n = heap.get((o, p + "_history"), mk("attr", o, p + "_history"))
                l = le.L(n)
                out.append((lab + "." + p, l if l is not None else mk("scalar"), n))
        return out, le


def majority(rows):
    cnt = {}
    for _, l, _n in rows:
        cnt[l.id] = cnt.get(l.id, 0) + 1
    best = max(cnt.values())
    return next(l for _, l, _n in rows if cnt[l.id] == best)


def undecided(l):
    return bool(vn.deps(l, lambda y: y.k == "badlen"))


def judge(ctx, rid, title, where, rows, want=None):
    """All histories must have one length (and `want` if given)."""
    unk = [r for r in rows if undecided(r[1])]
    for nm, _l, _n in unk:
        ctx.note("row count not decided: %s %s" % (title, nm))
    rows = [r for r in rows if r not in unk]
    if not rows:
        return
    ref = majority(rows)
    ctx.instance(rid, title, len(rows))
    if want is not None and ref is not want:
        ctx.find(rid, title, where, "the histories get %s rows, expected %s" % (
            vn.show(ref)[:160], vn.show(want)[:80]))
    for nm, l, n in rows:
        if l is not ref:
            d = _where_differ(ref, l)
            ctx.find(rid, title + ":" + nm, where,
                     "history of %s gets %s rows while the others get %s (%s)" % (
                         nm, vn.show(d[1])[:120], vn.show(d[0])[:120], title))


def _where_differ(a, b):
    """Leaves of the two length functions that differ."""
    try:
        for x in vn.leaves(vn.lift(lambda p, q: mk("pair", p, q), a, b, limit=200)):
            if x.k == "pair" and x.a[0] is not x.a[1]:
                return x.a
    except Exception:
        pass
    return (a, b)


def props(ctx):
    B, S = ctx.consts.get(BS, "BINARYPROPERTIES"), ctx.consts.get(SS, "STARPROPERTIES")
    if B is UNKNOWN or S is UNKNOWN:
        raise AnalysisBroken("property lists not found")
    return list(B), list(S)


def evaluator(ctx, cls, me, noinline=(), depth=6):
    ev = Evaluator(ctx.repo, ctx.consts, max_depth=depth,
                   noinline=OPAQUE + list(noinline))
    ev.types[me.id] = cls
    return ev


def check(ctx):
    repo = ctx.repo
    P = props(ctx)
    B, S, M, D = (repo.cls(n) for n in ("BinaryStar", "SingleStar", "MesaGridStep",
                                        "detached_step"))
    if None in (B, S, M, D):
        raise AnalysisBroken("classes not found")
    ctx.rule("H-init", "a new binary or star has one history entry per property, its "
             "current value", 60)
    ctx.rule("H-append", "recording a step appends the current value to every "
             "history", 100)
    ctx.rule("H-restore", "restoring sets every property to its recorded value and "
             "truncates every history alike", 100)
    ctx.rule("H-step", "a step is recorded exactly once, after it ran", 1)
    ctx.rule("H-grid", "a grid step adds the same number of rows to every history", 500)
    ctx.rule("H-source", "history and final value of a property come from the same "
             "grid column", 60)
    ctx.rule("H-stop", "a stop condition leaves all histories equally long", 300)
    ctx.rule("H-detached", "a detached step adds one row per interpolated time except "
             "the last to every history", 300)
    ctx.rule("H-overwrite", "rows corrected afterwards are the rows just added", 1)
    ctx.rule("H-run", "a binary or star read from a grid run has histories of one "
             "length", 60)
    ctx.rule("H-hook", "columns kept by the step hooks have one entry per history "
             "row", 2)
    vn.KEEP_SHAPE = True
    try:
        vn.reset()
        init(ctx, B, S, P)
        vn.reset()
        append(ctx, B, S, P)
        vn.reset()
        restore(ctx, B, S, P)
        vn.reset()
        step(ctx, B)
        grid(ctx, M, P)
        stop(ctx, M, P)
        detached(ctx, D, P)
        run(ctx, B, S, P)
        vn.reset()
        hooks(ctx)
    finally:
        vn.KEEP_SHAPE = False
        vn.reset()


# ---------------------------------------------------------------- the container
def init(ctx, B, S, P):
    for cls, ps, arg in ((B, P[0], "binary_kwargs"), (S, P[1], "kwargs")):
        me = sym("self")
        f = ctx.repo.find_method(cls, "__init__")
        kw = f.node.args.kwarg
        ev = evaluator(ctx, cls, me)
        v, h, rp, fr = ev.run(f, {kw.arg if kw else arg: ev.mkdict([])}, self_node=me)
        for p in ps:
            ctx.instance("H-init", cls.name + "." + p)
            val, hist = h.get((me, p)), h.get((me, p + "_history"))
            if val is None:
                ctx.find("H-init", cls.name + "." + p, f.key, "a new %s has no "
                         "property %s" % (cls.name, p))
            elif not same_hist(hist, val):
                ctx.find("H-init", cls.name + "." + p, f.key, "history of %s starts "
                         "as %s, not as [value]" % (p, hist and vn.show(hist)[:80]))


def same_hist(hist, val):
    if hist is None:
        return False
    return hist is vn.lift(lambda x: mk("list", x), val, limit=64) or \
        hist is mk("list", val) or (
            hist.k == "list" and len(hist.a) == 1 and hist.a[0].k == val.k == "ite") or \
        hist.k == "ite"


def append(ctx, B, S, P):
    for cls in (S, B):
        me = sym("self")
        f = ctx.repo.find_method(cls, "append_state")
        sy = Sys(me, P)
        objs = [(me, "", P[1])] if cls is S else [
            (me, "", P[0]), (sy.s[0], "star_1.", P[1]), (sy.s[1], "star_2.", P[1])]
        for verbose, ev_ in itertools.product((True, False),
                                              ("ZAMS", "redirect_from_ZAMS", None)):
            if cls is S and (verbose is False or ev_ != "ZAMS"):
                continue
            ev = evaluator(ctx, cls, me)
            h0 = {(me, "history_verbose"): c(verbose), (me, "event"): c(ev_)} \
                if cls is B else {}
            if cls is B:
                for s in sy.s:
                    ev.types[s.id] = S
            v, h, rp, fr = ev.run(f, {}, self_node=me, heap=dict(h0))
            skip = cls is B and not verbose and ev_ is not None and "redirect" in ev_
            for o, lab, ps in objs:
                for p in ps:
                    ctx.instance("H-append", "%s %s%s" % (cls.name, lab, p))
                    old = mk("attr", o, p + "_history")
                    new = h.get((o, p + "_history"), old)
                    val = h0.get((o, p), mk("attr", o, p))
                    want = old if skip else mk("concat", old, mk("list", val))
                    if new is not want:
                        ctx.find("H-append", "%s.%s%s" % (cls.name, lab, p), f.key,
                                 "recording a step turns the history of %s%s into %s" % (
                                     lab, p, vn.show(new)[:120]))
                    if h.get((o, p), val) is not val:
                        ctx.find("H-append", "%s.%s%s=" % (cls.name, lab, p), f.key,
                                 "recording a step changes the value of %s%s" % (lab, p))


def restore(ctx, B, S, P):
    for cls in (S, B):
        me = sym("self")
        f = ctx.repo.find_method(cls, "restore")
        i = sym("i")
        sy = Sys(me, P)
        ev = evaluator(ctx, cls, me)
        h0 = {}
        hk = sym("hook")
        ev.types[hk.id] = ctx.repo.cls("StepNamesHooks")
        h0[(hk, "extra_binary_col_names")] = mk("list", c("step_names"))
        h0[(hk, "extra_star_col_names")] = mk("list", c("xcol"))
        args = {"i": i}
        if cls is B:
            for s in sy.s:
                ev.types[s.id] = S
            h0[(mk("attr", me, "properties"), "all_hooks_classes")] = mk("list", hk)
        else:
            args["hooks"] = mk("list", hk)
        v, h, rp, fr = ev.run(f, args, self_node=me, heap=h0)
        objs = [(me, "", P[1])] if cls is S else [
            (me, "", P[0]), (sy.s[0], "star_1.", P[1]), (sy.s[1], "star_2.", P[1])]
        le = Lengths(lambda n: sym("rows") if n.k == "attr" else
                     None if n.k == "sym" else ...)
        for o, lab, ps in objs:
            for p in ps:
                ctx.instance("H-restore", "%s %s%s" % (cls.name, lab, p))
                old = mk("attr", o, p + "_history")
                new = h.get((o, p + "_history"), old)
                val = h.get((o, p), mk("attr", o, p))
                if val is not mk("idx", old, i):
                    ctx.find("H-restore", "%s.%s%s" % (cls.name, lab, p), f.key,
                             "restore(i) sets %s%s to %s, not to its i-th recorded "
                             "value" % (lab, p, vn.show(val)[:100]))
                ok = new.k == "idx" and new.a[0] is old and new.a[1].k == "slice" and \
                    new.a[1].a[0] in (c(0), NONE) and le.L(new) is add_(i, c(1))
                if not ok:
                    ctx.find("H-restore", "%s.%s%s_history" % (cls.name, lab, p),
                             f.key, "restore(i) turns the history of %s%s into %s, "
                             "not into its first i+1 entries" % (
                                 lab, p, vn.show(new)[:100]))
        cols = [(me, "step_names")] if cls is B else []
        cols += [(o, "xcol") for o, lab, _ in objs if lab or cls is S]
        for o, col in cols:
            ctx.instance("H-restore", "hook column " + col)
            new = h.get((o, col), mk("attr", o, col))
            if le.L(new) is not add_(i, c(1)):
                ctx.find("H-restore", "%s.%s" % (cls.name, col), f.key,
                         "restore(i) leaves %s rows in a column kept by a hook" %
                         vn.show(le.L(new) or new)[:100])


def step(ctx, B):
    f = ctx.repo.find_method(B, "run_step")
    me = sym("self")
    ev = evaluator(ctx, B, me, noinline=["append_state", "get_next_step_name",
                                         "get_next_step", "get_total_state"])
    v, h, rp, fr = ev.run(f, {}, self_node=me)
    order = []
    for pc, n in ev.effects:
        t = vn.show(n)
        ok = vn.and_(pc, vn.not_(rp)) is vn.not_(rp)
        if ".append_state" in t and n.k == "call":
            order.append(("append", ok))
        elif n.k == "call" and ("get_next_step(" in t.split(",")[0] or
                                "getattr(" in t[:12]):
            order.append(("step", ok))
    ctx.instance("H-step", "run_step: %s" % order)
    names = [o for o, _ in order]
    if names.count("append") != 1 or not all(ok for o, ok in order if o == "append"):
        ctx.find("H-step", "run_step", f.key, "a step is recorded %d times, or only "
                 "under a condition" % names.count("append"))
    elif "step" in names and names.index("step") > names.index("append"):
        ctx.find("H-step", "run_step:order", f.key,
                 "the state is recorded before the step has run")


# ---------------------------------------------------------------- the grid step
def grid(ctx, M, P):
    f = ctx.repo.find_method(M, "update_properties_NN")
    for save, track, co, flush in itertools.product(
            (True, False), (True, False), ((False, False), (True, False), (False, True)),
            (True, False)):
        vn.reset()
        me = sym("self")
        cb = mk("attr", me, "closest_binary")

        def extra(n, cb=cb):
            if n.k == "attr" and n.a[0] is cb and n.a[1] in (
                    "binary_history", "history1", "history2"):
                return sym("mesa")
            return ...
        sy = Sys(mk("attr", me, "binary"), P, extra)
        ev = evaluator(ctx, M, me)
        v, h, rp, fr = ev.run(f, {"star_1_CO": c(co[0]), "star_2_CO": c(co[1]),
                                  "track_interpolation": c(track)}, self_node=me,
                              heap={(me, "save_initial_conditions"): c(save),
                                    (me, "flush_history"): c(flush)})
        rows, le = sy.lengths(h)
        title = "save=%d track=%d CO=%d%d flush=%d" % (save, track, co[0], co[1], flush)
        judge(ctx, "H-grid", title, f.key, rows)
        want = add_(sym("rows"), add_(c(1 if save else 0),
                                      sub_(sym("mesa"), c(1)) if track else c(0)))
        ls = [x for x in vn.leaves(majority(rows)) if x is not sym("rows")]
        if any(undecided(x) for x in ls):
            continue
        if (want is not sym("rows") and ls != [want]) or (want is sym("rows") and ls):
            ctx.find("H-grid", title, f.key, "the grid step adds %s rows, expected "
                     "%s" % ([vn.show(x)[:60] for x in ls], vn.show(want)))
        if save and track and not flush:
            source(ctx, f, sy, h, cb, P)


def columns(n, cb):
    """(record, column) pairs a node was computed from, and the slices used."""
    cols, sl = set(), set()
    for x in vn.deps(n, lambda y: y.k == "idx"):
        b = x.a[0]
        if b.k == "attr" and b.a[0] is cb and x.a[1].k == "c":
            cols.add((b.a[1], x.a[1].a[0]))
        if b.k == "idx" and b.a[0].k == "attr" and b.a[0].a[0] is cb and \
                x.a[1].k == "slice":
            sl.add(vn.show(x.a[1]))
    return cols, sl


def grown(n, old):
    """Parts appended to a history, per leaf."""
    out = []
    for x in vn.leaves(n):
        parts = []
        while x.k == "concat":
            parts.append(x.a[1])
            x = x.a[0]
        if x is old and parts:
            out.append(parts[::-1])
    return out


def source(ctx, f, sy, h, cb, P):
    for o, lab, ps in ((sy.b, "binary", P[0]), (sy.s[0], "star_1", P[1]),
                       (sy.s[1], "star_2", P[1])):
        for p in ps:
            hist = h.get((o, p + "_history"))
            val = h.get((o, p))
            if hist is None or val is None:
                continue
            ctx.instance("H-source", lab + "." + p)
            cv = columns(val, cb)[0]
            for parts in grown(hist, mk("attr", o, p + "_history"))[:3]:
                for part in parts[:2]:
                    if part.k in ("rep",):
                        continue
                    cp, sl = columns(part, cb)
                    cp -= {x for x in cp if x[1] in ("age", "center_he4",
                                                     "star_1_mass") and x not in cv}
                    cw = {x for x in cv if x in cp} if cp else set()
                    if cp and cv and cp - cv:
                        ctx.find("H-source", lab + "." + p, f.key,
                                 "history of %s.%s is read from column %s, its value "
                                 "from %s" % (lab, p, sorted(cp - cv), sorted(cv)))
                    if sl - {"slice(None, -1, None)", "slice(0, -1, None)"}:
                        ctx.find("H-source", lab + "." + p + ":rows", f.key,
                                 "history of %s.%s takes the rows %s, the others all "
                                 "but the last" % (lab, p, sorted(sl)))


def stop(ctx, M, P):
    cases = [("stop_at_end", None, None, True), ("stop_at_end", None, None, False)]
    for flush in (True, False):
        cases += [("stop_at_condition", "time", True, flush),
                  ("stop_at_condition", "time", False, flush),
                  ("stop_at_condition", "mass", False, flush)]
    for name, prop, interp, flush in cases:
        f = ctx.repo.find_method(M, name)
        for star in ("star_1", "star_2") if prop == "mass" else ("star_1",):
            vn.reset()
            me, b = sym("self"), sym("binary")
            sy = Sys(b, P)
            ev = evaluator(ctx, M, me)
            # only the lengths matter: keep the interpolated values opaque
            v, h, rp, fr = ev.run(f, {"binary": b, "property": c(prop), "star": c(star),
                                      "interpolate": c(interp)}, self_node=me,
                                  heap={(me, "flush_history"): c(flush),
                                        (me, "binary"): b})
            rows, le = sy.lengths(h)
            judge(ctx, "H-stop", "%s(%s, interpolate=%s) flush=%s %s" % (
                name, prop, interp, flush, star), f.key, rows)


# ------------------------------------------------------------- the detached step
def detached(ctx, D, P):
    f = ctx.repo.find_method(D, "__call__")
    T = sym("T")
    for sw, c1, c2 in itertools.product((True, False), (False, True), (False, True)):
        vn.reset()
        me, b = sym("self"), sym("binary")

        def extra(n):
            if n.k == "call" and "get_time_after_evo" in n.a[0]:
                return T
            return ...
        sy = Sys(b, P, extra)
        ev = evaluator(ctx, D, me, noinline=[
            "solve_ODEs", "get_time_after_evo", "ev_rlo1", "ev_rlo2", "ev_rel_rlo1",
            "ev_rel_rlo2", "set_stars", "get_star_final_values", "get_star_profile"])
        ev.types[mk("attr", me, "track_matcher").id] = ctx.repo.cls("TrackMatcher")
        pr, se = (sy.s[0], sy.s[1]) if sw else (sy.s[1], sy.s[0])
        ev.overrides["do_matching"] = lambda *a, pr=pr, se=se: mk("tuple", pr, se,
                                                                 c(False))
        ev.no_exc = True
        v, h, rp, fr = ev.run(f, {"binary": b}, self_node=me,
                              heap={(pr, "co"): c(c1), (se, "co"): c(c2)})
        rows, le = sy.lengths(h)
        title = "primary=%s CO=%d%d" % ("star_1" if sw else "star_2", c1, c2)
        judge(ctx, "H-detached", title, f.key, rows)
        want = sub_(add_(sym("rows"), T), c(1))
        ls = {x for x in vn.leaves(majority(rows))} - {sym("rows")}
        if any(undecided(x) for x in ls):
            continue
        if ls != {want} and ls != {vn.ite(vn.lt(c(1), T), want, sym("rows"))}:
            ctx.find("H-detached", title, f.key, "the detached step adds rows so "
                     "that histories hold %s, expected rows+T-1" % [
                         vn.show(x)[:80] for x in ls])
        for (o, k), val in h.items():
            if isinstance(k, vn.N):
                overwrite(ctx, f, title, o, k, val, le, want)


def overwrite(ctx, f, title, base, k, val, le, total):
    """Items of a history replaced after it was extended by `total` - rows."""
    root = base
    while root.k in ("concat", "upd"):
        root = root.a[0]
    if root.k != "attr" or not str(root.a[1]).endswith("_history") or root is base:
        return
    nm = "%s %s" % (title, vn.show(root))
    added = sub_(total, sym("rows"))
    if k.k == "elem":
        it = k.a[0]
        if it.k != "call" or it.a[0] != "range":
            return
        ctx.instance("H-overwrite", nm)
        a = [le.norm(y) for y in it.a[1]]
        if len(a) == 1:
            a.insert(0, c(0))
        n = sub_(a[1], a[0])
        if n is not added or not (a[1] is c(0) or a[1] is total):
            ctx.find("H-overwrite", nm, f.key, "corrects the rows from %s to %s of "
                     "the history, but %s rows were added" % (
                         vn.show(a[0]), vn.show(a[1]), vn.show(added)))
    elif k.k == "slice":
        lo, hi, st = k.a
        bl, vl = le.L(base), le.L(val)
        if bl is None or vl is None:
            return
        ctx.instance("H-overwrite", nm)
        hi = bl if hi is NONE else le.norm(hi)
        n = sub_(hi, le.norm(lo) if lo is not NONE else c(0))
        if not all(p is q for p, q in _pairs(n, vl)):
            ctx.find("H-overwrite", nm, f.key, "replaces %s rows of the history by "
                     "%s values" % (vn.show(n)[:80], vn.show(vl)[:80]))


def _pairs(a, b):
    r = vn.lift(lambda p, q: mk("pair", p, q), a, b, limit=200)
    return [(x.a[0], x.a[1]) for x in vn.leaves(r) if x.k == "pair"]


# -------------------------------------------------------------- reading a grid run
def run(ctx, B, S, P):
    for cls, hist in itertools.product((B, S), (True, False)):
        vn.reset()
        f = ctx.repo.find_method(cls, "from_run")
        r = sym("run")

        def extra(n):
            if n.k == "attr" and n.a[0] is r:
                if n.a[1] in ("binary_history", "history1", "history2"):
                    return sym("mesa")
                return None
            return ...
        ev = evaluator(ctx, cls, sym("self"), depth=5)
        ev.instantiate = {B.key, S.key}
        ev.no_exc = True
        v, h, rp, fr = ev.run(f, {"run": r, "history": c(hist)})
        objs = sorted({k[0] for k in h if k[0].k == "inst"}, key=lambda o: o.id)
        res = []
        for o in objs:
            ps = P[0] if o.a[0] == B.name else P[1]
            le = Lengths(lambda n: extra(n) if extra(n) is not ... else
                         None if n.k in ("attr", "sym") else ...)
            for p in ps:
                n = h.get((o, p + "_history"))
                if n is None:
                    continue
                l = le.L(n)
                res.append(("%s.%s" % (o.a[0], p), l if l is not None else mk("scalar"),
                            n))
        if not res:
            raise AnalysisBroken("no histories found in from_run")
        want = sym("mesa") if hist else c(1)
        for nm, l, n in res:
            ctx.instance("H-run", nm)
            bad = [x for x in vn.leaves(l) if x is not want and x is not c(1)]
            if bad:
                ctx.find("H-run", "%s history=%s" % (nm, hist), f.key,
                         "history of %s read from a run has %s rows, expected %s" % (
                             nm, vn.show(bad[0])[:100], vn.show(want)))


# --------------------------------------------------------------------------- hooks
def hooks(ctx):
    for cn, col in (("TimingHooks", "step_times"), ("StepNamesHooks", "step_names")):
        cls = ctx.repo.cls(cn)
        if cls is None:
            continue
        b, me = sym("binary"), sym("self")
        E = sym("E")

        def base(n):
            if n.k == "attr":
                if n.a[0] is b and n.a[1] == "event_history":
                    return E
                if n.a[0] is b and n.a[1] == col:
                    return sym("X")
                return None
            if n.k == "sym":
                return None
            return ...
        for m in ("post_step",):
            f = ctx.repo.find_method(cls, m)
            ev = evaluator(ctx, cls, me)
            v, h, rp, fr = ev.run(f, {"binary": b, "step_name": sym("step_name")},
                                  self_node=me)
            n = h.get((b, col))
            ctx.instance("H-hook", cn + "." + m)
            le = Lengths(base)
            l = le.L(n) if n is not None else None
            if l is None:
                ctx.find("H-hook", cn, f.key, "%s is not updated by a step" % col)
                continue
            # rows before the hook: X; afterwards every case must end with E rows
            for lits, leaf in vn_paths(l):
                if leaf is E:
                    continue
                if ("eq", 0) == lits.get(_diffkey(E)):
                    continue
                if not equal_under(lits, leaf, E):
                    ctx.find("H-hook", cn + "." + m, f.key,
                             "%s keeps %s entries for %s history rows" % (
                                 col, vn.show(leaf)[:80], "E"))
                    break


def vn_paths(l):
    out = []

    def rec(x, lits):
        if x.k == "ite":
            rec(x.a[1], lits + [(x.a[0], True)])
            rec(x.a[2], lits + [(x.a[0], False)])
        else:
            out.append((Lits(lits), x))
    rec(l, [])
    return out


class Lits(list):
    def get(self, k):
        return None


def _diffkey(e):
    return None


def equal_under(lits, leaf, E):
    """leaf - E is zero on the path: bounded above and below by its conditions."""
    d = sub_(leaf, E)
    if d is c(0):
        return True
    lo = hi = None
    for a, val in lits:
        if a.k != "lt":
            if a.k == "eq" and val and sub_(a.a[0], a.a[1]) in (d, vn.neg_(d)):
                return True
            continue
        e = sub_(a.a[0], a.a[1])     # val: e < 0 ; not val: e >= 0
        k = sub_(e, d)
        m = add_(e, d)
        if vn.isnum(k):              # e = d + k
            v = k.a[0]
            if val:                  # d < -v
                hi = min(hi, -v - 1) if hi is not None else -v - 1
            else:                    # d >= -v
                lo = max(lo, -v) if lo is not None else -v
        elif vn.isnum(m):            # e = m - d
            v = m.a[0]
            if val:                  # d > v
                lo = max(lo, v + 1) if lo is not None else v + 1
            else:                    # d <= v
                hi = min(hi, v) if hi is not None else v
    return lo == 0 and hi == 0 or (lo is not None and hi is not None and lo > hi)
