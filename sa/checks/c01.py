"""C01: the evolution flow is total on the outcomes of the steps.

The two flow charts are folded to constant tables from the source (constant
propagation over the module, no import); the rules below are decided on the
complete tables and on the label assignments found in the step code.
"""
import ast
import time

from ..consts import UNKNOWN
from .. import labels, vn
from ..ev import Evaluator
from ..repo import AnalysisBroken
from ..vn import FALSE, NONE, TRUE, c, mk, sym

ASSUMPTIONS = [
    "the domain of the flow is the cross product of the star-state, binary-state"
    " and event vocabularies restricted to the outcome families listed in the check",
    "user supplied CHANGE_FLOW_CHART tables are outside the analysis",
]
FC = "posydon/binary_evol/flow_chart.py"

CO = {"BH", "NS", "WD"}
ML = "massless_remnant"


def is_he(s):
    return s.startswith("stripped_He") or s == "accreted_He_Core_He_burning"


def mirror_label(x):
    if x is None:
        return None
    if x in ("Match12",):
        return x
    return x.translate(str.maketrans("12", "21")) if x[-1:] in "12" else x


def spec(S, B, E):
    """(family, keys, destination or None for 'any existing step')."""
    N = [s for s in S if s not in CO and s != ML]
    HE = [s for s in N if is_he(s)]
    # stars without nuclear burning whose surface is undetermined can be on
    # either side
    NB = ["H-rich_non_burning", "accreted_He_non_burning"]
    HER = HE + [s for s in NB if s in N]
    HR = [s for s in N if s not in HE]
    dep = [s for s in N if "C_depleted" in s]
    HRE = [s for s in HR if s not in dep]
    HEE = [s for s in HER if s not in dep]
    X = lambda a, b, bs, es: [(p, q, b_, e_) for p in a for q in b
                              for b_ in bs for e_ in es]
    ms = ["H-rich_Core_H_burning"]
    two = [1, 2]

    def both(a, b, f):
        out = []
        for p in a:
            for q in b:
                out.append((p, q) + f(1))
                out.append((q, p) + f(2))
        return out
    cc = ["H-rich_Core_C_depleted", "H-rich_Core_He_depleted",
          "stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted",
          "stripped_He_non_burning", "H-rich_non_burning",
          "H-rich_Shell_H_burning", "accreted_He_Shell_H_burning",
          "accreted_He_non_burning"]
    fam = []
    fam.append(("two zero-age main-sequence stars start on the HMS-HMS grid",
                X(ms, ms, ["detached"], ["ZAMS"]), ("step_HMS_HMS", "step_detached")))
    fam.append(("redirected zero-age binaries evolve detached",
                X(ms, ms, ["detached"], ["redirect_from_ZAMS"]), ("step_detached",)))
    fam.append(("two normal detached stars evolve detached",
                X(N, N, ["detached"], [None]), ("step_detached",)))
    fam.append(("detached H-rich star with a compact object evolves detached",
                both([s for s in HR if s not in HEE], list(CO),
                     lambda k: ("detached", None)), ("step_detached",)))
    fam.append(("detached He-rich star with a compact object uses its grid",
                both(HEE, list(CO), lambda k: ("detached", None)),
                ("step_CO_HeMS",)))
    fam.append(("two compact objects inspiral",
                X(list(CO), list(CO), ["detached"], [None]), ("step_dco",)))
    fam.append(("H-rich star overflowing onto a compact object",
                both([s for s in HRE if s not in HEE], list(CO),
                     lambda k: ("RLO%d" % k, "oRLO%d" % k)), ("step_CO_HMS_RLO",)))
    fam.append(("He-rich star overflowing onto a compact object",
                both(HEE, list(CO), lambda k: ("RLO%d" % k, "oRLO%d" % k)),
                ("step_CO_HeMS_RLO",)))
    fam.append(("two He-rich stars in Roche-lobe overflow merge or use the grid",
                both(HER, HER, lambda k: ("RLO%d" % k, "oRLO%d" % k)),
                ("step_merged", "step_HMS_HMS_RLO")))
    for e, a in (("redirect_from_CO_HMS_RLO", HR), ("redirect_from_CO_HeMS", HER),
                 ("redirect_from_CO_HeMS_RLO", HER)):
        fam.append(("binaries outside the grid (%s) evolve detached" % e,
                    both(a, list(CO), lambda k, e=e: ("detached", e)),
                    ("step_detached",)))
    fam.append(("unstable mass transfer goes to the common envelope",
                [k for kk in ("oCE", "oDoubleCE") for k in both(
                    N, S, lambda k, kk=kk: ("RLO%d" % k, kk + str(k)))
                 if not (ML in k[:2])], ("step_CE",)))
    fam.append(("contact common envelopes go to the common envelope",
                [k for k in X(N, N, ["contact"],
                              ["oCE1", "oCE2", "oDoubleCE1", "oDoubleCE2"])],
                ("step_CE",)))
    fam.append(("a collapsing star goes to the supernova step",
                [k for b in B for k in both(
                    cc, S, lambda k, b=b: (b, "CC%d" % k))
                 if b not in ("initial_RLOF",)], ("step_SN",)))
    fam.append(("disrupted binaries with a living star continue",
                [k for k in X(S, S, ["disrupted"],
                              [e for e in E if e not in (
                                  "CC1", "CC2", "MaxTime_exceeded", "maxtime",
                                  "CO_contact")])
                 if not (set(k[:2]) <= CO) and not (ML in k[:2])],
                ("step_disrupted",)))
    fam.append(("mergers go to the merger step",
                [k for k in X(S, S, ["merged"], ["oMerging1", "oMerging2"])
                 if not (ML in k[:2])], ("step_merged",)))
    fam.append(("initially single stars go to their step",
                [k for k in X(S, S, ["initially_single_star"], ["ZAMS"])
                 if not (set(k[:2]) <= CO | {ML})], ("step_initially_single",)))
    fam.append(("a binary past the maximum time or in compact contact ends",
                X(S, S, B, ["maxtime", "MaxTime_exceeded", "CO_contact"]),
                ("step_end",)))
    fam.append(("binaries overflowing initially end",
                X(S, S, ["initial_RLOF"], E), ("step_end",)))
    fam.append(("disrupted pairs of compact objects end",
                X(list(CO), list(CO), ["disrupted"], E), ("step_end",)))
    fam.append(("a compact object without companion ends",
                both(list(CO), [ML], lambda k: ())[:0]
                + [k for b in B for e in E for k in
                   [(c, ML, b, e) for c in CO] + [(ML, c, b, e) for c in CO]],
                ("step_end",)))
    fam.append(("two massless remnants end",
                X([ML], [ML], B, E), ("step_end",)))
    return fam


def ecc_spec(S):
    N = [s for s in S if s not in CO and s != ML and "C_depleted" not in s]
    out = []
    for k in (1, 2):
        out.append(("two normal stars in Roche-lobe overflow use their grid",
                    [(p, q, "RLO%d" % k, "oRLO%d" % k) for p in N for q in N],
                    ("step_HMS_HMS_RLO",)))
    out.append(("binaries outside that grid evolve detached",
                [(p, q, "detached", "redirect_from_HMS_HMS_RLO")
                 for p in N for q in N], ("step_detached",)))
    ms = "H-rich_Core_H_burning"
    out.append(("zero-age binaries start detached",
                [(ms, ms, "detached", "ZAMS")], ("step_detached",)))
    return out


def check(ctx):
    repo, consts = ctx.repo, ctx.consts
    ctx.rule("F-vocab", "every key and destination of the flow is a declared label"
             " or an existing step", 30000)
    ctx.rule("F-mirror", "the mirrored combination has the mirrored destination",
             30000)
    ctx.rule("F-total", "every outcome family is defined and sent to its step", 20)
    ctx.rule("F-outcome", "a (state, event) pair assigned by a step has a next step",
             25)
    ctx.rule("F-redirect", "a redirect never leads back to the redirecting step", 3)
    ctx.rule("F-accept", "a step does not refuse a combination the flow sends to it",
             100)
    ctx.rule("F-lookup", "the flow is looked up with (star 1, star 2, state, event)"
             " and unknown states are refused before a step runs", 3)
    ctx.rule("F-end", "terminal steps terminate and the evolution loop stops", 5)

    S = consts.get(FC, "STAR_STATES_ALL")
    B = consts.get(FC, "BINARY_STATES_ALL")
    E = consts.get(FC, "BINARY_EVENTS_ALL")
    for n, v in (("STAR_STATES_ALL", S), ("BINARY_STATES_ALL", B),
                 ("BINARY_EVENTS_ALL", E)):
        if v is UNKNOWN or not isinstance(v, (list, tuple)):
            raise AnalysisBroken("%s is not a constant" % n)
    tables = {}
    for fn in ("flow_chart", "initial_eccentricity_flow_chart"):
        f = repo.find_func(fn, FC)
        t = consts.call(f, [], {})
        if not isinstance(t, dict) or any(v is UNKNOWN for v in t.values()):
            raise AnalysisBroken("flow chart of %s is not constant" % fn)
        tables[fn] = t
    ctx.count("flow entries", sum(len(t) for t in tables.values()))
    steps = labels.step_names(repo, consts)
    undefined = consts.get(FC, "UNDEFINED_STATES")
    undefined = set(undefined) if undefined is not UNKNOWN else set()

    for fn, t in tables.items():
        for k, v in t.items():
            if not (isinstance(k, tuple) and len(k) == 4):
                ctx.find("F-vocab", "%s %r" % (fn, k), FC, "malformed key")
                continue
            ctx.instance("F-vocab")
            if k[0] not in S or k[1] not in S or k[2] not in B or k[3] not in E:
                ctx.find("F-vocab", "%s %s" % (fn, bad(k, S, B, E)), FC,
                         "key %r uses a label outside the vocabulary" % (k,))
            if v not in steps:
                ctx.find("F-vocab", "%s -> %s" % (fn, v), FC,
                         "destination %r of %r is not an existing step" % (v, k))
            m = (k[1], k[0], mirror_label(k[2]), mirror_label(k[3]))
            ctx.instance("F-mirror")
            if t.get(m) != v:
                ctx.find("F-mirror", "%s %s %s" % (fn, k[2], k[3]), FC,
                         "%r goes to %r but its mirror image %r goes to %r"
                         % (k, v, m, t.get(m)))
        fams = spec(S, B, E)
        if fn != "flow_chart":
            over = ecc_spec(S)
            done = {k for _, ks, _ in over for k in ks}
            # compact objects and remnants do not exist at zero age
            fams = [(n, [k for k in ks if k not in done and not (
                k[3] == "ZAMS" and k[2] == "detached"
                and set(k[:2]) & (CO | {ML}))], d)
                    for n, ks, d in fams] + over
        for name, keys, dest in fams:
            ctx.instance("F-total", "%s: %s (%d keys)" % (fn, name, len(keys)))
            ctx.count("flow keys required", len(keys))
            for k in keys:
                if k in t and t[k] in dest:
                    if k in undefined:
                        ctx.find("F-total", "%s: %s" % (fn, name), FC,
                                 "%r is defined but also listed as undefined" % (k,))
                    continue
                ctx.find("F-total", "%s: %s" % (fn, name), FC,
                         "%r %s; expected %s" % (
                             k, "is sent to %r" % t[k] if k in t else
                             "has no next step", " or ".join(dest)))
                break
        for k, v in t.items():
            if isinstance(k[3], str) and k[3].startswith("redirect_from_"):
                src = k[3][len("redirect_from_"):]
                src = "step_" + ("HMS_HMS" if src == "ZAMS" else src)
                if v == src:
                    ctx.find("F-redirect", "%s %s" % (fn, k[3]), FC,
                             "%r leads back to %s" % (k, v))
        for e in sorted({k[3] for k in t if isinstance(k[3], str)
                         and k[3].startswith("redirect_from_")}):
            ctx.instance("F-redirect", fn + " " + e)

    # ---------------------------------------------------------------- outcomes
    pairs = {(k[2], k[3]) for t in tables.values() for k in t}
    events = {k[3] for t in tables.values() for k in t}
    for where, fn, st, ev in labels.outcome_pairs(repo):
        ctx.instance("F-outcome", "%s (%s, %s)" % (fn, st, ev))
        if ev in ("END", "FAILED"):
            continue
        if st is labels.ANY:
            if ev not in events:
                ctx.find("F-outcome", "%s event %s" % (fn, ev), where,
                         "event %r assigned in %s has no next step in any flow"
                         % (ev, fn))
        elif (st, ev) not in pairs:
            ctx.find("F-outcome", "%s (%s, %s)" % (fn, st, ev), where,
                     "state %r with event %r assigned in %s has no next step"
                     % (st, ev, fn))
    lookup_rules(ctx)
    end_rules(ctx)
    accept_rules(ctx, tables["flow_chart"])


GRID = "posydon/binary_evol/MESA/step_mesa.py"


def accept_rules(ctx, t):
    """Every (states, event) the flow sends to a step gets past its checks."""
    repo = ctx.repo
    ini = labels.read_ini(repo)
    todo = []
    for st in ("step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO",
               "step_CO_HeMS_RLO", "step_merged"):
        if st not in ini:
            raise AnalysisBroken("%s not configured" % st)
        modn, cn = ast.literal_eval(ini[st]["import"])
        cl = repo.resolve(repo.module(modn), cn)
        f = repo.find_method(cl, "__call__")
        keys = [k for k, v in t.items() if v == st]
        if st == "step_merged":
            keys = [k for k in keys if ML not in k[:2]]
            seen, small = set(), []
            for k in keys:
                g = (k[0] if k[2] != "merged" else "", k[1] if k[2] != "merged"
                     else "", k[2], k[3])
                if g not in seen:
                    seen.add(g)
                    small.append(k)
            keys = small
        todo.append((st, cl, f, keys))
    for st, cl, f, keys in todo:
        for k in keys:
            vn.reset()
            me, b = sym("self"), sym("binary")
            ev = Evaluator(repo, ctx.consts, max_depth=2, noinline=[
                "merged_star_properties", "set_binary_to_failed"])
            for base in repo.mro(cl)[1:]:
                if "__call__" in base.methods:
                    ev.overrides[base.methods["__call__"].key] = lambda *a: NONE
            s1, s2 = mk("attr", b, "star_1"), mk("attr", b, "star_2")
            B = repo.cls("BinaryStar")
            ev.types[b.id], ev.types[me.id] = B, cl
            heap = {(s1, "state"): c(k[0]), (s2, "state"): c(k[1]),
                    (b, "state"): c(k[2]), (b, "event"): c(k[3]),
                    (me, "verbose"): FALSE}
            ctx.instance("F-accept", "%s %s" % (st, k))
            vn.DEADLINE[0] = time.time() + 20
            try:
                v, h, rp, fr = ev.run(f, args={"binary": b}, self_node=me, heap=heap)
            except vn.TooComplex:
                ctx.count("undecided acceptances")
                continue
            finally:
                vn.DEADLINE[0] = None
            if rp is TRUE:
                ctx.find("F-accept", "%s %s" % (st, k[:2]), f.key,
                         "the flow sends %r to %s, which always refuses it"
                         % (k, st))


def bad(k, S, B, E):
    for x, voc in zip(k, (S, S, B, E)):
        if x not in voc:
            return repr(x)


def lookup_rules(ctx):
    repo = ctx.repo
    vn.reset()
    cls = repo.cls("BinaryStar")
    me = sym("self")

    def A(o, *names):
        for n in names:
            o = mk("attr", o, n)
        return o
    want = mk("tuple", A(me, "star_1", "state"), A(me, "star_2", "state"),
              A(me, "state"), A(me, "event"))
    f = repo.find_method(cls, "get_total_state")
    g = repo.find_method(cls, "get_next_step_name")
    h = repo.find_method(cls, "run_step")
    if not (f and g and h):
        raise AnalysisBroken("BinaryStar.get_total_state/get_next_step_name/run_step")
    v = Evaluator(repo, ctx.consts).run(f, self_node=me)[0]
    ctx.instance("F-lookup", "get_total_state")
    if v is not want:
        ctx.find("F-lookup", "get_total_state", f.key,
                 "total state is %s, the flow is keyed by %s"
                 % (vn.show(v), vn.show(want)))
    v = Evaluator(repo, ctx.consts).run(g, self_node=me)[0]
    ctx.instance("F-lookup", "get_next_step_name")
    flow = A(me, "properties", "flow")
    if not (flow in _sub(v) and want in _sub(v)):
        ctx.find("F-lookup", "get_next_step_name", g.key,
                 "the next step is %s, not the flow's entry for the total state"
                 % vn.show(v)[:300])
    # a combination without next step raises before anything is run
    for name in ("get_next_step_name", "get_next_step"):
        ev = Evaluator(repo, ctx.consts, noinline=[
            "pre_step", "post_step", "append_state", "get_next_step_name",
            "get_next_step"])
        ev.overrides[name] = lambda *a: NONE
        v, hp, rp, fr = ev.run(h, self_node=me)
        ctx.instance("F-lookup", "run_step with %s() None" % name)
        if rp is not TRUE:
            ctx.find("F-lookup", "run_step %s" % name, h.key,
                     "a total state without next step is not refused (%s)"
                     % vn.show(rp)[:300])
    ev = Evaluator(repo, ctx.consts, noinline=[
        "pre_step", "post_step", "append_state", "get_next_step_name",
        "get_next_step"])
    v, hp, rp, fr = ev.run(h, self_node=me)
    stepcalls = [n for p, n in ev.effects if n.k == "call" and n.a and
                 "get_next_step" in vn.show(n) and me in _sub(n)
                 and "pre_step" not in vn.show(n) and "post_step" not in vn.show(n)]
    ctx.instance("F-lookup", "run_step runs the looked-up step once")
    if len(stepcalls) != 1:
        ctx.find("F-lookup", "run_step runs", h.key,
                 "the looked-up step is run %d times" % len(stepcalls))


def _sub(n, out=None):
    out = set() if out is None else out
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, vn.N):
            if x in out:
                continue
            out.add(x)
            todo.extend(x.a)
        elif isinstance(x, tuple):
            todo.extend(x)
    return out


def end_rules(ctx):
    repo = ctx.repo
    vn.reset()
    cls = repo.cls("BinaryStar")
    f = repo.find_method(cls, "evolve")
    if f is None:
        raise AnalysisBroken("BinaryStar.evolve")
    me = sym("self")
    props = mk("attr", me, "properties")

    def running(event, state, end_events, end_states):
        ev = Evaluator(repo, ctx.consts,
                       noinline=["run_step", "pre_evolve", "post_evolve"])
        heap = {(me, "event"): c(event), (me, "state"): c(state),
                (props, "end_events"): mk("list", *map(c, end_events)),
                (props, "end_states"): mk("list", *map(c, end_states)),
                (me, "time"): c(0), (props, "max_simulation_time"): c(10)}
        v, h, rp, fr = ev.run(f, self_node=me, heap=heap)
        cond = FALSE
        seen = False
        for pc, n in ev.effects:
            if "run_step" not in vn.show(n):
                continue
            seen = True
            if n.k == "foreach":
                cond = vn.or_(cond, vn.and_(n.a[0] if n.a[0].k != "call" else TRUE,
                                            n.a[1]))
            else:
                cond = vn.or_(cond, pc)
        if not seen and event is None:
            raise AnalysisBroken("BinaryStar.evolve never calls run_step")
        return cond

    for a, want, what in (
            (("END", "detached", [], []), False, "event END stops"),
            (("FAILED", "ERR", [], []), False, "event FAILED stops"),
            ((None, "detached", [], []), True, "runs otherwise"),
            (("oRLO1", "RLO1", [], []), True, "runs in RLO"),
            (("stop", "detached", ["stop"], []), False, "end events stop"),
            (("go", "halt", [], ["halt"]), False, "end states stop")):
        ctx.instance("F-end", what)
        r = running(*a)
        if r not in (TRUE, FALSE):
            ctx.note("evolution loop not decided: " + what)
        elif (r is TRUE) != want:
            ctx.find("F-end", what, f.key,
                     "for event %r, state %r, end events %r, end states %r the "
                     "loop %s" % (a + ("continues" if r is TRUE else "stops",)))
    # the number of steps is bounded: with a bound set, some loop exit raises
    ev = Evaluator(repo, ctx.consts,
                   noinline=["run_step", "pre_evolve", "post_evolve"])
    v, h, rp, fr = ev.run(f, self_node=me, heap={
        (me, "event"): NONE, (me, "time"): c(0),
        (props, "max_simulation_time"): c(10)})
    ctx.instance("F-end", "step bound")
    if "max_n_steps_per_binary" not in " ".join(
            n.a[1] for n in _sub(rp) if n.k == "attr"):
        ctx.find("F-end", "step bound", f.key,
                 "exceeding max_n_steps_per_binary does not raise")
    b = sym("binary")
    for fn, val in ((repo.find_method(repo.cls("step_end"), "__call__"), "END"),
                    (repo.find_func("set_binary_to_failed"), "FAILED")):
        ev = Evaluator(repo, ctx.consts, noinline=["append_state",
                                                   "update_star_states"])
        v, h, rp, fr = ev.run(fn, args={"binary": b})
        ctx.instance("F-end", "%s sets %s" % (fn.qual, val))
        got = (h or {}).get((b, "event"))
        if got is not c(val):
            ctx.find("F-end", fn.qual, fn.key, "a path leaves the event %s" % (
                vn.show(got) if got is not None else "unset"))
