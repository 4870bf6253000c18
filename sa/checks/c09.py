"""Analysis and helper functions leave the caller's data unchanged.

The summaries of the alias and mutation analysis (alias.py) list, for every
function, which of its parameters (or things inside them) an in-place operation
can reach, through any chain of local aliases, views and calls.  For functions
that compute something from their arguments that list must be empty, and the
arrays of a returned tuple must not share storage with each other.
"""
import ast
import re

from ..alias import Alias

EXPLANATION = __doc__
ASSUMPTIONS = [
    "binaries and stars handed to a step or helper are its subject, not data: setting "
    "their attributes is not a modification in this sense",
    "in-place arithmetic on a parameter counts only if the function uses the parameter "
    "as an array or container",
]
SCOPE = ("posydon/utils/common_functions.py", "posydon/utils/interpolators.py",
         "posydon/utils/limits_thresholds.py", "posydon/utils/constants.py",
         "posydon/popsyn/independent_sample.py", "posydon/popsyn/distributions.py",
         "posydon/popsyn/IMFs.py", "posydon/popsyn/Moes_distributions.py",
         "posydon/popsyn/normalized_pop_mass.py", "posydon/popsyn/rate_calculation.py",
         "posydon/popsyn/transient_select_funcs.py", "posydon/popsyn/GRB.py",
         "posydon/popsyn/star_formation_history.py",
         "posydon/popsyn/sample_from_file.py", "posydon/popsyn/analysis.py",
         "posydon/popsyn/selection_effects.py", "posydon/popsyn/synthetic_population.py",
         "posydon/popsyn/io.py", "posydon/popsyn/binarypopulation.py",
         "posydon/binary_evol/DT/", "posydon/binary_evol/flow_chart.py",
         "posydon/binary_evol/simulationproperties.py",
         "posydon/binary_evol/track_match.py", "posydon/binary_evol/SN/",
         "posydon/binary_evol/CE/", "posydon/user_modules/",
         "posydon/interpolation/", "posydon/grids/termination_flags.py",
         "posydon/grids/downsampling.py", "posydon/grids/psygrid.py",
         "posydon/visualization/plot_pop.py", "posydon/config.py")
STARNAME = re.compile(r"(star|primary|secondary|donor|comp|binary|binaries)(_?[12]|_star|_copy)?$")
# parameters that are the subject of the operation (name -> reason)
SUBJECTS = {"self", "cls", "binary", "star", "ax", "fig", "axes", "axs", "hdf5", "store"}
# functions whose documented purpose is to work in place
INPLACE = {
    "posydon/binary_evol/DT/step_detached.py:detached_evolution.update_props":
        "clips the state vector of the running integration",
    "posydon/binary_evol/DT/step_detached.py:detached_evolution.__call__":
        "clips the state vector of the running integration",
    "posydon/interpolation/constraints.py:correct_inequality": "corrects its argument",
    "posydon/interpolation/constraints.py:correct_sum": "corrects its argument",
    "posydon/interpolation/constraints.py:get_thickness_n_radius":
        "corrects its argument",
    "posydon/binary_evol/simulationproperties.py:"
    "SimulationProperties.create_track_matcher": "completes the options it is given",
    "posydon/binary_evol/simulationproperties.py:"
    "SimulationProperties._check_track_matcher": "splits the options it is given",
    "posydon/binary_evol/track_match.py:TrackMatcher.separate_kwargs":
        "splits the options it is given",
    "posydon/popsyn/binarypopulation.py:BinaryPopulation.__init__":
        "forces its metallicity onto the simulation properties it evolves with",
    "posydon/popsyn/GRB.py:get_GRB_properties":
        "adds its columns to the table it is given and returns that table",
}
FORCED = {"posydon/popsyn/binarypopulation.py:BinaryPopulation.__init__"}


def inscope(rel):
    return any(rel == s or (s.endswith("/") and rel.startswith(s)) for s in SCOPE)


def stars_of(f):
    """Parameters used as stars or binaries (their *attributes* are accessed)."""
    out = set()
    ps = {p.arg for p in f.node.args.args}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                x.value.id in ps and x.attr in (
                    "state", "mass", "append_state", "event", "star_1", "star_2",
                    "log_R", "interp1d", "co", "latest", "metallicity", "profile",
                    "state_history", "mass_history"):
            out.add(x.value.id)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id in ("getattr", "setattr") and x.args and \
                isinstance(x.args[0], ast.Name) and x.args[0].id in ps:
            out.add(x.args[0].id)
    return out


def check(ctx):
    repo, consts = ctx.repo, ctx.consts
    ctx.rule("U-param", "no in-place operation reaches a parameter", 400)
    ctx.rule("U-return", "returned arrays do not share storage", 20)
    A = Alias(repo, consts).solve()
    F = {f.key: f for f in A.funcs}
    for key, S in sorted(A.sums.items()):
        f = F[key]
        if not inscope(f.mod.rel):
            continue
        names = [p.arg for p in f.node.args.posonlyargs + f.node.args.args +
                 f.node.args.kwonlyargs]
        ctx.instance("U-param", key, n=max(1, len(names)))
        subj = SUBJECTS | stars_of(f) | {n for n in names if STARNAME.match(n)}
        if f.cls is not None and names:
            subj = subj | {names[0]}
        for (o, need), (line, how, via) in S.mut.items():
            if o[0] != "P" or o[1] in subj and (o[-1] == "*" or o[1] in SUBJECTS):
                continue
            if o[1] == (f.node.args.kwarg.arg if f.node.args.kwarg else None):
                if o[-1] != "*":
                    continue
            if key in INPLACE:
                ctx.note("in place by purpose: %s (%s)" % (key, INPLACE[key]))
                continue
            if f.name.startswith("_") and not f.name.startswith("__"):
                continue            # judged through the public callers
            if any(k in FORCED for k, _ in via):
                continue
            ctx.find("U-param", "%s|%s" % (key, o[1]), key,
                     "line %d: %s modifies %s parameter %s of the caller%s" % (
                         line, how, "what is inside" if o[-1] == "*" else "the",
                         o[1], trail(via)))
        for line, vs in S.rets:
            ctx.instance("U-return", "%s line %d" % (key, line))
        aliased_return(ctx, A, f, S)


def aliased_return(ctx, A, f, S):
    """A function returning a new quantity must not return its array argument."""
    if f.mod.rel != "posydon/popsyn/independent_sample.py":
        return
    for o in S.ret[0]:
        if o[0] == "P" and o[-1] != "*" and A.arraylike_any(o[1], f):
            ctx.find("U-return", "%s|%s" % (f.key, o[1]), f.key,
                     "returns the array it was given for %s instead of a new one, so "
                     "masking one of them masks both" % o[1])


def trail(via):
    return "" if not via else " (in %s)" % " -> ".join(
        "%s line %d" % (k.split(":")[1], l) for k, l in via)
