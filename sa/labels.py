"""Extraction of label assignments (binary state / event / star state)."""
import ast
import configparser
import os

from .consts import UNKNOWN
from .repo import child_blocks

ANY = "<any>"
INI = "posydon/popsyn/population_params_default.ini"


def read_ini(repo, rel=INI):
    """Sections of a shipped .ini file -> {section: {option: text}}."""
    p = os.path.join(repo.root, rel)
    cp = configparser.ConfigParser(inline_comment_prefixes=("#",))
    cp.optionxform = str
    cp.read(p)
    return {s: {k: v for k, v in cp.items(s)} for s in cp.sections()}


def step_names(repo, consts):
    """Names a flow destination may have: the steps of the shipped
    configuration plus the grid-loading steps known to the population."""
    names = {s for s in read_ini(repo) if s.startswith("step_")}
    v = consts.get("posydon/popsyn/binarypopulation.py", "STEP_NAMES_LOADING_GRIDS")
    if v is not UNKNOWN:
        names |= set(v)
    return names


def attr_store(st):
    """(object expr, attribute, value expr) assignments of a statement."""
    out = []
    if isinstance(st, ast.Assign):
        for t in st.targets:
            if isinstance(t, ast.Attribute):
                out.append((t.value, t.attr, st.value))
            elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                    st.value, (ast.Tuple, ast.List)) and \
                    len(t.elts) == len(st.value.elts):
                for x, v in zip(t.elts, st.value.elts):
                    if isinstance(x, ast.Attribute):
                        out.append((x.value, x.attr, v))
    elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Attribute) \
            and st.value is not None:
        out.append((st.target.value, st.target.attr, st.value))
    elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
            isinstance(st.value.func, ast.Name) and st.value.func.id == "setattr" \
            and len(st.value.args) == 3 and \
            isinstance(st.value.args[1], ast.Constant):
        a = st.value.args
        out.append((a[0], a[1].value, a[2]))
    return out


def is_binary_expr(e):
    t = ast.unparse(e)
    return t in ("binary", "self.binary", "b") or t.endswith(".binary")


def outcome_pairs(repo, prefixes=("posydon/binary_evol/", "posydon/utils/")):
    """Yield (where, function, state|ANY, event) label assignments to binaries.

    State and event assigned as constants in one straight-line block form a
    pair; an event alone is paired with ANY."""
    for f in list(repo.functions()):
        if not f.mod.rel.startswith(prefixes):
            continue
        blocks = [f.node.body]
        while blocks:
            b = blocks.pop()
            state = ANY
            event = ANY
            line = None
            for st in b:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    continue
                for o, attr, v in attr_store(st):
                    if attr not in ("state", "event") or not is_binary_expr(o):
                        continue
                    val = v.value if isinstance(v, ast.Constant) and (
                        isinstance(v.value, str) or v.value is None) else ANY
                    if attr == "state":
                        state = val
                    else:
                        event = val
                    line = st.lineno
                subs = child_blocks(st)
                blocks += subs
                for r in ast.walk(st) if not subs else ():
                    # ['contact', 'oCE1', ...] results of the classification
                    if isinstance(r, (ast.List, ast.Tuple)) and len(r.elts) == 3 \
                            and all(isinstance(x, ast.Constant) for x in r.elts[:2]) \
                            and isinstance(r.elts[1].value, str) \
                            and isinstance(r.elts[0].value, str) \
                            and "binary_state" in f.name:
                        yield ("%s:%d" % (f.mod.rel, r.lineno), f.qual,
                               r.elts[0].value, r.elts[1].value)
            if event is not ANY and line is not None and event is not None:
                yield ("%s:%d" % (f.mod.rel, line), f.qual, state, event)
            elif event is None and state is not ANY and line is not None:
                yield ("%s:%d" % (f.mod.rel, line), f.qual, state, None)
