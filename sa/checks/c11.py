"""Saved results are never discarded before they are safely merged.

Typestate over every control-flow path, exceptional ones included (paths.py).  Files
are deleted only when everything read from them was written to the destination, after
the destination was closed; a failure while merging a file keeps it off the list of
deletions.  In the evolution loop, binaries and tables leave the memory only after
they were saved, every saved batch file is handed to the merge, batch files of one run
have different names, and what is left after the loop is saved too.  Existing results
are replaced only when that was asked for.
"""
import ast

from ..paths import ANY, Client, Paths
from ..repo import AnalysisBroken

EXPLANATION = __doc__
ASSUMPTIONS = [
    "any read, write or extraction call can fail",
    "pandas and h5py flush a store when its with-block is left",
]
POP = "posydon/popsyn/binarypopulation.py"
DELETERS = {"remove": ("os",), "unlink": ("os",), "rmtree": ("shutil",),
            "removedirs": ("os",)}
OPENERS = {"HDFStore", "File", "open", "gzip_open", "ZipFile"}


def name_of(fn):
    return fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", "")


def params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def cstr(e):
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None


def arg(n, pos, *kw):
    if len(n.args) > pos and not any(isinstance(a, ast.Starred) for a in n.args[:pos + 1]):
        return n.args[pos]
    for k in n.keywords:
        if k.arg in kw:
            return k.value
    return None


class Names:
    """Copies of a value inside one function: name -> texts it may stand for."""

    def __init__(self, f):
        self.map = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                    x.targets[0], ast.Name):
                self.map.setdefault(x.targets[0].id, []).append(x.value)

    def closure(self, e, depth=4):
        """Names mentioned by e, through local assignments."""
        out = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id not in out:
                out.add(x.id)
                if depth:
                    for v in self.map.get(x.id, ()):
                        out |= self.closure(v, depth - 1)
            elif isinstance(x, ast.Attribute):
                out.add(ast.unparse(x))
        return out


def deletion(n, repo, f):
    """The deleted path of a deleting call, or None."""
    fn = n.func
    if name_of(fn) not in DELETERS or not n.args:
        return None
    mods = DELETERS[name_of(fn)]
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
        r = repo.resolve(f.mod, fn.value.id)
        if isinstance(r, tuple) and r[0] == "ext" and r[1] in mods:
            return n.args[0]
        if fn.value.id in mods and r is None:
            return n.args[0]
    elif isinstance(fn, ast.Name):
        r = repo.resolve(f.mod, fn.id)
        if isinstance(r, tuple) and r[0] == "ext" and r[1].split(".")[0] in mods:
            return n.args[0]
    return None


def opened(n, repo, f):
    """(path, mode expression) of a call opening a file, or None."""
    nm = name_of(n.func)
    if nm == "open" and isinstance(n.func, ast.Attribute) and not (
            isinstance(n.func.value, ast.Name) and n.func.value.id in (
                "gzip", "io", "codecs", "bz2", "lzma")):
        return None
    if nm == "File" and not (isinstance(n.func, ast.Attribute) and
                             ast.unparse(n.func.value) == "h5py"):
        return None
    if nm not in OPENERS:
        return None
    p = arg(n, 0, "path", "name", "file")
    m = arg(n, 1, "mode")
    return (p, m) if p is not None else None


# ------------------------------------------------------------------ merging
class MergeClient(Client):
    """One function that reads files, writes a store and deletes files."""

    def __init__(self, repo, f):
        self.repo, self.f = repo, f
        self.early = []         # deletions while the store is open
        self.bad = []           # deletions after a swallowed failure
        self.listed = []        # (list name, missing keys)
        self.deleted = []       # (iterated list or None, call)
        self.keys = set()
        self.loopof = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.For):
                for y in ast.walk(x.target):
                    if isinstance(y, ast.Name):
                        self.loopof.setdefault(y.id, []).append(x)

    def loop_lists(self, n):
        """Lists over which the loops around the call run."""
        out = []
        for x in ast.walk(self.f.node):
            if isinstance(x, ast.For) and any(y is n for y in ast.walk(x)):
                out.append(x.iter.id if isinstance(x.iter, ast.Name) else
                           ast.unparse(x.iter))
        return out

    def key_of(self, n):
        nm = name_of(n.func)
        if nm in ("read_hdf", "read_table"):
            return "r", cstr(arg(n, 1, "key"))
        if nm in ("append", "put") and isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Name) and cstr(arg(n, 0, "key")) and \
                (len(n.args) + len(n.keywords)) >= 2:
            return "w", cstr(arg(n, 0, "key"))
        if nm == "to_hdf":
            return "w", cstr(arg(n, 1, "key"))
        return None, None

    def assign(self, s, st, f):
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return [frozenset(x for x in st if x[0] not in "rw" and x != "failed")
                    | frozenset(x for x in st if x.startswith("open"))]
        return [st]

    def call(self, n, st, f):
        k, key = self.key_of(n)
        if k:
            return [st | {k + ":" + str(key)}]
        o = opened(n, self.repo, f)
        if o is not None:
            return [st | {"open"}]
        d = deletion(n, self.repo, f)
        if d is not None:
            if "open" in st:
                self.early.append(n)
            if "failed" in st:
                self.bad.append(n)
            self.deleted.append((d, n, st))
        if name_of(n.func) in ("append", "add") and len(n.args) == 1 and isinstance(
                n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            self.listed.append((n.func.value.id, n, st))
        return [st]

    def raises(self, n, st, f):
        k, key = self.key_of(n)
        if k or name_of(n.func) in ("extract", "extractall", "save", "copyfile", "copy2"):
            return [st | {"failed"}]
        return []

    def leave(self, s, st, f):
        for i in s.items:
            if isinstance(i.context_expr, ast.Call) and opened(
                    i.context_expr, self.repo, f):
                return [st - {"open"}]
        return [st]

    def enter(self, g, n, f):
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and (deletion(x, self.repo, g) is not None or
                                            self.key_of(x)[0]):
                return g
        return None


def merge_rule(ctx, f, quiet=False):
    repo = ctx.repo
    cl = MergeClient(repo, f)
    P = Paths(repo, cl)
    outs = P.function(f)
    keys_r = {c for x in calls_of(repo, f) for k, c in [cl.key_of(x)] if k == "r" and c}
    keys_w = {c for x in calls_of(repo, f) for k, c in [cl.key_of(x)] if k == "w" and c}
    need = keys_r & keys_w
    ctx.instance("D-merge", "%s, %d path ends, keys %s" % (f.key, len(outs),
                                                           sorted(need)))
    if cl.early:
        ctx.find("D-merge", "%s|open" % f.key, f.key,
                 "line %d: a file is deleted while the destination is still open" %
                 cl.early[0].lineno)
    done = set()
    for d, n, st in cl.deleted:
        if n in done:
            continue
        done.add(n)
        lists = cl.loop_lists(n)
        src = None
        if isinstance(d, ast.Name):
            for lp in cl.loopof.get(d.id, ()):
                if any(y is n for y in ast.walk(lp)) and isinstance(lp.iter, ast.Name):
                    src = lp.iter.id
        if src is None:
            src = through_helper(repo, f, n, d)
        fills = [(m, s2) for l, m, s2 in cl.listed if l == src] if src else []
        if fills:
            for m, s2 in fills:
                miss = [k for k in sorted(need) if "w:" + k not in s2]
                if miss or "failed" in s2:
                    ctx.find("D-merge", "%s|listed" % f.key, f.key,
                             "line %d: a file is put on the list of files to delete "
                             "(line %d) before %s was written" % (
                                 m.lineno, n.lineno, " and ".join(miss) or "everything"))
                    break
            continue
        if "failed" in st or n in cl.bad:
            ctx.find("D-merge", "%s|swallowed" % f.key, f.key,
                     "line %d: a file is deleted although reading or writing its "
                     "contents failed" % n.lineno)
            continue
        if need and src is not None:
            # every file of the list is deleted: no failure may be swallowed
            for lp in [x for x in ast.walk(f.node) if isinstance(x, ast.For) and any(
                    cl.key_of(y)[0] for y in ast.walk(x) if isinstance(y, ast.Call))]:
                P2 = Paths(repo, MergeClient(repo, f))
                for k, c, s2 in P2.body(lp.body, {frozenset()}, f):
                    if k in ("fall", "continue") and any(
                            "w:" + x not in s2 for x in need):
                        ctx.find("D-merge", "%s|swallowed" % f.key, f.key,
                                 "line %d: all files are deleted (line %d) although "
                                 "merging one of them may have failed" % (
                                     lp.lineno, n.lineno))
                        break


def through_helper(repo, f, n, d):
    """The caller's name of the list whose files a helper deletes."""
    for x in ast.walk(f.node):
        if not isinstance(x, ast.Call):
            continue
        g = Paths(repo, Client()).target(x, f)
        if g is None or g is f or not any(y is n for y in ast.walk(g.node)):
            continue
        it = d.id if isinstance(d, ast.Name) else None
        for lp in ast.walk(g.node):
            if isinstance(lp, ast.For) and any(y is n for y in ast.walk(lp)) and \
                    isinstance(lp.iter, ast.Name):
                it = lp.iter.id
        ps = [p for p in params(g) if p not in ("self", "cls")]
        if it in ps:
            a = arg(x, ps.index(it), it)
            if isinstance(a, ast.Name):
                return a.id
    return None


def calls_of(repo, f, depth=2, seen=None):
    seen = seen or set()
    seen.add(f)
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            yield x
            if depth:
                g = Paths(repo, Client()).target(x, f)
                if g is not None and g not in seen and g.cls is f.cls:
                    yield from calls_of(repo, g, depth - 1, seen)


# ------------------------------------------------------------------ evolution loop
class BatchClient(Client):
    """Facts about the batches while a population is evolved."""

    def __init__(self, repo):
        self.repo = repo
        self.early = []
        self.saves = []

    def managed(self, n):
        fn = n.func
        return isinstance(fn, ast.Attribute) and isinstance(
            fn.value, (ast.Attribute, ast.Name)) and (
                getattr(fn.value, "attr", None) == "manager" or
                getattr(fn.value, "id", None) == "manager")

    def call(self, n, st, f):
        nm = name_of(n.func)
        if self.managed(n):
            if nm == "save":
                p = arg(n, 0, "fname")
                self.saves.append((f, n, p))
                t = ast.unparse(p) if p is not None else "?"
                return [frozenset(x for x in st if not x.startswith("listed"))
                        | {"saved", "path:" + t}]
            if nm in ("clear_dfs",):
                if "saved" not in st:
                    self.early.append((f, n))
                return [st | {"cleared"}]
            if nm == "remove" and n.args:
                if "saved" not in st:
                    self.early.append((f, n))
                return [st | {"cleared"}]
        if nm == "append" and isinstance(n.func, ast.Attribute) and isinstance(
                n.func.value, ast.Name) and len(n.args) == 1:
            t = ast.unparse(n.args[0])
            if "path:" + t in st:
                return [st | {"listed:" + n.func.value.id}]
        return [st]

    def assign(self, s, st, f):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name) and "path:" + t.id in st:
                    return [st - {"path:" + t.id}]
            # name = name + [path]
        return [st]

    def raises(self, n, st, f):
        if self.managed(n) and name_of(n.func) == "save":
            return [st | {"failed"}]
        return []

    def enter(self, g, n, f):
        if g.cls is not None and f.cls is g.cls and any(
                isinstance(x, ast.Call) and self.managed(x) and name_of(x.func) in
                ("save", "clear_dfs", "remove") for x in ast.walk(g.node)):
            return g
        return None


def saving_helpers(repo, cls):
    cl = BatchClient(repo)
    return {f for f in repo.functions() if f.cls is cls and any(
        isinstance(x, ast.Call) and cl.managed(x) and name_of(x.func) == "save"
        for x in ast.walk(f.node))}


def batch_rules(ctx, mod):
    repo = ctx.repo
    fs = [f for f in repo.functions() if f.mod is mod and f.cls is not None and any(
        isinstance(x, (ast.For, ast.While)) and any(
            isinstance(y, ast.Call) and name_of(y.func) in ("evolve", "_evolve_one")
            for y in ast.walk(x)) for x in ast.walk(f.node))]
    fs += [f for f in repo.functions() if f.mod is mod and f.cls is not None and
           f.name == "_safe_evolve" and f not in fs]
    for f in fs:
        helpers = saving_helpers(repo, f.cls)
        loops = [x for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.While))]
        for lp in loops:
            cl = BatchClient(repo)
            P = Paths(repo, cl)
            outs = P.body(lp.body, {frozenset()}, f)
            if not cl.saves and not cl.early:
                continue
            ctx.instance("D-batch", "%s line %d, %d path ends" % (f.key, lp.lineno,
                                                                  len(outs)))
            for g, n in cl.early[:1]:
                ctx.find("D-batch", "%s|early" % f.key, g.key,
                         "line %d: binaries or tables are dropped from memory on a path "
                         "on which they were not saved" % n.lineno)
            for k, c, st in outs:
                if k in ("fall", "continue", "break") and "saved" in st:
                    if "failed" in st:
                        pass
                    if not any(x.startswith("listed:") for x in st) and \
                            not returned_path(repo, f, lp, helpers):
                        ctx.find("D-batch", "%s|unlisted" % f.key, f.key,
                                 "line %d: a saved batch file is not put on the list of "
                                 "files to merge" % lp.lineno)
                        break
                if k in ("fall", "continue", "break") and "failed" in st and \
                        "cleared" in st:
                    ctx.find("D-batch", "%s|swallowed" % f.key, f.key,
                             "line %d: memory is cleared although saving failed" %
                             lp.lineno)
                    break
            unique(ctx, f, lp, cl.saves, helpers)
        # the whole function: nothing dropped unsaved, the merged list is the filled one
        cl = BatchClient(repo)
        P = Paths(repo, cl)
        outs = P.function(f)
        for g, n in cl.early[:1]:
            ctx.find("D-batch", "%s|early" % f.key, g.key,
                     "line %d: binaries or tables are dropped from memory on a path on "
                     "which they were not saved" % n.lineno)
        merged_list(ctx, f)
        leftover(ctx, f, helpers)


def returned_path(repo, f, lp, helpers):
    """A helper saved the batch: its result or argument goes on the list."""
    for x in ast.walk(lp):
        if isinstance(x, ast.Call) and name_of(x.func) in ("append", "extend") and \
                isinstance(x.func, ast.Attribute) and x.args:
            for y in ast.walk(x.args[0]):
                if isinstance(y, ast.Call) and any(name_of(y.func) == h.name
                                                   for h in helpers):
                    return True
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and any(
                name_of(x.value.func) == h.name for h in helpers):
            t = ast.unparse(x.targets[0])
            for y in ast.walk(lp):
                if isinstance(y, ast.Call) and name_of(y.func) == "append" and \
                        y.args and ast.unparse(y.args[0]) == t:
                    return True
    for h in helpers:
        if h is not f and any(isinstance(y, ast.Call) and name_of(y.func) == "append"
                              for y in ast.walk(h.node)):
            return True
    return False


def unique(ctx, f, lp, saves, helpers):
    """Different turns of the loop use different files, ranks too."""
    targets = {y.id for y in ast.walk(lp.target) if isinstance(y, ast.Name)} \
        if isinstance(lp, ast.For) else set()
    for x in ast.walk(lp):          # counters of the loop
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            targets.add(x.target.id)
    for g, n, p in saves:
        if p is None:
            continue
        names = Names(g).closure(p)
        if g is not f:
            # a helper: what its caller passes
            more = set()
            N = Names(f)
            for x in ast.walk(lp):
                if isinstance(x, ast.Call) and name_of(x.func) == g.name:
                    for a in list(x.args) + [k.value for k in x.keywords]:
                        more |= N.closure(a)
            names = names | more
        ctx.instance("D-unique", "%s line %d" % (g.key, n.lineno))
        each = [names]
        if isinstance(p, ast.Name) and g is f:
            vals = [x.value for x in ast.walk(lp) if isinstance(x, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == p.id for t in x.targets)]
            N = Names(g)
            each = [N.closure(v) - {p.id} for v in vals] or each
        if not all(q & targets for q in each):
            ctx.find("D-unique", "%s|turn" % f.key, g.key,
                     "line %d: the batch file name does not depend on the turn of the "
                     "loop: a later batch overwrites an earlier one" % n.lineno)
        if not any(x.endswith("rank") or x.endswith("JOB_ID") for x in names):
            ctx.find("D-unique", "%s|rank" % f.key, g.key,
                     "line %d: the batch file name does not depend on the rank of a "
                     "parallel run" % n.lineno)
    # names on the branch taken by parallel runs
    for g in {g for g, _, _ in saves}:
        for x in ast.walk(g.node):
            if isinstance(x, ast.If) and mentions_rank(x.test):
                for s, par in ((x.body, serial(x.test) is False),
                               (x.orelse, serial(x.test) is True)):
                    if not par:
                        continue
                    for y in s:
                        for z in ast.walk(y):
                            if isinstance(z, ast.Assign) and any(
                                    isinstance(t, ast.Name) and any(
                                        p is not None and t.id in Names(g).closure(p)
                                        for _, _, p in saves) for t in z.targets):
                                ns = Names(g).closure(z.value)
                                if not any(q.endswith("rank") for q in ns):
                                    ctx.find("D-unique", "%s|rank" % f.key, g.key,
                                             "line %d: processes of a parallel run "
                                             "write the same batch file" % z.lineno)


def mentions_rank(t):
    return any(isinstance(x, ast.Attribute) and x.attr in ("JOB_ID", "comm")
               for x in ast.walk(t))


def serial(t):
    """Value of the test in a serial run (JOB_ID and comm are None)."""
    if isinstance(t, ast.BoolOp):
        vs = [serial(x) for x in t.values]
        if isinstance(t.op, ast.And):
            return False if False in vs else (True if all(v for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = serial(t.operand)
        return None if v is None else not v
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
            t.left, ast.Attribute) and t.left.attr in ("JOB_ID", "comm") and isinstance(
                t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        return isinstance(t.ops[0], (ast.Is, ast.Eq))
    return None


def merged_list(ctx, f):
    """Every list of saved files is the list that is merged."""
    filled = {x.func.value.id for x in ast.walk(f.node) if isinstance(x, ast.Call) and
              name_of(x.func) == "append" and isinstance(x.func, ast.Attribute) and
              isinstance(x.func.value, ast.Name) and len(x.args) == 1 and
              isinstance(x.args[0], (ast.Name, ast.Call, ast.Attribute))}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and name_of(x.func) == "combine_saved_files":
            a = arg(x, 1, "file_names")
            ctx.instance("D-list", "%s line %d" % (f.key, x.lineno))
            if not isinstance(a, ast.Name):
                whole = a is not None and any(isinstance(y, ast.Name) and y.id in filled
                                              for y in ast.walk(a)) and not any(
                    isinstance(y, (ast.Slice, ast.comprehension)) and (
                        not isinstance(y, ast.comprehension) or y.ifs)
                    for y in ast.walk(a))
                if not whole and not listing(a):
                    ctx.find("D-list", "%s|part" % f.key, f.key,
                             "line %d: not every saved batch file is merged" % x.lineno)
            elif a.id not in filled and not any(
                    listing(v) for v in Names(f).map.get(a.id, ())) and \
                    a.id not in params(f):
                ctx.find("D-list", "%s|other" % f.key, f.key,
                         "line %d: the list of merged files '%s' is not the one the "
                         "batch files were put on" % (x.lineno, a.id))
            # the list is not emptied or reassigned after the loop started
            if isinstance(a, ast.Name):
                sets = [v for v in ast.walk(f.node) if isinstance(v, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == a.id for t in v.targets)]
                inloop = [v for v in sets for lp in ast.walk(f.node)
                          if isinstance(lp, (ast.For, ast.While)) and any(
                              y is v for y in ast.walk(lp)) and not any(
                                  isinstance(y, ast.Name) and y.id == a.id
                                  for y in ast.walk(v.value))]
                for v in inloop[:1]:
                    ctx.find("D-list", "%s|reset" % f.key, f.key,
                             "line %d: the list of saved batch files is started anew "
                             "inside the loop" % v.lineno)


def listing(v):
    return v is not None and any(isinstance(y, ast.Call) and name_of(y.func) in (
        "listdir", "glob", "scandir", "iterdir") for y in ast.walk(v))


def leftover(ctx, f, helpers):
    """After the loop: whatever is still in memory is saved."""
    body = f.node.body
    last = max((i for i, s in enumerate(body) if any(
        isinstance(x, ast.Call) and name_of(x.func) in ("evolve", "_evolve_one")
        for x in ast.walk(s)) and isinstance(s, (ast.For, ast.While))), default=None)
    if last is None:
        return
    ctx.instance("D-left", f.key)
    for what in ("binaries", "history_dfs"):
        ok = False
        for s in body[last + 1:]:
            for x in [s] + [y for y in ast.walk(s) if isinstance(y, ast.If)]:
                if isinstance(x, ast.If):
                    v = holds(x.test, what)
                    body2 = x.body if v is True else (x.orelse if v is False else [])
                elif isinstance(x, (ast.Expr, ast.Assign)) and x is s:
                    body2 = [x]
                else:
                    body2 = []
                if any(isinstance(y, ast.Call) and (
                        name_of(y.func) == "save" and BatchClient(None).managed(y) or
                        any(name_of(y.func) == h.name for h in helpers if h is not f))
                       for z in body2 for y in ast.walk(z)):
                    ok = True
        if not ok:
            ctx.find("D-left", "%s|%s" % (f.key, what), f.key,
                     "after the loop, %s left in memory are not saved" % what)


def holds(t, what):
    """3-valued: the test when optimize_ram is set and only `what` is not empty."""
    if isinstance(t, ast.BoolOp):
        vs = [holds(x, what) for x in t.values]
        if isinstance(t.op, ast.And):
            return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = holds(t.operand, what)
        return None if v is None else not v
    if isinstance(t, ast.Name) and t.id == "optimize_ram":
        return True
    txt = ast.unparse(t)
    filled = None
    for q in ("binaries", "history_dfs", "oneline_dfs"):
        if q in txt:
            filled = q == what or (what == "history_dfs" and q == "oneline_dfs")
    if filled is None:
        return None
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
            t.comparators[0], ast.Constant):
        c, op = t.comparators[0].value, t.ops[0]
        n = 1 if filled else 0
        try:
            for k, g in ((ast.Eq, n == c), (ast.NotEq, n != c), (ast.Gt, n > c),
                         (ast.GtE, n >= c), (ast.Lt, n < c), (ast.LtE, n <= c)):
                if isinstance(op, k):
                    if k in (ast.Gt, ast.GtE) and c > 0 and filled and not (
                            k is ast.GtE and c == 1):
                        return None     # depends on how many are left
                    return g
        except TypeError:
            return None
    if isinstance(t, (ast.Attribute, ast.Call)):
        return filled
    return None


# ------------------------------------------------------------------ overwriting
class OverwriteClient(Client):
    """Paths with overwrite not requested and the target existing."""

    def __init__(self, repo, f):
        self.repo, self.f = repo, f
        self.bad = []

    def truth(self, t):
        if isinstance(t, ast.BoolOp):
            vs = [self.truth(x) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else (
                    True if all(v is True for v in vs) else None)
            return True if True in vs else (
                False if all(v is False for v in vs) else None)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.truth(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.Name) and t.id in ("overwrite", "append"):
            return False
        if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and \
                t.left.id in ("overwrite", "append") and len(t.ops) == 1 and isinstance(
                    t.comparators[0], ast.Constant):
            eq = isinstance(t.ops[0], (ast.Eq, ast.Is))
            return (t.comparators[0].value is False) == eq
        if isinstance(t, ast.Call) and name_of(t.func) in ("exists", "isfile", "isdir",
                                                           "lexists"):
            return True
        if isinstance(t, ast.Call):
            g = Paths(self.repo, Client()).target(t, self.f)
            if g is not None:
                rs = [x for x in ast.walk(g.node) if isinstance(x, ast.Return)]
                if len(rs) == 1 and rs[0].value is not None:
                    return self.truth(rs[0].value)
        if isinstance(t, ast.Name):
            vs = Names(self.f).map.get(t.id, [])
            if len(vs) == 1:
                return self.truth(vs[0])
        return None

    def branch(self, t, val, st, f):
        v = self.truth(t)
        if v is not None and v != val:
            return None
        return st

    def assign(self, s, st, f):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name):
            nm = s.targets[0].id
            st = frozenset(x for x in st if not x.startswith("m:%s=" % nm))
            v = s.value
            if isinstance(v, ast.IfExp):
                t = self.truth(v.test)
                v = v.body if t is True else v.orelse if t is False else v
            c = cstr(v)
            if c is not None:
                st = st | {"m:%s=%s" % (nm, c)}
        return [st]

    def writers(self, n):
        """Package methods of that name that open their path argument for writing."""
        nm = name_of(n.func)
        if not isinstance(n.func, ast.Attribute) or nm in ("save", "evolve"):
            return False
        gs = [g for g in self.repo.functions() if g.name == nm and g.cls is not None and
              "tests" not in g.mod.rel]
        return len(gs) == 1 and "overwrite" not in params(gs[0]) and \
            not any(k.arg == "mode" for k in n.keywords) and writes_param(
                self.repo, gs[0])

    def call(self, n, st, f):
        d = deletion(n, self.repo, f)
        if d is not None:
            self.bad.append((f, n, "is deleted"))
        if self.writers(n):
            self.bad.append((f, n, "is opened for writing"))
        o = opened(n, self.repo, f)
        if o is not None and o[1] is not None:
            m = o[1]
            if isinstance(m, ast.IfExp):
                t = self.truth(m.test)
                m = m.body if t is True else m.orelse if t is False else m
            ms = [cstr(m)] if cstr(m) else [x.split("=", 1)[1] for x in st if isinstance(
                m, ast.Name) and x.startswith("m:%s=" % m.id)]
            if any("w" in (x or "") for x in ms):
                self.bad.append((f, n, "is opened for writing"))
        return [st]

    def enter(self, g, n, f):
        if g.cls is f.cls and g.cls is not None and "overwrite" not in params(g) and any(
                isinstance(x, ast.Call) and (deletion(x, self.repo, g) is not None or
                                             opened(x, self.repo, g))
                for x in ast.walk(g.node)):
            return g
        return None


def writes_param(repo, g):
    """Opens a file named by a parameter in mode 'w' by default."""
    ps = set(params(g))
    for x in ast.walk(g.node):
        if isinstance(x, ast.Call):
            o = opened(x, repo, g)
            if o is None or o[1] is None or not (isinstance(o[0], ast.Name) and
                                                 o[0].id in ps):
                continue
            vals = [o[1]] if not isinstance(o[1], ast.Name) else Names(g).map.get(
                o[1].id, [])
            for v in vals:
                if cstr(v) and "w" in cstr(v):
                    return True
                if isinstance(v, ast.Call) and name_of(v.func) == "get" and \
                        len(v.args) == 2 and "w" in (cstr(v.args[1]) or ""):
                    return True
    return False


def overwrite_rule(ctx):
    repo = ctx.repo
    for f in repo.functions():
        if "tests" in f.mod.rel or "overwrite" not in params(f):
            continue
        cl = OverwriteClient(repo, f)
        P = Paths(repo, cl)
        outs = P.function(f)
        touches = any(isinstance(x, ast.Call) and (
            deletion(x, repo, f) is not None or opened(x, repo, f))
            for x in calls_of(repo, f))
        if not touches:
            continue
        ctx.instance("D-overwrite", "%s, %d path ends" % (f.key, len(outs)))
        for g, n, what in cl.bad[:1]:
            ctx.find("D-overwrite", "%s|%s" % (f.key, what.replace(" ", "-")), g.key,
                     "line %d: an existing file %s although overwriting was not "
                     "requested" % (n.lineno, what))
        # callers inside the package pass the caller's choice on
        for g in repo.functions():
            if "tests" in g.mod.rel or "overwrite" not in params(g) or g is f:
                continue
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call) and name_of(x.func) == f.name and isinstance(
                        x.func, ast.Attribute) and Paths(repo, Client()).target(
                            x, g) is f:
                    a = arg(x, [p for p in params(f) if p != "self"].index("overwrite"),
                            "overwrite")
                    ctx.instance("D-overwrite", "%s line %d" % (g.key, x.lineno))
                    if isinstance(a, ast.Constant) and a.value:
                        ctx.find("D-overwrite", "%s|passes-%s" % (g.key, f.name), g.key,
                                 "line %d: overwriting is forced although the caller "
                                 "may not have asked for it" % x.lineno)


# ------------------------------------------------------------------ handles
class HandleClient(Client):
    def __init__(self, repo, var, site):
        self.repo, self.var, self.site = repo, var, site

    def call(self, n, st, f):
        if n is self.site:
            return [st | {"open"}]
        if name_of(n.func) == "close" and isinstance(n.func, ast.Attribute) and \
                ast.unparse(n.func.value) == self.var:
            return [st - {"open"}]
        return [st]

    def raises(self, n, st, f):
        if n is self.site:
            return [st]
        if name_of(n.func) == "close":
            return []
        return [st] if "open" in st else []


def handle_rule(ctx):
    repo = ctx.repo
    for f in repo.functions():
        if "tests" in f.mod.rel or f.mod.rel.startswith("bin/"):
            continue
        withs = {id(i.context_expr) for x in ast.walk(f.node) if isinstance(
            x, (ast.With, ast.AsyncWith)) for i in x.items}
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            o = opened(x, repo, f)
            if o is None:
                continue
            m = o[1]
            modes = [cstr(m)] if m is not None and cstr(m) else []
            if m is not None and isinstance(m, ast.Name):
                modes = [cstr(v) for v in Names(f).map.get(m.id, [])] or ["w"]
            elif m is None and name_of(x.func) == "HDFStore":
                modes = ["a"]
            if not any(k and k[0] in "wax" for k in modes):
                continue
            ctx.instance("D-handle", "%s line %d" % (f.key, x.lineno))
            if id(x) in withs:
                continue
            var = None
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign) and s.value is x:
                    var = s.targets[0]
            if isinstance(var, ast.Attribute):
                # owned by an object: it has to offer a close that closes it
                t = ast.unparse(var)
                if f.cls is not None and any(
                        isinstance(y, ast.Call) and name_of(y.func) == "close" and
                        ast.unparse(y.func.value) == t
                        for g in repo.functions() if g.cls is f.cls
                        for y in ast.walk(g.node) if isinstance(y, ast.Call) and
                        isinstance(y.func, ast.Attribute)):
                    continue
            elif isinstance(var, ast.Name):
                t = var.id
                if any(isinstance(y, (ast.With,)) and any(
                        isinstance(i.context_expr, ast.Name) and i.context_expr.id == t
                        or isinstance(i.context_expr, ast.Call) and any(
                            isinstance(a, ast.Name) and a.id == t
                            for a in i.context_expr.args) for i in y.items)
                       for y in ast.walk(f.node)):
                    continue
                if any(isinstance(y, ast.Return) and isinstance(y.value, ast.Name) and
                       y.value.id == t for y in ast.walk(f.node)):
                    continue
                outs = Paths(repo, HandleClient(repo, t, x)).function(f)
                if not any("open" in st for _, _, st in outs):
                    continue
            elif any(isinstance(y, ast.Return) and y.value is x
                     for y in ast.walk(f.node)):
                continue
            ctx.find("D-handle", "%s|%s" % (f.key, name_of(x.func)), f.key,
                     "line %d: a file opened for writing is not closed on every path" %
                     x.lineno)


def check(ctx):
    repo = ctx.repo
    ctx.rule("D-merge", "a source file is deleted only when all of it was written and "
             "the destination is closed", 1)
    ctx.rule("D-batch", "memory is cleared only after saving, and every saved batch is "
             "listed for merging", 1)
    ctx.rule("D-unique", "batch files have different names per turn and process", 1)
    ctx.rule("D-write", "a failed write is not reported as success", 1)
    ctx.rule("D-list", "the merged list is the list of saved batch files", 1)
    ctx.rule("D-left", "what is left in memory after the loop is saved", 1)
    ctx.rule("D-overwrite", "existing results are replaced only on request", 3)
    ctx.rule("D-handle", "files opened for writing are closed on every path", 20)
    mod = next(m for m in repo.modules.values() if m.rel == POP)
    for f in repo.functions():
        if "tests" in f.mod.rel or not f.mod.rel.startswith(("posydon/popsyn",
                                                            "posydon/utils/data_down")):
            continue
        own = [x for x in ast.walk(f.node) if isinstance(x, ast.Call)]
        if any(deletion(x, repo, f) is not None for x in own) and \
                "overwrite" not in params(f) and reads_or_writes(repo, f):
            merge_rule(ctx, f)
        elif any(deletion(y, repo, f) is None and Paths(repo, Client()).target(y, f)
                 is not None and f.cls is not None and
                 Paths(repo, Client()).target(y, f).cls is f.cls and
                 any(deletion(z, repo, f) is not None for z in ast.walk(
                     Paths(repo, Client()).target(y, f).node)
                     if isinstance(z, ast.Call)) for y in own) and \
                "overwrite" not in params(f) and reads_or_writes(repo, f):
            merge_rule(ctx, f)
    batch_rules(ctx, mod)
    write_rule(ctx)
    overwrite_rule(ctx)
    handle_rule(ctx)


class WriteClient(MergeClient):
    def raises(self, n, st, f):
        return [st | {"failed"}] if self.key_of(n)[0] == "w" else []

    def assign(self, s, st, f):
        return [st]

    def enter(self, g, n, f):
        return None


def write_rule(ctx):
    """A failed write is never reported as success."""
    repo = ctx.repo
    for f in repo.functions():
        if "tests" in f.mod.rel or not f.mod.rel.startswith("posydon/popsyn"):
            continue
        cl = WriteClient(repo, f)
        own = [x for x in ast.walk(f.node) if isinstance(x, ast.Call)]
        if not any(cl.key_of(x)[0] == "w" for x in own):
            continue
        if any(deletion(x, repo, f) is not None for x in own) or any(
                name_of(x.func) == "read_hdf" for x in own):
            continue        # merging: a failed file is kept (D-merge)
        outs = Paths(repo, cl).function(f)
        ctx.instance("D-write", "%s, %d path ends" % (f.key, len(outs)))
        if any("failed" in st and k in ("fall", "return") for k, c, st in outs):
            ctx.find("D-write", "%s|swallowed" % f.key, f.key,
                     "a failure to write a table is swallowed: the caller drops the "
                     "data as if it had been saved")


def reads_or_writes(repo, f):
    cl = MergeClient(repo, f)
    return any(cl.key_of(x)[0] or name_of(x.func) in ("extract", "extractall")
               for x in calls_of(repo, f))
