"""Random syntactic mutants of one function: automut.py PROPS FILE FUNC[,FUNC] N [SEED].

FUNC is a bare name (every def of that name in FILE).  Mutants are written to
scratch copies and judged by the given checks in parallel; survivors are listed
for inspection (some are equivalent)."""
import ast, copy, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
props, rel, funcs, N = sys.argv[1].split(","), sys.argv[2], sys.argv[3].split(","), int(sys.argv[4])
rng = random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1)
BASE = os.environ.get("SA_BASE", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(BASE + "/" + rel).read()
tree = ast.parse(src)
sites = []
def visit(fn):
    doc = set()
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n): skip.add(id(x))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("print", "Pwarn"):
            for x in ast.walk(n): skip.add(id(x))
        if isinstance(n, ast.JoinedStr):
            for x in ast.walk(n): skip.add(id(x))
    for n in ast.walk(fn):
        if id(n) in skip: continue
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            sites.append((n, "num"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool): sites.append((n, "bool"))
        elif isinstance(n, ast.BinOp): sites.append((n, "op"))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1: sites.append((n, "cmp"))
        elif isinstance(n, ast.BoolOp): sites.append((n, "boolop"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)): sites.append((n, "un"))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load): sites.append((n, "attr"))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load): sites.append((n, "name"))
        elif isinstance(n, ast.Assign) and len(fn.body) > 1: sites.append((n, "drop"))
        elif isinstance(n, ast.Call) and len(n.args) >= 2: sites.append((n, "swap"))
for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef,)) and n.name in funcs: visit(n)
pool = {}
OPS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
CM = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
      ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
PAIR = [("star_1", "star_2"), ("primary", "secondary"), ("co_core_mass", "he_core_mass"),
        ("mass", "he_core_mass"), ("m1", "m2"), ("sin", "cos"), ("donor", "comp_star"),
        ("log_R", "log_L"), ("star1", "star2"), ("Msun", "Rsun"), ("NS", "BH")]
def mutate(n, kind):
    seg = ast.get_source_segment(src, n)
    if seg is None: return None
    m = copy.deepcopy(n)
    if kind == "num":
        v = n.value
        m.value = rng.choice([v + 1, v * 2 or 3, -v or 1, v * 1.1 if isinstance(v, float) else v + 2])
    elif kind == "bool": m.value = not n.value
    elif kind == "op":
        if type(n.op) not in OPS: return None
        m.op = OPS[type(n.op)]()
    elif kind == "cmp":
        if type(n.ops[0]) not in CM: return None
        m.ops = [CM[type(n.ops[0])]()]
    elif kind == "boolop": m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == "un": m = m.operand
    elif kind == "attr":
        for a, b in PAIR:
            if n.attr == a: m.attr = b; break
            if n.attr == b: m.attr = a; break
        else: return None
    elif kind == "name":
        for a, b in PAIR:
            if n.id == a: m.id = b; break
            if n.id == b: m.id = a; break
        else: return None
    elif kind == "drop":
        return seg, "pass", n
    elif kind == "swap":
        m.args[0], m.args[1] = m.args[1], m.args[0]
    new = ast.unparse(m)
    if kind in ("op", "boolop", "un", "cmp"): new = "(" + new + ")"
    return seg, new, n
cases = []
rng.shuffle(sites)
lines = src.splitlines(keepends=True)
offs = [0]
b = src.encode()
for l in lines: offs.append(offs[-1] + len(l.encode()))
for n, k in sites:
    r = mutate(n, k)
    if r is None: continue
    s, e = offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    t = (b[:s] + r[1].encode() + b[e:]).decode()
    try: ast.parse(t)
    except SyntaxError: continue
    if ast.dump(ast.parse(t)) == ast.dump(tree): continue
    cases.append((n.lineno, k, r[0], r[1], t))
    if len(cases) >= N: break
W = int(os.environ.get("JOBS", "6"))
def job(i_case):
    i, (ln, k, old, new, t) = i_case
    root = "/tmp/automut%d_%d" % (os.getpid(), i)
    shutil.copytree(BASE, root, ignore=shutil.ignore_patterns(".git", "docs", "tutorials", "build", "*.h5", "unit_tests", "data"))
    open(root + "/" + rel, "w").write(t)
    out = {}
    for p in props:
        r = subprocess.run(["bash", "run.sh", p], cwd=V, capture_output=True, text=True,
            env=dict(os.environ, SA_REPO=root, SA_NOEVID="1", SA_TAG="m%d" % i))
        out[p] = r.returncode
        if 1 in out.values(): break
    shutil.rmtree(root)
    return ln, k, old, new, out
with ThreadPoolExecutor(W) as ex:
    res = list(ex.map(job, enumerate(cases)))
killed = sum(1 in r[4].values() for r in res)
for ln, k, old, new, out in sorted(res):
    if 1 not in out.values():
        print("SURVIVED %s:%d %s: %s -> %s %s" % (rel.split("/")[-1], ln, k, old[:70].replace("\n", " "), new[:60].replace("\n", " "), {p: c for p, c in out.items() if c} or ""))
print("killed %d of %d" % (killed, len(res)))
