"""multi.py PROPS FILE: FILE defines CASES = [(name, [(file, old, new), ...]), ...];
each case is applied alone on a scratch copy; prints which checks fire."""
import os, shutil, subprocess, sys
props = sys.argv[1].split(",")
ns = {}
exec(open(sys.argv[2]).read(), ns)
BASE = os.environ.get("SA_BASE", "/repo")
root = "/tmp/multilab%d" % os.getpid()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
shutil.copytree(BASE, root, ignore=shutil.ignore_patterns(
    ".git", "docs", "tutorials", "build", "*.h5"))
for name, edits in ns["CASES"]:
    saved, ok = {}, True
    for f, old, new in edits:
        src = open(root + "/" + f).read()
        saved.setdefault(f, src)
        if old not in src:
            print("NOT-FOUND", name, f, old[:70]); ok = False; break
        open(root + "/" + f, "w").write(src.replace(old, new, 1))
        try:
            compile(open(root + "/" + f).read(), f, "exec")
        except SyntaxError as e:
            print("SYNTAX", name, f, e); ok = False; break
    for p in props if ok else ():
        r = subprocess.run(["bash", "run.sh", p], cwd=V, env=dict(
            os.environ, SA_REPO=root, SA_NOEVID="1"), capture_output=True, text=True)
        out = [l.strip() for l in r.stdout.splitlines()
               if "|" in l and not l.startswith(("rule", "KNOWN"))]
        print("rc=%d %s %s -> %s" % (r.returncode, p, name,
              (out[:3] or r.stdout[-300:]) if r.returncode else ""))
    for f, src in saved.items():
        open(root + "/" + f, "w").write(src)
shutil.rmtree(root, ignore_errors=True)
