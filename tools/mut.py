"""Ad-hoc mutation lab: mut.py PROP[,PROP..] <<< blocks of
FILE
<<<<
old
====
new
>>>>
Each block is applied alone on a scratch copy; prints which checks fire."""
import os, re, shutil, subprocess, sys
props = sys.argv[1].split(",")
txt = sys.stdin.read()
BASE = os.environ.get("SA_BASE", "/repo")
root = "/tmp/mutlab%d" % os.getpid()
for m in re.finditer(r"^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>", txt, re.S | re.M):
    f, old, new = m.groups()
    src = open(BASE + "/" + f).read()
    if old not in src:
        print("NOT-FOUND", f, old[:60]); continue
    if not os.path.isdir(root):
        shutil.copytree(BASE, root, ignore=shutil.ignore_patterns(
            ".git", "docs", "tutorials", "build", "*.h5"))
    cnt = src.count(old)
    open(root + "/" + f, "w").write(src.replace(old, new, 1))
    for p in props:
        r = subprocess.run(["bash", "run.sh", p], cwd=os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), env=dict(os.environ, SA_REPO=root, SA_NOEVID="1"),
            capture_output=True, text=True)
        out = [l for l in r.stdout.splitlines() if "|" in l and not l.startswith(("rule", "KNOWN"))]
        print("rc=%d %s [%s%s] %s -> %s" % (r.returncode, p, f.split("/")[-1],
              "" if cnt == 1 else " x%d" % cnt, new.strip()[:60].replace("\n", "/"), [o.strip() for o in out][:3] or r.stdout[-200:] if r.returncode else ""))
    open(root + "/" + f, "w").write(src)
shutil.rmtree(root, ignore_errors=True)
