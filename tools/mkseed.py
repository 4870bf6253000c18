"""Create /verif/seeded/<id>/ from textual edits and try demo and check on it.

usage (as a library): mk(id, prop, needs, breaks, [(file, old, new), ...], demo)
"""
import json
import os
import shutil
import subprocess
import sys

WT = "/tmp/wt_seed"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd is the repository; exits 0 when the property's behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export PATH_TO_POSYDON=./ PATH_TO_POSYDON_DATA=./posydon/unit_tests/_data/ MESA_DIR=./
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    if os.path.isdir(WT):
        shutil.rmtree(WT)
    os.makedirs(WT)
    sh("git -C /repo archive HEAD | tar -x -C %s" % WT)
    sh("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % WT)


def mk(sid, prop, needs, breaks, edits, demo, run_check=True):
    fresh()
    d = os.path.join(HERE, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.sh", "w") as fh:
        fh.write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/demo.py", "w") as fh:
        fh.write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, cwd=WT)
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(old) >= 1, (f, old, "not found")
        assert s.count(old) == 1, (f, old, "ambiguous %d" % s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % WT).stdout
    open(d + "/patch.diff", "w").write(diff)
    ap = sh("git -C /repo apply --check %s/patch.diff" % d)
    r1 = sh("bash %s/demo.sh" % d, cwd=WT)
    b = sh("python3 -W ignore -m compileall -q %s/posydon" % WT)
    out = "demo base=%d patched=%d apply=%d compile=%d" % (
        r0.returncode, r1.returncode, ap.returncode, b.returncode)
    if run_check:
        c = sh("SA_REPO=%s SA_NOEVID=1 bash run.sh %s" % (WT, prop), cwd=HERE)
        out += " check=%d" % c.returncode
        if c.returncode not in (0, 1):
            out += "\n" + c.stdout[-1500:] + c.stderr[-800:]
    print(sid, prop, out)
    if r0.returncode:
        print("BASE DEMO FAILED", r0.stdout[-1500:], r0.stderr[-1500:])
    if not r1.returncode:
        print("PATCHED DEMO PASSED", r1.stdout[-500:])
    elif "Error" in r1.stderr and "AssertionError" not in r1.stderr:
        print("patched stderr:", r1.stderr[-600:])
    shutil.rmtree(WT)
