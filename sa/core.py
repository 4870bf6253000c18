"""Check driver: findings, known findings, evidence, exit codes."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")

from .repo import REPO, AnalysisBroken, Repo
from .consts import ConstEval

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.repo = Repo()
        self.consts = ConstEval(self.repo)
        self.findings = {}      # key -> (where, message)
        self.counts = {}
        self.rules = {}         # rule -> text
        self.notes = []
        self.samples = {}

    def rule(self, rid, text, minimum=1):
        """Declare a rule and the least number of instances it must have."""
        self.rules[rid] = {"text": text, "instances": 0, "min": minimum}

    def instance(self, rid, what=None, n=1):
        self.rules[rid]["instances"] += n
        if what is not None:
            s = self.samples.setdefault(rid, [])
            if len(s) < 12:
                s.append(what)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def find(self, rid, construct, where, msg):
        key = rid + "|" + construct
        if key not in self.findings:
            self.findings[key] = (where, msg)

    def note(self, txt):
        if txt not in self.notes:
            self.notes.append(txt)

    def broken(self):
        return ["rule %s matched %d instances, expected at least %d"
                % (r, d["instances"], d["min"]) for r, d in self.rules.items()
                if d["instances"] < d["min"]]


def load_known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known: property=%s " % prop):
                continue
            rest = line.split("key=", 1)[1]
            key, _, desc = rest.partition(" -- ")
            out[key.strip()] = desc.strip()
    return out


def run_check(prop, tier):
    t0 = time.time()
    ctx = Ctx(prop, tier)
    mod = importlib.import_module("sa.checks." + prop.lower())
    broken = []
    try:
        mod.check(ctx)
    except AnalysisBroken as e:
        broken.append(str(e))
    except Exception:
        broken.append(traceback.format_exc())
    known = load_known(prop)
    new = {k: v for k, v in ctx.findings.items() if k not in known}
    broken += ctx.broken()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for r, d in ctx.rules.items():
        print("rule %-28s %5d instances (at least %d expected): %s"
              % (r, d["instances"], d["min"], d["text"]))
    for k in sorted(ctx.findings):
        if k in known:
            where, msg = ctx.findings[k]
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k], where))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", mod.__doc__ or "").strip(),
            "modules_parsed": len(ctx.repo.modules),
            "functions_parsed": sum(1 for _ in ctx.repo.functions()),
            "rules": ctx.rules, "counts": ctx.counts,
            "sample_instances": ctx.samples, "notes": ctx.notes[:60],
            "known_findings": sorted(k for k in ctx.findings if k in known),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "violations": [{"key": k, "where": v[0], "what": v[1]}
                       for k, v in sorted(new.items())],
        "wall_s": round(wall, 3),
    }
    if broken:
        ev["coverage"]["analysis_broken"] = broken
    evdir = os.path.join(HERE, "evidence") if "SA_NOEVID" not in os.environ \
        else os.environ.get("TMPDIR", "/tmp")
    with open(os.path.join(evdir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if new:
        rp = os.path.join(evdir, prop + ".violation.txt")
        with open(rp, "w") as fh:
            for k in sorted(new):
                fh.write("%s\n  at %s\n  %s\n\n" % (k, new[k][0], new[k][1]))
        for k in sorted(new)[:12]:
            print("  %s\n    at %s\n    %s" % (k, new[k][0], new[k][1]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if broken:
        for b in broken:
            print("ANALYSIS-BROKEN property=%s %s" % (prop, b))
        return 3
    print("OK property=%s %d rule instances, %.1f s" % (
        prop, sum(d["instances"] for d in ctx.rules.values()), wall))
    return 0


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(prop, tier)


if __name__ == "__main__":
    sys.setrecursionlimit(40000)
    sys.exit(main(sys.argv[1:]))
