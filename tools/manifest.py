"""Regenerate MANIFEST.json from the table below and properties.jsonl."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(HERE, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED["claimed"]:
        c = CLAIMED["claimed"][i]
        checks.append({
            "property": i,
            "quick_cmd": "bash run.sh %s quick" % i,
            "thorough_cmd": "bash run.sh %s thorough" % i,
            "technique": "static analysis: " + c["technique"],
            "level": "other", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": CLAIMED["not_applicable"][i]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
