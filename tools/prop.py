"""prop.py ID key=value ...: edit fields of one property in properties.jsonl
(title, statement, why_tests_cant, files=a,b)."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
rows = [json.loads(l) for l in open(p)]
pid = sys.argv[1]
for d in rows:
    if d["id"] == pid:
        for kv in sys.argv[2:]:
            k, _, v = kv.partition("=")
            if k == "files":
                d["anchors"]["files"] = v.split(",")
            elif k == "text":
                d["quantifier"]["text"] = v
            else:
                d[k] = v
with open(p, "w") as fh:
    for d in rows:
        fh.write(json.dumps(d) + "\n")
