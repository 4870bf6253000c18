"""Rewrite the table of planted changes in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted change | check | what it breaks |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"],
                                      m["what_it_breaks"].replace("|", "/")))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n%s\n<!-- /seeds -->" % "\n".join(rows)
if "@@SEEDS@@" in s:
    s = s.replace("@@SEEDS@@", t)
else:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
