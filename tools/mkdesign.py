"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the outcomes noted in tools/catches.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/catches.json"))
rows = ["| Bug | Property | Needs | Caught by | First |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    k = c.get(d.split("-")[0], ["?", "?"])
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], k[0], k[1]))
t = open(V + "/DESIGN.md").read()
b = "<!-- planted -->\n"
e = "<!-- end planted -->"
t = t.replace("@@TABLE@@", b + e)
t = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: b + "\n".join(rows) + "\n" + e, t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
