"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = s[:s.index("## Planted changes")]
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"].replace("|", "/")))
open(p, "w").write(head + open(os.path.join(V, "tools", "planted.md")).read().replace("@ROWS@", "\n".join(rows)).replace("@N@", str(len(rows))))
