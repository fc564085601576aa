"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (key "caught")."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seed | property | breaks | caught by |", "|------|----------|--------|-----------|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught", "?")))
s = open(V + "/DESIGN.md").read()
i = s.index("## Planted bugs")
j = s.find("\n## ", i + 5)
t = s[:i] + "## Planted bugs\n\n" + "\n".join(rows) + "\n" + (s[j:] if j > 0 else "")
open(V + "/DESIGN.md", "w").write(t)
