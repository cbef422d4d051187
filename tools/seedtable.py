"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (not part of any check)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "## 6. Table of planted bugs\n"
d = open(H + "/DESIGN.md").read().split(M)[0].rstrip() + "\n\n" + M + "\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c = m.get("caught_by") or [m["property"]]
    d += "| %s | %s | %s | %s | %s |\n" % (f.split("/")[-2], m["property"], m["needs"], m["what_it_breaks"], m.get("note") or ", ".join(c))
open(H + "/DESIGN.md", "w").write(d)
