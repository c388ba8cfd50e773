#!/usr/bin/env python3
"""Rewrites the table of section 6 of DESIGN.md from seeded/*/meta.json and tools/caught.json.
caught.json (bug -> tests of the property's check that reported it) is filled by hand from runs of the checks."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = ["| change | property | needs | reported by (quick tier) |", "|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    c = caught.get(b)
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "\\|"), c or "not reported"))
d = open(V + "/DESIGN.md").read()
a, z = "<!-- bugs -->\n", "<!-- /bugs -->"
d = d[:d.index(a) + len(a)] + "\n".join(rows) + "\n" + d[d.index(z):]
open(V + "/DESIGN.md", "w").write(d)
print(len(rows) - 2, "changes,", sum(1 for b in os.listdir(V + "/seeded") if not caught.get(b)), "not reported")
