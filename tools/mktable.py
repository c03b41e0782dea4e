#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json.

Optional field "caught_by" in meta.json says what the check needed first."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = "<!-- table -->"
p = os.path.join(root, "DESIGN.md")
text = open(p).read().split(mark)[0].rstrip("\n")
rows = ["| bug | property | needs | caught |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    needs = " ".join(str(m["needs"]).split()).replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], needs, m.get("caught", "yes, by " + m["property"])))
open(p, "w").write(text + "\n\n" + mark + "\n" + "\n".join(rows) + "\n")
