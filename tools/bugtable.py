#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = dict(l.split(None, 1) for l in open(V + "/tools/caught.txt") if l.strip())
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], c.get(i, "?").strip()))
d = open(V + "/DESIGN.md").read()
mark = "<!-- bugs -->"
d = d.split(mark)[0] + mark + "\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(d)
