#!/usr/bin/env python3
"""fills the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it breaks | what it needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
p = V + "/DESIGN.md"
t = open(p).read()
a, b = t.index("<!-- bugs -->"), t.index("<!-- /bugs -->")
open(p, "w").write(t[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + t[b:])
