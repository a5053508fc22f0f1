#!/usr/bin/env python3
"""Regenerate contracts/shapes.json: the loop kinds and closure counts of each unit's functions in the tree the contracts were written for."""
import json, os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
vx = check.build_vx()
out = {}
for p, c in check.CONF.items():
    if p.startswith("_"):
        continue
    for u in c.get("units", [p]):
        with tempfile.TemporaryDirectory() as d:
            o, rep, e = check.extract(vx, u, d)
            if o is None:
                raise SystemExit(u + ": " + e)
            out[u] = check.shape(rep)
json.dump(out, open(os.path.join(check.VERIF, "contracts", "shapes.json"), "w"), indent=1, sort_keys=True)
