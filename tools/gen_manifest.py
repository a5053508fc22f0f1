#!/usr/bin/env python3
"""Regenerate MANIFEST.json from contracts/units.json and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
conf = json.load(open(os.path.join(V, "contracts", "units.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in conf:
        c = conf[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i,
            "technique": c.get("technique", "contracts on the functions extracted from /repo, discharged by Verus"),
            "level": "proof",
            "level_note": c.get("note", "Every obligation of the functions the property depends on is discharged by Verus for all inputs, from /repo's source as extracted on each run. Assumes: "
                + "; ".join(conf["_assumptions"] + c.get("assumptions", [])) + "."),
        })
    else:
        na.append({"property": i, "reason": conf["_not_applicable"].get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "Known findings and repairs: known_findings.txt. Design: DESIGN.md."}
if conf.get("_hooks"):
    m["hooks"] = conf["_hooks"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
