#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "explicit-state / stateless exhaustive exploration of the real code against a reference model"
CLAIMS = {}
exec(open(os.path.join(D, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "chmod +x check",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMS:
        m["checks"].append({
            "property": i, "quick_cmd": f"./check {i} --tier quick",
            "thorough_cmd": f"./check {i} --tier thorough",
            "technique": "model checking: " + CLAIMS[i][0],
            "level": "model_checking", "level_note": CLAIMS[i][1]})
    else:
        m["not_applicable"].append({"property": i,
                                    "reason": "check not built yet"})
if not m["not_applicable"]:
    del m["not_applicable"]
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
