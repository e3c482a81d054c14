#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from notes import TECH
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s quick" % i,
            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "technique": TECH[i],
            "level": "exploration",
            "level_note": "Generated-input search against an explicit model; "
                "establishes nothing beyond the cases explored (counts in the evidence).",
        })
    else:
        na.append({"property": i, "reason": "No check built yet."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
