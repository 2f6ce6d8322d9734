#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and tools/claims.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
import claims
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        r = p["rec"]
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["rec"]["id"]
    if i in claims.CLAIMS:
        tech, note = claims.CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick",
                       "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": claims.NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na, "notes": claims.NOTES}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "claimed")
