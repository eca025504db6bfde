#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
ns = {}
exec(open(os.path.join(here, "claims.py")).read(), ns)
C, NA = ns["CLAIMS"], ns["NOT_APPLICABLE"]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C:
        tech, level, note = C[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
