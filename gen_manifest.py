#!/usr/bin/env python3
"""Write MANIFEST.json from checks.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
spec = json.load(open(os.path.join(H, "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    if p in spec:
        s = spec[p]
        checks.append({"property": p, "quick_cmd": "./check.py " + p, "thorough_cmd": "./check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": s["technique"], "level": s["level"],
                       "level_note": s["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in spec],
     "notes": "check.py builds the explorers in mc/ against /repo's working tree (path dependencies, public API only) and explores; see DESIGN.md. No hooks in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
