#!/usr/bin/env python3
"""regenerates MANIFEST.json from the table of checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import run
META = json.load(open(os.path.join(V, "engine", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]; m = META[i]
    if i in run.TABLE:
        checks.append(dict(property=i, quick_cmd="python3 engine/run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 engine/run.py " + i,
                           technique=m["technique"], level="other", level_note=m["note"]))
    else:
        na.append(dict(property=i, reason=m.get("na") or "no check built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
