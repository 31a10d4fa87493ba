#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
from registry import CHECKS, NOT_APPLICABLE, HOOKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": [], "not_applicable": [], "notes": "All checks run checks/run.py, which builds the harness of the property from /repo's working tree under /verif/build (ignored by git). Replay a failure with the printed path: <harness binary> --replay <file> (see DESIGN.md)."}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/run.py %s --tier quick" % i, "thorough_cmd": "python3 checks/run.py %s --tier thorough" % i, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
