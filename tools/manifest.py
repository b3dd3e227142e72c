#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
from plan import PLAN, NOTE  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": PLAN[i]["technique"], "level": "model_checking",
            "level_note": PLAN[i].get("note", NOTE)})
    else:
        na.append({"property": i, "reason": "no check has been built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the instrumented copy is generated from the current tree at check time (mc/instr) and compiled with go build -overlay. KNOWN_FINDINGS.txt lists findings and fixes."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
