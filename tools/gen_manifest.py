#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in CHECKS: continue
    c = CHECKS[i]
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in CHECKS]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library is header-only, so the harnesses in harness/ include /repo's working tree directly. run.py builds and runs; mc/mc.hh is the explorer; known_findings.txt lists findings."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
