#!/usr/bin/env python3
"""writes MANIFEST.json from the plan"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from stverif import plan
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
TECH = "contract-based deductive verification of the real header (own VC generator over clang's typed AST, z3)"
checks, na = [], []
for p in props:
    if p in plan.PLAN:
        checks.append({"property": p, "quick_cmd": "python3-vt check.py %s quick" % p, "thorough_cmd": "python3-vt check.py %s thorough" % p,
                       "technique": TECH, "level": plan.LEVEL.get(p, "proof"), "level_note": plan.NOTE[p]})
    else:
        na.append({"property": p, "reason": plan.NA.get(p, "no deductive check yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks read the header as it is."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
