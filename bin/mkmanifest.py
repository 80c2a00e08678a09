#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
NA = {}
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p.get("technique", "TLA+ trace validation (TLC) of recorded executions"),
                       "level": p.get("level", "model_checking"), "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, conformance drivers in harness/, check.py builds the drivers from /repo's working tree, records traces and validates them with TLC. No hooks in /repo."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
