#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vf/checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vf.checks import CHECKS
checks, na = [], []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)["id"]
    c = CHECKS.get(p)
    if c and c.get("parts"):
        checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p,
                       "thorough_cmd": "python3 run.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": (c or {}).get("na", "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na},
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
