#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from plan import PLAN, NOTES  # noqa
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p not in PLAN:
        na.append({"property": p, "reason": "check not built yet"})
        continue
    tech, note = NOTES.get(p, NOTES["*"])
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick bin/check.py " + p,
                   "thorough_cmd": "VERIF_TIER=thorough bin/check.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech,
                   "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; see DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
