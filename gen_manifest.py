#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os
from registry import CHECKS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({"property": p,
                   "quick_cmd": "python3 /verif/check.py run %s quick" % p,
                   "thorough_cmd": "python3 /verif/check.py run %s thorough" % p,
                   "technique": "model checking: " + c["technique"],
                   "level": "model_checking",
                   "level_note": c["rule"] + "; bounds: " + (c["bounds"]["quick"] if isinstance(c["bounds"], dict) else c["bounds"])})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")} for p in props if p not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 /verif/check.py list", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
