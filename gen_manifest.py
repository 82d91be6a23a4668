#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os
from config import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks = []
for p in ids:
    if p in PROPS:
        c = PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not claimed yet")} for p in ids if p not in PROPS]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "static analysis of rustc MIR; see DESIGN.md"}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
