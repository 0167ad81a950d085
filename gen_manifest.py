#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import importlib, sys
sys.path.insert(0, "lib")
from registry import REG
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    if p in REG:
        r = REG[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": r["technique"], "level": r.get("level", "model_checking"), "level_note": r["note"]})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
