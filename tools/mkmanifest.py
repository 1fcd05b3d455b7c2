#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp import registry
ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                       "technique": registry.TECH.get(i, "TLA+ specification, TLC; behaviours generated by TLC replayed through the public API"),
                       "level": "model_checking", "level_note": registry.NOTE.get(i, registry.NOTE["*"])})
    else:
        na.append({"property": i, "reason": registry.NA.get(i, "no check yet: the specification does not cover it so far")})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
