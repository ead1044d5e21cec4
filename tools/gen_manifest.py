#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NOTES = {}
checks = []
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for p in props:
    try:
        m = importlib.import_module("mc.checks." + p.lower())
    except ImportError:
        print("no check:", p)
        continue
    checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                   "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.LEVEL_NOTE})
man = {"version": 1, "setup_cmd": "true", "checks": checks,
       "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in [c["property"] for c in checks]], "notes": "No hooks in /repo: all instrumentation is outside (sys.settrace, LD_PRELOAD, instrumented streams)."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
