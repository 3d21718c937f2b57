#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
import sys
sys.path.insert(0, V)
import vmeta
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in vmeta.CLAIMED:
        na.append({"property": i, "reason": "not built yet"})
        continue
    tech, note = vmeta.CLAIMED[i]
    checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harness is laid over the module with go build -overlay; for C19 and C20 the overlay holds instrumented copies generated from the current sources."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
