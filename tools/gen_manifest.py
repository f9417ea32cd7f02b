#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from plans import PLANS
from notes import NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLANS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC; conformance of recorded executions",
                       "level": "model_checking", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": "specification module not written yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check uses the public API only and rebuilds the harness from /repo's headers. "
              "known_findings.txt lists the defects found and repaired."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
