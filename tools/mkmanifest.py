#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN, NA
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        q = PLAN[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": q.get("technique", "contract-based deductive verification: Verus contracts on functions extracted from /repo on every run, all obligations discharged by Z3; failed obligations are replayed by a bounded search on the built crate"),
            "level": "proof",
            "level_note": q["note"],
        })
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the verifier reads the source text, the probe uses the public API. Fix commits are listed in known-findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
