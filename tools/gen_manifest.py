#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import jobs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = getattr(jobs, "NOTES", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.JOBS:
        n = NOTE.get(i, {})
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % i,
                       "technique": n.get("technique", "TLA+ specification (TLC), bound by validating traces of the real code"),
                       "level": "model_checking",
                       "level_note": n.get("note", "Every recorded step of the real code was a step of the specification with the property; trusts the recorder, TLC and the operator overrides. Histories are generated from VERIF_SEED, not exhaustive.")})
    else:
        na.append({"property": i, "reason": getattr(jobs, "NOT_APPLICABLE", {}).get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
           "notes": "bin/check.py rebuilds the harness from /repo in a temporary directory on every run; setup only checks the tools."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
