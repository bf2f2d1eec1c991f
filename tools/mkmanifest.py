#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from vf import checks
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {}
T = "TLA+ specification checked with TLC; its behaviours replayed into the code and the recorded calls validated against it"
N = ("The TLA+ model's invariants hold on every state TLC reached from the scenario seeds; every generated scenario was run in the real "
     "code and every recorded call accepted by the trace specification, in exact rational arithmetic. Assumes the bounds and tolerances "
     "in DESIGN.md and trusts TLC, the Rat override and the harness's number conversion.")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "technique": T, "level": "model_checking", "level_note": N} for p in props if p["id"] in checks.CHECKS],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check yet")} for p in props if p["id"] not in checks.CHECKS]}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
