#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {}
NOTE = ("TLC compares every recorded call (status, value, bytes, size) with the TLA+ machine; complete for the histories "
        "made, which are random schemas, values and inputs aimed at the property, drawn from VERIF_SEED. Trusts the harness's "
        "projection of Go values and the specification's reading of the documentation.")
from notes import TECHNIQUE, LEVEL_NOTE, NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [], "notes":
     "TLA+ (TLC). check.py builds the harness (an external module that uses only the public API) against /repo, records histories and has TLC judge them against /verif/spec."}
for p in props:
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --thorough" % p,
            "technique": TECHNIQUE.get(p, TECHNIQUE["default"]), "level": "model_checking", "level_note": LEVEL_NOTE.get(p, NOTE)})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
