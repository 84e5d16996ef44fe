#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "tools"))
from spec import CHECKS
from props import PROPS, NOTE
with open(HERE + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/build.py t m",
     "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/check.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p["id"],
                 "technique": "deterministic simulation: " + p["technique"], "level": "exploration",
                 "level_note": p.get("level_note", NOTE)} for p in PROPS if p["id"] in CHECKS],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["id"] not in CHECKS],
     "notes": "No hooks in /repo: every seam is taken at the C library, pthread, FFTW and Boost.MPI boundary from outside."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids)) and all(c in ids for c in CHECKS)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    if p["id"] not in CHECKS: assert p.get("na"), p["id"]
