#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "python3 run.py --build-all",
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                 "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]}
                for i, c in sorted(CHECKS.items())],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
     "notes": "No hooks in /repo: every check drives the public API of the unmodified sources, compiled from the working tree by run.py."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
left = [p for p in props if p not in CHECKS and p not in NOT_APPLICABLE]
print(len(m["checks"]), "checks; neither claimed nor excused:", left)
