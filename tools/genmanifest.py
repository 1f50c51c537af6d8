#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from registry import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/vb.py o2 asan sched",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                 "technique": CHECKS[i]["technique"], "level": CHECKS[i]["level"], "level_note": CHECKS[i]["note"]} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "No check of this property has been built yet.")} for i in ids if i not in CHECKS]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
