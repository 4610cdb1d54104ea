#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/py/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/mc/py")
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in props.SPECS:
        s = props.SPECS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py run %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py run %s --tier thorough" % i,
                       "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
man = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
       "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in props.SPECS],
       "notes": "No hooks: the checks compile /repo's source files as they are. Known findings: known_findings.txt."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
