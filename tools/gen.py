#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks_config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "tools"))
from checks_config import CHECKS
from props import PROPS
INC = "libs/mathlib/include/"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": [os.path.normpath(INC + x) for x in p["files"]],
                        "state": p.get("state", []),
                        "mechanism": [{"name": n, "where": os.path.normpath(INC + w)} for n, w in p["mech"]],
                        "observe_at": p.get("observe", ["public API of " + p["files"][0]]),
                        "hook_needed": None},
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks = []
for p in PROPS:
    if p["id"] not in CHECKS:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.py %s --quick" % p["id"],
        "thorough_cmd": "./check.py %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
    })
na = [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["id"] not in CHECKS]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the library is header-only and everything is observable through its public API. "
                    "Known findings: known_findings.txt."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
