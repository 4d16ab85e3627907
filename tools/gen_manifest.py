#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry as r
checks = []
for pid, p in r.PROPS.items():
    if pid in r.NOT_APPLICABLE:
        continue
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": p.get("technique", "executable contracts on the real code (bounded)"),
                   "level": p["level"], "level_note": p.get("note", "bounded executable contracts")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in r.NOT_APPLICABLE.items()],
     "notes": "No hooks in /repo are needed: private functions are reached by extracting them mechanically from /repo's current source."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
