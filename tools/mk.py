#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when it changes)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from worlds import CHECKS
from tools.props import PROPS, NOT_APPLICABLE

with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p.get("state", [])],
                         "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "observe_at": p["at"], "hook_needed": None}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
checks = []
na = []
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "deterministic simulation with fault injection: " + p["tech"],
                       "level": CHECKS[i]["level"], "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "the check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is at link time (--wrap) or at RocksDB's Env interface. See DESIGN.md."}
with open(H + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
