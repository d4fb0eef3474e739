#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from checks import CHECKS
V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 tools/check.py {i} --tier quick", "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
                            "technique": c["technique"], "level": c["level"], "level_note": c["bounds"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check registered yet: the exploration for it is being built")})
m["notes"] = "Model checking of the implementation itself: tools/build.py compiles /repo's working tree with an in-process message passing and scheduling runtime; see DESIGN.md."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
