#!/usr/bin/env python3
"""regenerate MANIFEST.json from config.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
from config import PROPS, TECH
try:
    from config import NA
except ImportError:
    NA = {}
try:
    from config import HOOKS
except ImportError:
    HOOKS = None
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
if HOOKS:
    m["hooks"] = HOOKS
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": c.get("tech", TECH), "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
