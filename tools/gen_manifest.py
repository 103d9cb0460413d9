#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import PROPS
from notes import TECH, NOTE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": TECH[i], "level": "exploration", "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet (work in progress)"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
