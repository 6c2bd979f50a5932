#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd="python3 lib/check.py %s quick" % i, thorough_cmd="python3 lib/check.py %s thorough" % i,
               technique=PROPS[i]["technique"], level=PROPS[i].get("level", "proof"), level_note=PROPS[i]["note"]) for i in ids if i in PROPS]
na = [dict(property=i, reason=NOT_APPLICABLE[i]) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not applicable")
