#!/usr/bin/env python3
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P, NA
root = os.path.dirname(here)
P.sort(key=lambda x: x["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as fh:
    for x in P + [n for n in NA if "statement" in n]:
        assert len(x["title"]) <= 80, x["id"]
        fh.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                             "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                             "anchors": {"files": x["files"], "mechanism": [{"name": m, "where": x["files"][0]} for m in x["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash tool/build.sh",
     "checks": [{"property": x["id"], "quick_cmd": "python3 check.py %s" % x["id"], "thorough_cmd": "python3 check.py %s" % x["id"],
                 "technique": x["technique"], "level": "other", "level_note": x["note"]} for x in P],
     "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA]}
with open(os.path.join(root, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
