#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS    # noqa

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fd:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"],
             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [dict(zip(("name", "meaning", "where"), s))
                          for s in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        fd.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": a}) + "\n")

man = {"version": 1,
       "setup_cmd": "python3 -m compileall -q sa rules check.py",
       "checks": [{
           "property": p["id"],
           "quick_cmd": "python3 check.py %s" % p["id"],
           "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
           "technique": p["technique"],
           "level": "other",
           "level_note": p["note"]} for p in PROPS if not p["na"]],
       "not_applicable": [{"property": p["id"], "reason": p["na"]}
                          for p in PROPS if p["na"]],
       "notes": "Static analysis only: check.py parses /repo's current source, "
                "runs nothing of it. Known findings: known_findings.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fd:
    json.dump(man, fd, indent=1)
    fd.write("\n")
