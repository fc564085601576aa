#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks = [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
           "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
           "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in PROPS]
m = {"version": 1, "setup_cmd": "python3 lib/build.py main rc tycho", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    for a, b in (("MANIFEST", [m]), ("PROPERTIES", [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))])):
        s = json.load(open("/root/.vp/%s.schema.json" % a))
        for x in b:
            jsonschema.validate(x, s)
    print("valid")
except ImportError:
    pass
