#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (keeps them in step)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools"); sys.path.insert(0, H)
from props import PROPS, NA
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        o = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o) + "\n")
na = dict(NA)
checks = []
for p in PROPS:
    if p["id"] in na: continue
    c = f"python3 check.py {p['id']}"
    checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c + " --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
                   "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
import jsonschema
S = "/root/.vp/"
jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
for l in open(H + "/properties.jsonl"): jsonschema.validate(json.loads(l), json.load(open(S + "PROPERTIES.schema.json")))
print(len(PROPS), "properties,", len(checks), "checks,", len(NA), "not applicable")
