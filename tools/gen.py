#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import P
from claims import CLAIMS, NOTES, NOT_APPLICABLE, HOOKS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P:
        anchors = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}
        if q["state"]:
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in q["state"]]
        if q["observe"]:
            anchors["observe_at"] = q["observe"]
        anchors["hook_needed"] = q["hook"]
        f.write(json.dumps({
            "id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]},
            "why_tests_cant": q["why"], "anchors": anchors}) + "\n")
        assert len(q["title"]) <= 80, q["id"]
checks, na = [], []
for q in P:
    if q["id"] in CLAIMS:
        checks.append({
            "property": q["id"],
            "quick_cmd": "./run.sh %s quick" % q["id"],
            "thorough_cmd": "./run.sh %s thorough" % q["id"],
            "evidence_file": "evidence/%s.json" % q["id"],
            "technique": q["technique"],
            "level": "model_checking",
            "level_note": CLAIMS[q["id"]],
        })
    else:
        na.append({"property": q["id"], "reason": NOT_APPLICABLE.get(q["id"], "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
