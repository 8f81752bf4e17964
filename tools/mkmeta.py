#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in sorted(props.PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
checks, na = [], []
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not os.path.exists(os.path.join(V, "sa/checks/%s.py" % p["id"].lower())):
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 sa/run.py --property %s --tier quick" % p["id"],
        "thorough_cmd": "python3 sa/run.py --property %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["tech"],
        "level": "other",
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "python3 sa/facts.py cesride cesride_wasm cesride_dat", "checks": checks, "not_applicable": na,
     "notes": "All checks decide from the MIR of /repo's current tree (rustc_private driver + abstract interpretation in Python); nothing of cesride is executed. No hooks in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
import jsonschema
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(l), S)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(na), "not applicable")
