#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/checks.json and properties.jsonl."""
import json, os
import jsonschema
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(R + "/harness/checks.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": []}
for p in props:
    c = checks.get(p["id"])
    if c is None:
        out["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        continue
    out["checks"].append({
        "property": p["id"], "quick_cmd": "./check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
out["notes"] = "TLA+ specifications in spec/, checked with TLC; see DESIGN.md. No hooks in /repo are needed: operations are observed from outside."
s = "/root/.vp/MANIFEST.schema.json"
if os.path.exists(s):
    jsonschema.validate(out, json.load(open(s)))
json.dump(out, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
