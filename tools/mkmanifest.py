#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
VERIF = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c is None:
        out["not_applicable"].append({"property": p["id"], "reason": checks.NOT_CLAIMED.get(p["id"], "no conformance check of this property has been built yet; see DESIGN.md")})
        continue
    out["checks"].append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                          "evidence_file": "evidence/%s.json" % p["id"], "technique": c["technique"], "level": c["level"],
                          "level_note": c["note"] + ("; assumes: " + "; ".join(c["assumptions"]) if c["assumptions"] else "")})
json.dump(out, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "claimed,", len(out["not_applicable"]), "not")
