#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..")
props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
CLAIM = json.load(open(os.path.join(HERE, "claims.json")))
checks, na = [], []
for p in props:
    c = CLAIM[p]
    if "reason" in c:
        na.append({"property": p, "reason": c["reason"]})
        continue
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": c["technique"],
                   "level": "model_checking", "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check uses the public API of /repo's crates (the browser harness builds the real wasm code natively against an in-memory web-sys). See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
