#!/usr/bin/env python3
"""writes MANIFEST.json from the registry and properties.jsonl"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from checks import CHECKS  # noqa: E402

TECH = "TLA+ specification model-checked with TLC; traces of the real code validated against it by TLC"
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    c = CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "specification and conformance check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 bin/check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": TECH + (c.get("technique", "")),
        "level": "model_checking",
        "level_note": c.get("note", "Design modules: exhaustive within the bounds of the .cfg files. Conformance: every "
                            "recorded step of the generated runs is decided by TLC against the specification; "
                            "runs are generated from VERIF_SEED, not exhaustive."),
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
