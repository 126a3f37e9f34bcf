#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in registry.REG:
        r = registry.REG[p]
        checks.append(dict(property=p, quick_cmd="./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p,
            evidence_file="evidence/%s.json" % p, technique=r["technique"], level="model_checking", level_note=r["note"]))
na = [dict(property=p, reason=registry.NOT_APPLICABLE.get(p, "check under construction")) for p in props if p not in registry.REG]
m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked by TLC; conformance drivers in harness/; see DESIGN.md. No hooks are needed in /repo: the public API exposes the abstract state.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
