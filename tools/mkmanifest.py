#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py (claimed) and properties.jsonl (the rest: not applicable)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=p.get("technique", "contract-based deductive verification (Verus) of the functions extracted from /repo on every run"),
                       level=p.get("level", "proof"), level_note=p["note"]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not claimed yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="./setup", hooks=dict(guard="none", enable="no hooks: the checks build /repo unchanged", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="See DESIGN.md. known_findings.txt lists genuine defects (fixed and recorded)."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
