#!/usr/bin/env python3
"""Writes the generated part of DESIGN.md (everything from "## Per property" on) from lib/props.py, properties.jsonl,
known_findings.txt, seeded/*/meta.json and tools/detected.txt."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
d = open(os.path.join(V, "DESIGN.md")).read()
head = d[:d.index("## Per property")]
out = ["## Per property\n"]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    i = p["id"]
    if i not in PROPS:
        continue
    q = PROPS[i]
    out.append(f"### {i} {p['title']}")
    out.append(f"Units: {', '.join(q['units']) or 'none'}; driver suite {q['suite']}; level {q.get('level', 'proof')}.  ")
    out.append(q["note"] + "  ")
    out.append("Assumed: " + ("; ".join(q["assumptions"]) or "nothing beyond the stand-in") + ".\n")
out.append("## Not applicable\n")
for p in props:
    if p["id"] not in PROPS:
        out.append(f"- {p['id']} {p['title']}: {NOT_APPLICABLE.get(p['id'], 'not claimed yet')}")
out.append("\n## Defects found\nEach was shown on the real code by the driver, and is repaired by a `fix:` commit in /repo (known_findings.txt).\n")
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith(("fixed:", "known:")):
        out.append("- " + l.strip())
det = {}
for l in open(os.path.join(V, "tools", "detected.txt")):
    k, _, r = l.strip().partition(" ")
    det[k] = r
out.append("\n## Planted bugs, and what catches them\nEach was run with tools/trybug (quick check of its property).\n\n| bug | property | needs | caught |\n|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    k = f.split("/")[-2]
    m = json.load(open(f))
    out.append(f"| {k} | {m['property']} | {m['needs']} | {det.get(k, '-')} |")
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n".join(out) + "\n")
