#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "tools", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = T["checks"].get(i)
    if c is None:
        na.append({"property": i, "reason": T["na"].get(i, "check under construction; the family applies (see DESIGN.md)")})
        continue
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                   "technique": c[0], "level": c[1], "level_note": c[2]})
m = {"version": 1, "setup_cmd": "./check --build-all", "checks": checks, "not_applicable": na, "notes": T["notes"]}
if T.get("hooks"):
    m["hooks"] = T["hooks"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
