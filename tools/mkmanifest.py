#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(f"{V}/checks.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    c = conf["properties"].get(i)
    if not c:
        na.append({"property": i, "reason": conf["not_applicable"].get(i, "no check built yet")})
        continue
    tech = "contract-based deductive verification (Verus) of the functions extracted from /repo/src on every run"
    if c["level"] != "proof":
        tech = "contracts proved by Verus on part of the functions; the rest decided by bounded executable contracts"
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": c.get("technique", tech), "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every function under contract is read from /repo/src by the extractor vx on each run, and the executable contracts use the public API only. Changes to /repo are fix: commits (known-findings.json)."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
