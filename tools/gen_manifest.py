#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    c = checks.CHECKS.get(i)
    if not c:
        out["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "check under construction")})
        continue
    out["checks"].append({
        "property": i,
        "quick_cmd": "python3 run.py %s quick" % i,
        "thorough_cmd": "python3 run.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "exhaustive enumeration of a bounded input/history space on the real code against a reference model"),
        "level": "model_checking",
        "level_note": "Bounded-exhaustive on the real code, rebuilt from /repo at every run. Explored: " + c["bounds"]["quick"] + ". Assumes: " + ("; ".join(c.get("assumptions", [])) or "nothing further") + "."})
out["notes"] = "All checks run the real sources compiled from /repo's working tree; no hooks in /repo are needed. See DESIGN.md."
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
