#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks below (only ids with a harness binary are claimed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    n = pid.lower()
    src1 = os.path.join(ROOT, "harness", "src", "bin", n + ".rs")
    src2 = os.path.join(ROOT, "harness-oidn", "src", "bin", n + ".rs")
    if pid in T and (os.path.exists(src1) or os.path.exists(src2)):
        checks.append({
            "property": pid,
            "quick_cmd": f"./check.sh {pid}",
            "thorough_cmd": f"./check.sh {pid} thorough",
            "technique": T[pid]["technique"],
            "level": "exploration",
            "level_note": T[pid]["note"],
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are generated-input searches (proptest strategies with shrinking) run against /repo's current tree through a path dependency; no hooks in /repo are needed. check.sh reads VERIF_TIER and VERIF_SEED."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
