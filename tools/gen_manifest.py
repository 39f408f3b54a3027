#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
T = json.load(open(f"{ROOT}/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": T[i]["technique"],
            "level": "model_checking",
            "level_note": T[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface only", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are one Rust program (mc/) linked against /repo's working tree; see DESIGN.md.",
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
