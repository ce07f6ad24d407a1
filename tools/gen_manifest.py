#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness/cmd."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
tech = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "harness", "cmd", i, "main.go")):
        t = tech[i]
        race = os.path.exists(os.path.join(here, "harness", "cmd", i, "RACE"))
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {i}",
            evidence_file=f"evidence/{i}.json", technique="runtime monitoring: " + t["technique"] + (" under the Go race detector" if race else ""),
            level="exploration", level_note=t["note"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="All checks drive the public API of /repo from /verif/harness (no hooks in /repo are needed). KNOWN_FINDINGS.txt lists repaired and recorded defects.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
