#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the registered checks."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
T = json.load(open(os.path.join(root, "tools", "checks.json")))
checks, na = [], []
for i in ids:
    if i not in T:
        na.append(dict(property=i, reason="check under construction"))
        continue
    t = T[i]
    checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
        evidence_file=f"evidence/{i}.json", technique=t["technique"], level=t.get("level", "exploration"), level_note=t["note"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="Runtime monitoring: every check builds /verif/harness against /repo's working tree and runs the real code under generated, hostile and faulty workloads while monitors judge each execution. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
