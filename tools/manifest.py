#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of spaces the checker knows."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
have = {l.split()[0] for l in subprocess.check_output([f"{root}/target/debug/mc", "list"], text=True).splitlines()}
checks, missing = [], []
for p in props:
    i = p["id"]
    if i not in have:
        missing.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash /verif/run.sh {i} quick",
        "thorough_cmd": f"bash /verif/run.sh {i} thorough",
        "evidence_file": f"/verif/evidence/{i}.json",
        "technique": "exhaustive enumeration of bounded choice trees executed on the real code and compared with a hand-written reference model",
        "level": "model_checking",
        "level_note": "every path of the stated choice trees is executed on the compiled implementation; nothing is sampled and the code is not abstracted; beyond the bounds nothing is claimed",
    })
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": missing,
     "notes": "One Rust explorer (harness/) enumerates all paths of finite choice trees, runs the public API of /repo on each, and compares with harness/src/model.rs and vif.rs. No hooks are needed in /repo. Known findings: known-findings.txt. Seeded bugs: seeded/."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(missing), "missing")
