#!/usr/bin/env python3
"""Writes MANIFEST.json from run/plan.py and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "run"))
import plan
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        checks.append({"property": i, "quick_cmd": f"python3 run/check.py {i} quick", "thorough_cmd": f"python3 run/check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": plan.TECH.get(i, plan.TECH["*"]),
                       "level": plan.LEVEL.get(i, "model_checking"), "level_note": plan.NOTE.get(i, plan.NOTE["*"])})
    else:
        na.append({"property": i, "reason": plan.NA.get(i, "not built yet")})
import subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = {"guard": "rustc cfg essay_verif", "enable": "RUSTFLAGS='--cfg essay_verif' (set by run/check.py and harness/.cargo/config.toml)",
         "source_commits": [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hook:")]}
m = {"version": 1, "setup_cmd": "python3 run/setup.py", "hooks": hooks, "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed", len(na), "not")
