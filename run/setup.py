#!/usr/bin/env python3
"""Builds the harness once (every check rebuilds what it needs itself)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
for on in (True, False):
    check.HOOKS["on"] = on
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bins"], cwd=os.path.join(check.ROOT, "harness"), env=check.cargo_env())
    if p.returncode == 0:
        break
for t in ("java", "python3", "cargo"):
    subprocess.run(["which", t], check=True)
sys.exit(p.returncode)
