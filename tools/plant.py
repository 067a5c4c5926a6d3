#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: plant the bugs a file lists, confirm each, keep it under /verif/seeded.

FILE.py defines P = [dict(id, prop, edits=[(file, old, new)], main, needs, breaks, checks=[...])].
Each is applied to /repo's working tree, built, run against the stable tests, demonstrated (the
demonstration must exit 0 without it), checked with the property's check, and undone.
"""
import json, os, re, runpy, subprocess, sys, time
REPO, SEED = "/repo", "/verif/seeded"
DEMO = r'''#!/bin/bash
# Builds main.rs (beside this script) against the tree in the current directory and runs it:
# exit 0 when the behaviour is right, 1 when it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
essay-tensor = { path = "$repo" }
essay-opt = { path = "$repo/crates/essay-opt" }
num-complex = "0.4"
num-traits = "0.2"
[workspace]
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
[ -f "$d/Cargo.lock" ] || cp /opt/vp/Cargo.lock "$d/Cargo.lock"
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet 2>"$d/err" || { cat "$d/err"; exit 2; }
cd "$d" && timeout 120 "$d/target/debug/demo"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def clean():
    sh(f"git -C {REPO} checkout -- .")

def main():
    spec = runpy.run_path(sys.argv[1])["P"]
    only = sys.argv[2:]
    assert sh(f"git -C {REPO} status --porcelain").stdout == "", "repo not clean"
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for p in spec:
        if only and p["id"] not in only: continue
        clean()
        d = f"{SEED}/{p['id']}"
        os.makedirs(d, exist_ok=True)
        rep = {"id": p["id"], "prop": p["prop"]}
        try:
            for f, old, new in p["edits"]:
                t = open(f"{REPO}/{f}").read()
                n = t.count(old)
                assert n == 1, f"{p['id']}: {n} matches in {f}: {old!r}"
                open(f"{REPO}/{f}", "w").write(t.replace(old, new))
            diff = sh(f"git -C {REPO} diff").stdout
            clean()
            open(f"{d}/patch.diff", "w").write(diff)
            open(f"{d}/main.rs", "w").write(p["main"])
            open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
            json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                      open(f"{d}/meta.json", "w"), indent=1)
            r = sh(f"bash {d}/demo.sh", cwd=REPO); rep["demo_clean"] = r.returncode
            if r.returncode: rep["out_clean"] = (r.stdout + r.stderr)[-600:]
            a = sh(f"git -C {REPO} apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
            b = sh("bash /opt/vp/build.sh"); rep["build"] = b.returncode
            if b.returncode: rep["berr"] = b.stderr[-800:]
            sh("bash /opt/vp/test.sh /opt/vp/out.json")
            o = json.load(open("/opt/vp/out.json"))
            ok = set(o.get("passed", []))
            rep["broken_tests"] = sorted(stable - ok)[:5]
            r = sh(f"bash {d}/demo.sh", cwd=REPO); rep["demo_bug"] = r.returncode
            rep["out_bug"] = (r.stdout + r.stderr)[-200:]
            for k in p.get("checks", [p["prop"]]):
                t0 = time.time()
                c = sh(f"timeout 900 python3 /verif/run/check.py {k} quick")
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                rep[k] = (c.returncode, v[:1], round(time.time() - t0))
                if c.returncode not in (0, 1): rep[k + "_out"] = (c.stdout + c.stderr)[-500:]
        except AssertionError as e:
            print('BAD', e, flush=True); continue
        finally:
            clean()
        good = rep.get("demo_clean") == 0 and rep.get("demo_bug") not in (0, 2, 3) and rep.get("build") == 0 and not rep.get("broken_tests")
        caught = rep.get(p.get("checks", [p["prop"]])[0], (9,))[0] == 1
        print(("OK  " if good else "BAD ") + ("CAUGHT " if caught else "MISSED ") + json.dumps(rep), flush=True)
main()
