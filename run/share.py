"""C02: tensors shared between threads."""
import os, subprocess
from check import ROOT, TARGET, ToolError, Violation, cargo_env, design, execute, read_emitted, tail, tlc, validate, write_nd


def share(ctx):
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", "tshare"], cwd=os.path.join(ROOT, "harness"),
                       env=cargo_env(), capture_output=True, text=True)
    if p.returncode != 0:
        if "cannot be sent between threads" in p.stderr or "cannot be shared between threads" in p.stderr:
            raise Violation("tensors can no longer be passed between threads", {"stderr": p.stderr[-3000:]})
        raise ToolError("tshare does not build:\n" + p.stderr[-3000:])
    design(ctx, "ShareRc", "ShareRc.cfg")
    text, gen, dis, bad = tlc(ctx, "ShareGen", "ShareGen.cfg", {})
    rows = read_emitted(text)
    if bad or not rows:
        raise ToolError("ShareGen:\n" + tail(text))
    exe = os.path.join(TARGET, "debug", "tshare")
    rec = execute(ctx, "share", [{"id": 0, "k": "bounds", "len": [], "ini": [], "steps": []}], exe=exe)
    # one process at a time for the races: they need the cores for themselves
    rec += execute(ctx, "share", [r for r in rows if r["k"] == "sched"], exe=exe)
    rec += execute(ctx, "share", [r for r in rows if r["k"] == "free"], exe=exe, shards=2, timeout=600)
    ctx.log(f"executed {len(rec)} histories")
    validate(ctx, "Share", rec)
    ctx.cov["states"] += dis
    ctx.cov["transitions"] += gen
    ctx.cov["stages"].append({"lockstep_histories": sum(r["k"] == "sched" for r in rows), "free_races": sum(r["rep"] for r in rows if r["k"] == "free")})
    ctx.cov["samples"].append({k: v for k, v in rows[len(rows) // 3].items() if k != "ini"})
