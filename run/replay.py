#!/usr/bin/env python3
"""replay.py FILE: executes the request of a replay file again, on /repo's current tree, and lets the specification decide it.
exit 0: conforms now; 1: still violated; 2: the file has no single request to replay (races of C02, programs of C26: run the check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from check import Ctx, ToolError, Violation, build, execute, err_of, tlc, validate, write_nd


def main():
    d = json.load(open(sys.argv[1]))
    if "request" not in d or "cmd" not in d or d.get("exe", "tharness") != "tharness":
        print("no single request in this file: run the check of " + d["property"])
        sys.exit(2)
    ctx = Ctx(d["property"], d["tier"], d["seed"])
    code = 0
    try:
        build(ctx)
        kind = d.get("kind") or {"machine": "Machine"}.get(d["cmd"], d["cmd"].capitalize())
        rec = execute(ctx, d["cmd"], [d["request"]], env=d.get("env"))
        if kind == "Machine":
            t = ctx.file("trace")
            write_nd(t, rec)
            text, _, _, bad = tlc(ctx, "MachineTrace", "MachineTrace.cfg", {"TRACE": t})
            if bad:
                raise Violation(err_of(text), {"case": rec[0]})
        elif kind == "Frame":
            validate(ctx, "Frame", [{"id": 0, "kept": rec[0]["kept"], "case": d["request"]}], env={"FAMILY": d["family"]})
        else:
            validate(ctx, kind, rec)
        print("conforms")
    except Violation as v:
        print("violated: " + str(v)[:1500])
        code = 1
    except ToolError as t:
        print("TOOL ERROR: " + str(t))
        code = 2
    import shutil
    shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(code)


main()
