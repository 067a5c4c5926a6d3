#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> [quick|thorough]

generate (TLC) -> execute (harness, real library) -> validate (TLC) -> evidence
exit 0: held; 1: VIOLATION line printed; 2: the machinery itself failed.
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HARNESS = os.path.join(TARGET, "debug", "tharness")


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, detail):
        super().__init__(msg)
        self.detail = detail


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", f"{pid}-{os.getpid()}")
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "requests_executed": 0, "samples": [], "stages": []}
        self.assume = []
        self.known = []

    def deep(self):
        return self.tier == "thorough"

    def file(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)


def fresh():
    """cargo decides by file times whether to rebuild; sources whose contents changed under an old time must be rebuilt too."""
    h = hashlib.sha256()
    for top in ("/repo", os.path.join(ROOT, "harness")):
        for d, ds, fs in sorted(os.walk(top)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    stamp = os.path.join(TARGET, "sources.sha256")
    try:
        same = open(stamp).read() == h.hexdigest()
    except OSError:
        same = False
    if not same:
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        for n in os.listdir(fp) if os.path.isdir(fp) else []:
            if n.startswith(("essay", "tharness")):
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        os.makedirs(TARGET, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(h.hexdigest())


HOOKS = {"on": True}


def cargo_env():
    fresh()
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.decode(errors="replace").split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    except OSError:
        pass
    env.update(CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true")
    env["RUSTFLAGS"] = "--cfg essay_verif" if HOOKS["on"] else "--cfg essay_public_only"
    return env


def build(ctx):
    """Builds the harness, and with it the library, from /repo's working tree."""
    cmd = ["cargo", "build", "--offline", "--quiet", "--bin", "tharness"]
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=cargo_env(), capture_output=True, text=True)
    if p.returncode != 0:
        # an edit of /repo may have made the hooks stale while the library itself is fine: do without them
        HOOKS["on"] = False
        q = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=cargo_env(), capture_output=True, text=True)
        if q.returncode != 0:
            raise ToolError("harness does not build:\n" + p.stderr[-4000:])
        ctx.log("the hooks do not compile; only public entry points are exercised")
        ctx.cov["stages"].append({"hooks": "off"})
    ctx.log("harness built")


def reachable(name, r):
    """Without the hooks some requests cannot be expressed through the public names."""
    if HOOKS["on"]:
        return True
    if name == "Mat":
        return r["mode"] == "N"
    if name == "Fft":
        return r["fl"] < 0 and not r["arg"]
    return True


def tlc(ctx, module, cfg, env, workers=8, extra=(), timeout=3000, heap="6g"):
    """Runs TLC; returns (text, states generated, distinct states, violated)."""
    md = ctx.file("md-" + module + "-" + str(time.time_ns()))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    e["VERIF_SEED"] = str(ctx.seed)
    e["TIER"] = ctx.tier
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=ctx.work)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} exceeded {timeout} s")
    shutil.rmtree(md, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    gen, dis = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    violated = "is violated" in p.stdout
    if p.returncode != 0 and not violated and module.endswith("Trace") and re.search(r"The exception was a tlc2\.tool\.EvalException|Attempted to |In evaluation, the identifier", p.stdout) \
            and not re.search(r"StackOverflow|OutOfMemory", p.stdout):
        # a recorded value outside everything the specification describes
        m = re.search(r"(Attempted to .{0,300})", p.stdout, re.S)
        return p.stdout + '\n/\\ err = "the recorded behaviour lies outside the specification: %s"\n' % (m.group(1).replace('"', "'").replace("\n", " ") if m else ""), gen, dis, True
    if p.returncode != 0 and not violated:
        raise ToolError(f"TLC on {module} failed ({p.returncode}):\n" + tail(p.stdout))
    return p.stdout, gen, dis, violated


def tail(s, n=60):
    ls = [l for l in s.splitlines() if not l.startswith(("Semantic", '"@@', "Linting", "Parsing", "Computed"))]
    return "\n".join(ls[-n:])


def read_emitted(text):
    """Rows printed by Emit.tla: "@@<json>" as a quoted string; sorted by id."""
    out = []
    for line in text.splitlines():
        if line.startswith('"@@'):
            out.append(json.loads(json.loads(line)[2:]))
    out.sort(key=lambda r: r["id"])
    return out


def write_nd(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def read_nd(path):
    return [json.loads(l) for l in open(path) if l.strip()]


def limit():
    # a runaway library call must not exhaust the machine
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_one(cmd, req, out, timeout, env=None, exe=None):
    e = dict(os.environ)
    e["MALLOC_PERTURB_"] = "165"
    if env:
        e.update(env)
    p = subprocess.Popen([exe or HARNESS, cmd, req, out], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=limit)
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err.decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return "timeout", ""


def execute(ctx, cmd, rows, timeout=240, shards=8, env=None, exe=None):
    """Executes request rows in the harness (sharded); returns the recorded rows.
    A crash or hang of the library is itself a violation."""
    n = max(1, min(shards, (len(rows) + 199) // 200))
    tag = str(time.time_ns())
    parts = [rows[i::n] for i in range(n)]
    files = []
    for i, p in enumerate(parts):
        files.append((ctx.file(f"req-{cmd}-{tag}-{i}"), ctx.file(f"out-{cmd}-{tag}-{i}")))
        write_nd(files[-1][0], p)
    with ThreadPoolExecutor(n) as ex:
        rcs = list(ex.map(lambda f: run_one(cmd, f[0], f[1], timeout, env, exe), files))
    for (rc, err), (_, o), part in zip(rcs, files, parts):
        if rc != 0:
            try:
                k = int(open(o + ".pos").read().split()[0])
                bad = part[k - 1]
            except (OSError, ValueError, IndexError):
                raise ToolError(f"harness failed before the first request: {rc} {err}")
            what = "the library did not return" if rc == "timeout" else f"the process died (code {rc})"
            raise Violation(what + " while executing a request", {"request": bad, "stderr": err, "cmd": cmd, "env": env or {}, "exe": os.path.basename(exe or HARNESS)})
    got = [read_nd(o) for _, o in files]
    out = [None] * len(rows)
    for i, g in enumerate(got):
        if len(g) != len(parts[i]):
            raise ToolError("harness lost rows")
        out[i::n] = g
    return out


def err_of(text):
    m = re.findall(r'/\\ err = "((?:[^"\\]|\\.)*)"', text)
    m = [x for x in m if x]
    return m[-1].replace('\\"', '"') if m else ""


def var_of(text, name):
    m = re.findall(r"/\\ %s = (-?\d+)" % name, text)
    return int(m[-1]) if m else None


# ------------------------------------------------------------------ machine

def machine(ctx, focus=None, cstride=1, nhist=400, nstep=14):
    focus = focus or ctx.pid
    text, gen, dis, bad = tlc(ctx, "MachineGen", "MachineGen.cfg",
                              {"FOCUS": focus, "NHIST": nhist, "NSTEP": nstep, "CSTRIDE": cstride})
    if bad:
        raise ToolError("the machine model violates its own invariants:\n" + tail(text))
    rows = read_emitted(text)
    if not rows:
        raise ToolError("nothing generated")
    ctx.log(f"{focus}: generated {len(rows)} histories ({gen} model states)")
    rec = execute(ctx, "machine", rows)
    nev = sum(len(r["ev"]) for r in rec)
    ctx.log(f"executed {nev} requests")
    trace = ctx.file(f"trace-{focus}.ndjson")
    # several TLC runs in parallel when there is much to validate: JSON parsing is single-threaded
    chunks = [rec] if nev < 60000 else [rec[i::4] for i in range(4)]
    for i, ch in enumerate(chunks):
        write_nd(trace + str(i), ch)
    w = 8 if len(chunks) == 1 else 2

    def val(i):
        return tlc(ctx, "MachineTrace", "MachineTrace.cfg", {"TRACE": trace + str(i)}, workers=w)
    with ThreadPoolExecutor(len(chunks)) as ex:
        res = list(ex.map(val, range(len(chunks))))
    for i, (text, g2, d2, bad) in enumerate(res):
        if bad:
            h, l = var_of(text, "h"), var_of(text, "l")
            hist = chunks[i][h - 1]
            raise Violation(err_of(text) or "machine invariant", {
                "kind": "Machine", "cmd": "machine", "request": rows[(h - 1) * len(chunks) + i], "history": hist, "failing_event": hist["ev"][l - 1] if l else None, "event": l})
        ctx.cov["states"] += d2
        ctx.cov["transitions"] += g2
    ctx.cov["states"] += dis
    ctx.cov["transitions"] += gen
    ctx.cov["traces_validated_against_impl"] += len(rec)
    ctx.cov["requests_executed"] += nev
    ops = {}
    outs = {}
    for r in rec:
        for e in r["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            outs[e["out"]] = outs.get(e["out"], 0) + 1
    ctx.cov["stages"].append({"machine": focus, "cases": sum(r["id"] <= 10000000 for r in rows),
                              "random_histories": sum(r["id"] > 10000000 for r in rows), "requests_by_operation": ops,
                              "outcomes": outs})
    ctx.cov["samples"].append(rows[len(rows) // 3])
    ctx.cov["samples"].append({"id": rows[-1]["id"], "ty": rows[-1]["ty"], "ops": [e["op"] for e in rows[-1]["ev"]]})
    ctx.log(f"validated {nev} events")


def design(ctx, module, cfg, env=None, workers=8, timeout=3000):
    """Model-checks a specification by itself."""
    text, gen, dis, bad = tlc(ctx, module, cfg, env or {}, workers=workers, timeout=timeout)
    if bad:
        raise ToolError(f"{module} violates its own properties:\n" + tail(text))
    ctx.cov["states"] += dis
    ctx.cov["transitions"] += gen
    ctx.cov["stages"].append({"design": module, "cfg": cfg, "states": dis})
    ctx.log(f"{module}/{cfg}: {dis} states")


# ------------------------------------------------------------------ cases

def cases(ctx, name, gen_env=None, timeout=240, known=None, exec_env=None, harness=None, confirm=0):
    """Stateless or small-history cases: <name>Gen.tla emits cases, the harness subcommand <name> runs them,
    <name>Trace.tla decides each recorded case (invariant Conform over all of them)."""
    env = {"FOCUS": ctx.pid}
    env.update(gen_env or {})
    text, gen, dis, bad = tlc(ctx, name + "Gen", name + "Gen.cfg", env)
    if bad:
        raise ToolError(f"{name}Gen violates its own invariants:\n" + tail(text))
    rows = [r for r in read_emitted(text) if reachable(name, r)]
    if not rows:
        raise ToolError("nothing generated")
    ctx.log(f"{name}: generated {len(rows)} cases")
    rec = execute(ctx, harness or name.lower(), rows, timeout=timeout, env=exec_env)
    ctx.log("executed")
    validate(ctx, name, rec, known, request=lambda h: {"cmd": harness or name.lower(), "request": rows[h], "env": exec_env or {}},
             again=(lambda h: execute(ctx, harness or name.lower(), [rows[h]] * confirm, timeout=timeout, env=exec_env)) if confirm else None)
    ctx.cov["states"] += dis
    ctx.cov["transitions"] += gen
    kinds = {}
    for r in rows:
        k = r.get("k", r.get("op", "case"))
        kinds[k] = kinds.get(k, 0) + 1
    ctx.cov["stages"].append({"cases": name, "n": len(rows), "by_kind": kinds})
    ctx.cov["samples"].append(rows[len(rows) // 3])
    return rec


def frame(ctx, name, timeout=240):
    """The cases of <name>Gen.tla run while tensors sharing the operands' storage are kept; FrameTrace.tla decides that none changed."""
    text, gen, dis, bad = tlc(ctx, name + "Gen", name + "Gen.cfg", {"FOCUS": ctx.pid})
    if bad:
        raise ToolError(f"{name}Gen violates its own invariants:\n" + tail(text))
    rows = [r for r in read_emitted(text) if reachable(name, r)]
    if not rows:
        raise ToolError("nothing generated")
    rec = execute(ctx, name.lower(), rows, timeout=timeout, env={"WATCH": "1"})
    validate(ctx, "Frame", [{"id": r.get("id"), "kept": r["kept"], "case": {k: v for k, v in q.items()}} for q, r in zip(rows, rec)], env={"FAMILY": name},
             request=lambda h: {"cmd": name.lower(), "request": rows[h], "env": {"WATCH": "1"}, "family": name})
    ctx.cov["states"] += dis
    ctx.cov["transitions"] += gen
    ctx.cov["stages"].append({"frame": name, "n": len(rows), "kept": sum(len(r["kept"]) for r in rec)})


def validate(ctx, name, rec, known=None, env=None, request=None, again=None):
    """again: re-executes a case whose course depends on the operating system; a violation counts when it shows again."""
    trace = ctx.file(f"trace-{name}.ndjson")
    write_nd(trace, rec)
    text, gen, dis, bad = tlc(ctx, name + "Trace", name + "Trace.cfg", {"TRACE": trace, **(env or {})})
    if bad:
        h = var_of(text, "h")
        if again and h:
            more = again(h - 1)
            write_nd(trace, more)
            if not tlc(ctx, name + "Trace", name + "Trace.cfg", {"TRACE": trace, **(env or {})})[3]:
                ctx.cov["stages"].append({"not_reproduced": rec[h - 1], "times": len(more), "message": err_of(text)})
                ctx.log("a deviation did not show again in", len(more), "executions of the same case; case replaced by its repetition")
                rec[h - 1] = more[0]
                return validate(ctx, name, rec, known, env, request, again)
        raise Violation(err_of(text), {"kind": name, "case": rec[h - 1] if h else None, **(request(h - 1) if h and request else {})})
    ctx.cov["states"] += dis
    ctx.cov["transitions"] += gen
    ctx.cov["traces_validated_against_impl"] += len(rec)
    ctx.cov["requests_executed"] += sum(len(r["ev"]) if isinstance(r.get("ev"), list) else 1 for r in rec)
    if known:
        known(ctx, text, rec)
    ctx.log(f"validated {len(rec)} cases")


# ------------------------------------------------------------------ main

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.path.insert(0, os.path.join(ROOT, "run"))
    import plan
    ctx = Ctx(pid, tier, seed)
    level = plan.LEVEL.get(pid, "model_checking")
    code = 0
    violations = 0
    try:
        build(ctx)
        plan.PLAN[pid](ctx)
        for k in ctx.known:
            print(f"KNOWN-FINDING: property={pid} {k}")
    except Violation as v:
        violations = 1
        rd = os.path.join(ROOT, "work", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{pid}-{int(time.time())}-{os.getpid()}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "message": str(v), "seed": seed, "tier": tier, **v.detail}, f, indent=1)
        print("  " + str(v)[:1500])
        d = v.detail.get("failing_event") or v.detail.get("case") or v.detail.get("request")
        print("  " + json.dumps(d)[:1500])
        print(f"VIOLATION property={pid} replay={path}")
        code = 1
    except ToolError as t:
        print("TOOL ERROR: " + str(t))
        code = 2
    if code != 2:
        ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": ctx.cov,
              "assumptions": plan.ASSUME.get(pid, plan.ASSUME["*"]) + ctx.assume, "wall_s": round(time.time() - ctx.t0, 2),
              "violations": violations}
        if not ctx.cov["samples"]:
            ctx.cov["samples"] = ["none: stopped at the violation"]
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if not os.environ.get("KEEP_WORK"):
        shutil.rmtree(ctx.work, ignore_errors=True)
    ctx.log("exit", code)
    sys.exit(code)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    main()
