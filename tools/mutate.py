#!/usr/bin/env python3
"""Mutation analysis (development tool; run it through ns.sh so that /repo is a private copy).

  mutate.py list OUT.jsonl                 enumerate single-edit mutants of the non-test code
  mutate.py filter IN OUT K N              of those numbered K mod N: which compile and pass the stable tests
  mutate.py check IN OUT K N               run the checks relevant to the file on them until one reports it
"""
import json, os, re, subprocess, sys, time
REPO = "/repo"
RULES = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" < ", " > "), (r" > ", " < "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\.\.=", ".."), (r"(?<![.=])\.\.(?![.=])(?=[\w(])", "..="),
    (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "1"), (r"\b2\b(?!\.)", "3"), (r"\b([3-9])\b(?!\.)", lambda m: str(int(m.group(1)) - 1)), (r"\b([3-9])\b(?!\.)", lambda m: str(int(m.group(1)) + 1)),
    (r"\b(\d\d+)\b(?!\.)", lambda m: str(int(m.group(1)) + 1)),
    (r"\b1\.(?!\d|\.)", "2."), (r"\b0\.(?!\d|\.)", "1."), (r"\b0\.5\b", "0.25"), (r"\b2\.(?!\d|\.)", "3."),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " += "), (r" \+= ", " = "),
    (r"\brows\b", "cols"), (r"\bcols\b", "rows"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.dim\(", ".rdim("), (r"\.rdim\(", ".dim("),
    (r"\.floor\(", ".ceil("), (r"\.cols\(", ".rows("), (r"\.rows\(", ".cols("), (r"\.len\(\)", ".len() + 1"), (r"\.len\(\)", ".len() - 1"),
    (r"\.len\(\)", ".size()"), (r"\.size\(\)", ".len()"), (r"\.size\(\)", ".size() - 1"), (r"\brank\(\)", "size()"), (r"\.rank\(\)", ".rank() - 1"), (r"!(?=[a-z(])(?!=)", ""),
    (r"\ba\b", "b"), (r"\bb\b", "a"), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bn\b", "m"), (r"\bm\b", "n"), (r"\bi\b", "(i + 1)"),
    (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\bexp\b", "exp2"), (r"\bwrapping_add\b", "wrapping_sub"), (r" \^ ", " | "), (r" << ", " >> "), (r" >> ", " << "), (r" \| ", " & "), (r" & ", " | "),
    (r"\bSome\((\w+)\)(?= *=>)", None), (r"\bu16\b", "u8"), (r"\bi16\b", "u16"), (r"\bf64\b", "f32"), (r"\bisize\b", "i32"), (r" as usize", " as u8 as usize"), (r" as u64", " as u32 as u64"), (r" as isize", " as i8 as isize"),
    (r"\.skip\((\w+)\)", ""), (r"\.rev\(\)", ""), (r"\.iter\(\)(?=\.)", ".iter().rev()"), (r"\.abs\(\)", ""), (r"\.sqrt\(\)", ""),
    (r"\boffset\b", "0"), (r"\blen\b", "(len - 1)"), (r"\baxis\b", "0"), (r"\bsize\b", "(size - 1)"),
]
RULES = [r for r in RULES if r[1] is not None]

def files():
    out = []
    for base in ("src", "crates/essay-opt/src"):
        for d, _, fs in os.walk(f"{REPO}/{base}"):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), REPO)
                if f.endswith(".rs") and "test" not in p: out.append(p)
    return sorted(out)

def code_lines(p):
    """(index, line) of the lines that are neither tests, comments, uses nor attributes"""
    L = open(f"{REPO}/{p}").read().split("\n")
    i, depth_skip = 0, None
    res = []
    while i < len(L):
        l = L[i]
        if re.match(r"\s*#\[cfg\((test|essay_verif|any\(test.*)\)\]", l):
            # skip the item
            j = i + 1; d = 0; seen = False
            while j < len(L):
                d += L[j].count("{") - L[j].count("}")
                seen = seen or "{" in L[j]
                if (seen and d <= 0) or (not seen and L[j].rstrip().endswith(";")): break
                j += 1
            i = j + 1; continue
        s = l.strip()
        if s and not s.startswith("//") and not s.startswith("#") and not s.startswith("use ") and not s.startswith("pub use "):
            res.append((i, l))
        i += 1
    return L, res

def enum():
    n = 0
    for p in files():
        L, ls = code_lines(p)
        keep = {i for i, _ in ls}
        seen = set()
        def emit(i, j, new, what):
            nonlocal n
            old = "\n".join(L[i:j])
            if new == old or (i, new) in seen: return
            seen.add((i, new))
            yield {"id": n, "file": p, "line": i + 1, "n": j - i, "old": old, "new": new, "what": what}
            n += 1
        for i, l in ls:
            c = l.split("//")[0]
            for rx, sub in RULES:
                for m in re.finditer(rx, c):
                    if c[:m.start()].count('"') % 2: continue
                    if re.match(r"\s*(pub )?(unsafe )?(fn|impl|struct|enum|trait|mod|type|where)\b", c) and rx not in (r"\bu16\b",): continue
                    new = c[:m.start()] + re.sub(rx, sub, m.group(0)) if False else c[:m.start()] + (sub(m) if callable(sub) else sub) + c[m.end():]
                    yield from emit(i, i + 1, new, f"{rx}")
            s = c.strip()
            if re.match(r"(assert|assert_eq|assert_ne|debug_assert)!", s):
                j = i
                while j < len(L) and not L[j].rstrip().endswith(";"): j += 1
                yield from emit(i, j + 1, "", "delete assertion")
            elif s.endswith(";") and not re.match(r"(let|return|pub|use|type|mod|const|static)\b", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}") and len(s) > 3:
                yield from emit(i, i + 1, "", "delete statement")
            m = re.match(r"(\s*(?:\} else )?if )(.*)( \{\s*)$", c)
            if m and " let " not in c and not m.group(2).startswith("let "):
                yield from emit(i, i + 1, f"{m.group(1)}true || ({m.group(2)}){m.group(3)}", "if true")
                yield from emit(i, i + 1, f"{m.group(1)}false && ({m.group(2)}){m.group(3)}", "if false")

def apply(mu):
    p = f"{REPO}/{mu['file']}"
    L = open(p).read().split("\n")
    assert "\n".join(L[mu["line"] - 1:mu["line"] - 1 + mu["n"]]) == mu["old"], mu
    L[mu["line"] - 1:mu["line"] - 1 + mu["n"]] = [mu["new"]]
    open(p, "w").write("\n".join(L))

def sh(cmd, t=900, env=None):
    try:
        return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, timeout=t, env=env)
    except subprocess.TimeoutExpired:
        subprocess.run("pkill -9 -s 0 nextest", shell=True)
        return None

ENV = ". /opt/vp/env.sh; cd /repo; "
def filt(fin, fout, k, n):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for line in open(fin):
        mu = json.loads(line)
        if mu["id"] % n != k: continue
        sh("git -C /repo checkout -- .")
        apply(mu)
        r = sh(ENV + "timeout 120 cargo build --offline --quiet 2>&1", 150)
        if r is None or r.returncode: continue
        t = sh(ENV + "timeout 100 cargo nextest run --workspace --offline --no-fail-fast --test-threads 3 --tool-config-file vp:/opt/vp/nextest.toml 2>&1 | grep -E '^ +(FAIL|TIMEOUT|SIG|ABORT)|error|Summary'", 130)
        if t is None: continue
        if "Summary" not in t.stdout: continue
        fails = set(re.findall(r"(?:FAIL|TIMEOUT|SIG\w+|ABORT\w*) \[[^\]]*\] +(?:\([^)]*\) +)?(\S+ \S+)", t.stdout))
        bad = [f for f in fails if any(s.endswith(f.split()[-1]) for s in stable)]
        if bad: continue
        open(fout, "a").write(json.dumps(mu) + "\n")
    sh("git -C /repo checkout -- .")

MAP = [
    ("src/tensor/data.rs", "C01 C03 C02 C27"), ("src/tensor/tensor.rs", "C04 C01 C05 C03 C27 C13 C06"), ("src/tensor/slice.rs", "C01 C06 C10"),
    ("src/tensor/axis.rs", "C10 C04 C13 C11"), ("src/tensor/index.rs", "C05 C06"), ("src/tensor/from.rs", "C06 C01"), ("src/tensor/shape.rs", "C07 C04 C05"),
    ("src/tensor/map.rs", "C08 C10 C12 C01 C03 C09 C06"), ("src/tensor/mod.rs", "C05 C06"), ("src/math/reduce.rs", "C11 C12"), ("src/math/normalize.rs", "C12"), ("src/math/", "C09 C08"),
    ("src/array/stack.rs", "C13"), ("src/array/split.rs", "C14"), ("src/array/t", "C15"), ("src/init/matrix.rs", "C16"), ("src/init/vector.rs", "C17"),
    ("src/init/random.rs", "C21"), ("src/init/mod.rs", "C16 C17 C21"), ("src/linalg/", "C18"), ("src/random/", "C19 C20 C21"), ("src/stats/", "C22"), ("src/signal/", "C23"),
    ("src/io/decode", "C24"), ("src/io/", "C25"), ("crates/essay-opt", "C26"), ("src/macros", "C05 C06"),
]
def passes_tests(mu, stable):
    sh("git -C /repo checkout -- .")
    apply(mu)
    r = sh(ENV + "timeout 120 cargo build --offline --quiet 2>&1", 150)
    if r is None or r.returncode: return False
    t = sh(ENV + "timeout 100 cargo nextest run --workspace --offline --no-fail-fast --test-threads 3 --tool-config-file vp:/opt/vp/nextest.toml 2>&1 | grep -E '^ +(FAIL|TIMEOUT|SIG|ABORT)|error|Summary'", 130)
    if t is None or "Summary" not in t.stdout: return False
    fails = set(re.findall(r"(?:FAIL|TIMEOUT|SIG\w+|ABORT\w*) \[[^\]]*\] +(?:\([^)]*\) +)?(\S+ \S+)", t.stdout))
    return not any(s.endswith(f.split()[-1]) for f in fails for s in stable)

def run(fin, fout, k, n):
    """filter and check in a fixed random order, at most two checked per source line"""
    import random
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    L = [json.loads(l) for l in open(fin)]
    random.Random(7).shuffle(L)
    for i, mu in enumerate(L):
        if i % n != k: continue
        seen = [json.loads(l) for l in open(fout)] if os.path.exists(fout) else []
        if any(s["id"] == mu["id"] for s in seen) or sum(s["file"] == mu["file"] and s["line"] == mu["line"] for s in seen) >= 2: continue
        tried = fout + ".tried"
        if os.path.exists(tried) and mu["id"] in {int(x) for x in open(tried)}: continue
        ok = passes_tests(mu, stable)
        if ok: check1(mu, fout)
        open(tried, "a").write(f"{mu['id']}\n")
    sh("git -C /repo checkout -- .")

def check(fin, fout, k, n):
    done = set()
    if os.path.exists(fout):
        done = {json.loads(l)["id"] for l in open(fout)}
    for line in open(fin):
        mu = json.loads(line)
        if mu["id"] % n != k or mu["id"] in done: continue
        check1(mu, fout)
    sh("git -C /repo checkout -- .")

def check1(mu, fout):
        sh("git -C /repo checkout -- .")
        apply(mu)
        ids = next((v for a, v in MAP if mu["file"].startswith(a)), "C01").split()
        mu["res"] = {}
        mu["caught"] = None
        for c in ids:
            t0 = time.time()
            r = sh(f"timeout 900 python3 /verif/run/check.py {c} quick", 950)
            mu["res"][c] = (None if r is None else r.returncode, round(time.time() - t0))
            if r is not None and r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                mu["caught"] = c; break
            if r is None or r.returncode not in (0, 1): mu["err"] = "" if r is None else (r.stdout + r.stderr)[-300:]
        open(fout, "a").write(json.dumps(mu) + "\n")

if __name__ == "__main__":
    a = sys.argv
    if a[1] == "list":
        with open(a[2], "w") as f:
            c = 0
            for m in enum(): f.write(json.dumps(m) + "\n"); c += 1
        print(c)
    else:
        {"filter": filt, "check": check, "run": run}[a[1]](a[2], a[3], int(a[4]), int(a[5]))
