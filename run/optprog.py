"""C26: programs generated from OptGen.tla - one module per option structure - compiled against /repo's essay-opt."""
import os, re, shutil, subprocess
from check import ROOT, SPEC, TARGET, ToolError, Violation, cargo_env, execute, read_emitted, tail, tlc, validate

RUST = {"usize": "usize", "i64": "i64", "String": "String", "bool": "bool", "f64": "f64", "u64": "u64", "Vec": "Vec<i64>",
        "Enum": "super::Enum", "u8": "u8", "Path": "std::path::PathBuf"}
# the argument a caller writes: for optional fields something convertible, for plain ones the type itself
PLAIN = {"usize": "v as usize", "i64": "v", "String": "super::word(v)", "bool": "v == 1", "f64": "v as f64", "u64": "v as u64",
         "Vec": "vec![v, v + 1]", "Enum": "super::Enum(v)", "u8": "v as u8", "Path": "super::word(v).into()"}
INTO = {"String": "super::word(v).as_str()", "f64": "v as f32", "u64": "v as u32", "Vec": "[v, v + 1]", "Enum": "v",
        "i64": "v as i32", "Path": "super::word(v).as_str()"}
BACK = {"usize": "*x as i64", "i64": "*x", "String": "super::num(x)", "bool": "*x as i64", "f64": "*x as i64", "u64": "*x as i64",
        "Vec": "if x.is_empty() { 0 } else if x.len() == 2 && x[1] == x[0] + 1 { x[0] } else { -9 }", "Enum": "x.0", "u8": "*x as i64",
        "Path": "super::num(x.to_str().unwrap())"}
HEAD = """#![allow(warnings)]
#[path = "%s/harness/src/json.rs"]
mod json;
use json::J;
use std::io::{BufRead, Write};
#[derive(Default, Clone, PartialEq, Debug)]
pub struct Enum(i64);
impl From<i64> for Enum { fn from(v: i64) -> Self { Enum(v) } }
fn word(v: i64) -> String { if v == 0 { String::new() } else { format!("w{}", v) } }
fn num(s: &str) -> i64 { if s.is_empty() { 0 } else { s[1..].parse().unwrap_or(-9) } }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap());
    let mut out = std::fs::File::create(&a[3]).unwrap();
    for (n, line) in input.lines().enumerate() {
        std::fs::write(format!("{}.pos", a[3]), format!("{}", n + 1)).unwrap();
        let j = J::parse(&line.unwrap());
        let ops: Vec<(usize, i64)> = j.arr("ops").iter().map(|o| (o.us("f"), o.int("v"))).collect();
        let nil = j.get("nil") == Some(&J::Bool(true));
        let r = match j.int("s") {
%s            _ => unreachable!(),
        };
        writeln!(out, "{}", j.with("r", J::Arr(r.into_iter().map(J::Int).collect())).text()).unwrap();
    }
}
"""


def module(r):
    fs, vis, style = r["fs"], ["", "pub ", "pub(crate) "][r["vis"]], r["style"]
    custom = r["custom"] and fs
    der = [] if custom else ["#[derive(Default)]"]
    if style == 2:
        der.append("#[derive(Clone, Debug, PartialEq)]")
    attrs = ["#[derive_opt(TheOpt)]"] + der
    if style == 1:
        attrs = ["/// options"] + der + ["#[derive_opt(TheOpt)]"]
    ty = lambda f: ("Option<%s>" if f["opt"] else "%s") % RUST[f["ty"]]
    o = ["mod s%d {" % r["id"], "use essay_opt::derive_opt;"] + attrs
    if not fs and style == 0:
        o.append("%sstruct TheArg;" % vis)
    elif not fs and style == 1:
        o.append("%sstruct TheArg();" % vis)
    else:
        o.append("%sstruct TheArg { %s }" % (vis, " ".join("%s%s%s: %s," % ("/// doc\n" if style == 1 else "", ["", "pub "][i % 2], f["name"], ty(f)) for i, f in enumerate(fs))))
    if custom:
        val = lambda f: (("None" if f["d"] < 0 else "Some({ let v: i64 = %d; %s })" % (f["d"], PLAIN[f["ty"]])) if f["opt"]
                         else "{ let v: i64 = %d; %s }" % (f["d"], PLAIN[f["ty"]]))
        o.append("impl Default for TheArg { fn default() -> Self { TheArg { %s } } }" % " ".join("%s: %s," % (f["name"], val(f)) for f in fs))
    arg = lambda f: INTO.get(f["ty"], PLAIN[f["ty"]]) if f["opt"] else PLAIN[f["ty"]]
    arms = lambda on: "".join("%d => %s.%s(%s), " % (i + 1, on, f["name"], arg(f)) for i, f in enumerate(fs))
    o.append("fn take(o: impl TheOpt) -> TheArg { o.into_arg() }")
    o.append("pub fn run(nil: bool, ops: &[(usize, i64)]) -> Vec<i64> {")
    o.append("let mut it = ops.iter();")
    o.append("let mut a: TheArg = if nil { match it.next() { None => return read(take(())), Some(&(f, v)) => match f { %s _ => take(()) } } } else { TheArg::default() };" % arms("()"))
    o.append("for &(f, v) in it { a = match f { %s _ => a.into_arg() }; }" % arms("a"))
    o.append("read(take(a)) }")
    back = lambda f: ("match &a.%s { None => -1, Some(x) => %s }" if f["opt"] else "{ let x = &a.%s; %s }") % (f["name"], BACK[f["ty"]])
    o.append("fn read(a: TheArg) -> Vec<i64> { vec![%s] }" % ", ".join(back(f) for f in fs))
    o.append("}")
    return "\n".join(o)


def optprog(ctx):
    text, gen, dis, bad = tlc(ctx, "OptGen", "OptGen.cfg", {})
    rows = read_emitted(text)
    if bad or not rows:
        raise ToolError("OptGen:\n" + tail(text))
    d = ctx.file("optprog")
    os.makedirs(d + "/src")
    shutil.copy(ROOT + "/harness/Cargo.lock", d + "/Cargo.lock")
    with open(d + "/Cargo.toml", "w") as f:
        f.write('[package]\nname = "optprog"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nessay-opt = { path = "/repo/crates/essay-opt" }\n[profile.dev]\ndebug = false\n')
    with open(d + "/src/main.rs", "w") as f:
        f.write(HEAD % (ROOT, "".join("            %d => s%d::run(nil, &ops),\n" % (r["id"], r["id"]) for r in rows)))
        f.write("\n".join(module(r) for r in rows) + "\n")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=cargo_env(), capture_output=True, text=True)
    if p.returncode != 0:
        m = re.search(r"^error[^\n]*\n\s+--> src/main.rs:(\d+)", p.stderr, re.M)
        if not m:
            raise ToolError("the generated program does not build:\n" + p.stderr[-3000:])
        src = open(d + "/src/main.rs").read().split("\n")
        raise Violation("option structures that are valid are not processed into compiling code: " + m.group(0)[:200],
                        {"case": {"line": src[int(m.group(1)) - 1]}, "stderr": p.stderr[:4000]})
    ctx.log(f"program with {len(rows)} option structures built")
    req = [{"id": k, "s": r["id"], "fs": r["fs"], "nil": h["nil"], "ops": h["ops"]} for r in rows for k, h in enumerate(r["hs"])]
    rec = execute(ctx, "opt", req, exe=os.path.join(TARGET, "debug", "optprog"))
    validate(ctx, "Opt", rec)
    ctx.cov["states"] += dis
    ctx.cov["transitions"] += gen
    ctx.cov["stages"].append({"programs": len(rows), "setter_histories": len(req), "fields": sum(len(r["fs"]) for r in rows)})
    ctx.cov["samples"].append(req[len(req) // 3])
    for x in os.listdir(os.path.join(TARGET, "debug", "deps")):
        if x.startswith("optprog-"):
            os.remove(os.path.join(TARGET, "debug", "deps", x))
