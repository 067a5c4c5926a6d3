//! Executes shape histories (spec/ShapeOps.tla).
use crate::json::J;
use crate::machine::mkshape;
use essay_tensor::tensor::{Axis, Shape};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// little-endian 12-bit limbs
pub fn big(mut x: u128) -> J {
    let mut v: Vec<i64> = vec![];
    while x > 0 { v.push((x & 4095) as i64); x >>= 12; }
    v.into()
}
fn b(x: usize) -> J { big(x as u128) }

fn ask(s: &Shape) -> J {
    let r = s.rank();
    let dims: Vec<usize> = (0..r).map(|i| s.dim(i)).collect();
    let rdims: Vec<usize> = (0..r).map(|i| s.rdim(i)).collect();
    let mut sub = vec![];
    let mut rsub = vec![];
    for i in 0..=r { for j in i..=r { sub.push(b(s.sublen(i, j))); rsub.push(b(s.rsublen(i, j))); } }
    let direct = mkshape(&s.as_vec(), 0);
    let dbg = format!("{:?}", s);
    let inner = dbg.strip_prefix("Shape[").and_then(|x| x.strip_suffix("]")).unwrap_or("?");
    let dbg: Vec<i64> = inner.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap_or(-1)).collect();
    J::obj().with("vec", s.as_vec()).with("rank", r).with("size", b(s.size())).with("dims", dims).with("rdims", rdims)
        .with("idims", (0..2 * r).map(|k| s.idim(k as isize - r as isize) as i64).collect::<Vec<_>>())
        .with("len", if r > 0 { s.len() as i64 } else { -1 }).with("cols", s.cols()).with("rows", s.rows())
        .with("batch", (0..r + 2).map(|k| b(s.batch_len(k))).collect::<Vec<_>>())
        .with("sub", sub).with("rsub", rsub)
        .with("same", *s == direct && direct == *s && !(*s != direct)).with("debug", dbg)
}

fn axis(e: &J) -> Axis { if e.str("ax") == "none" { Axis::from(None) } else { Axis::axis(e.int("i") as isize) } }

fn edit(e: &J, s: &Shape) -> Shape {
    let n = || (e.int("n") as usize) + ((e.int_or("hi", 0) as usize) << 32);
    let i = || e.us("i");
    let o = s.clone();
    match e.str("op") {
        "set" => mkshape(&e.uss("s"), e.int_or("form", 0)),
        "vector" => Shape::vector(n()),
        "with_dim" => o.with_dim(i(), n()),
        "replace" => o.replace(i(), n()),
        "rreplace" => o.rreplace(i(), n()),
        "with_cols" => o.with_cols(n()),
        "with_rows" => o.with_rows(n()),
        "push" => s.push(n()),
        "append" => s.append(&e.uss("s")),
        "expand_dims" => s.expand_dims(e.int("i") as isize),
        "squeeze" => s.squeeze(None),
        "squeeze_axis" => s.squeeze(e.int("i") as isize),
        "pop" => s.pop(),
        "remove" => o.remove(i()),
        "rremove" => o.rremove(i()),
        "reduce" => o.reduce(),
        "insert" => o.insert(i(), n()),
        "rinsert" => o.rinsert(i(), n()),
        "broadcast_to" => s.broadcast_to(&mkshape(&e.uss("s"), 0)),
        x => unreachable!("{}", x),
    }
}

fn question(e: &J, s: &Shape) -> Option<J> {
    let t = || mkshape(&e.uss("s"), 0);
    let tup = |(s, a, l, c): (Shape, usize, usize, usize)| -> J { vec![J::from(s.as_vec()), b(a), b(l), b(c)].into() };
    Some(match e.str("op") {
        "broadcast" => b(s.broadcast(&t())),
        "check_broadcast" => { s.check_broadcast(&t()); J::Arr(vec![]) }
        "broadcast_min" => b(s.broadcast_min(e.us("i"), &t(), e.us("n"))),
        "axis_from_rank" => b(Axis::axis(e.int("i") as isize).axis_from_rank(s.rank())),
        "axis_reduce" => tup(axis(e).reduce(s)),
        "axis_reduce_row" => tup(axis(e).reduce_row(s, e.us("n"))),
        _ => return None,
    })
}

pub fn history(h: &J) -> J {
    let mut s = Shape::scalar();
    let mut out = vec![];
    for e in h.arr("ev") {
        let mut ev = e.clone();
        match catch_unwind(AssertUnwindSafe(|| question(e, &s))) {
            Err(_) => ev.set("ok", false),
            Ok(Some(v)) => { ev.set("ok", true); ev.set("val", v); }
            Ok(None) => {
                match catch_unwind(AssertUnwindSafe(|| edit(e, &s))) {
                    Ok(t) => { s = t; ev.set("ok", true); }
                    Err(_) => ev.set("ok", false),
                }
                if !e.has("quiet") { ev.set("obs", catch_unwind(AssertUnwindSafe(|| ask(&s))).unwrap_or(J::obj().with("panicked", true))); }
            }
        }
        out.push(ev);
    }
    let mut o = h.clone();
    o.set("ev", J::Arr(out));
    o
}
