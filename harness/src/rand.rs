//! Seeded generators (spec/RandOps.tla).
use crate::fix::fx;
use crate::json::J;
use crate::shape::big;
use essay_tensor::random::{Rand32, Rand64};

pub fn unbig(v: &[i64]) -> u128 { v.iter().rev().fold(0u128, |a, x| (a << 12) | *x as u128) }
fn ok(m: u128) -> J { J::obj().with("m", big(m)).with("n", false).with("b", "") }
pub fn uni(x: f64, bits: i32) -> J {
    if !(0. ..=2.).contains(&x) { return J::obj().with("m", Vec::<i64>::new()).with("n", false).with("b", "out of range"); }
    ok((x * 2f64.powi(bits)) as u128)
}

pub fn row(e: &J) -> J {
    let seed = unbig(&e.ints("seed"));
    let text = if e.get("text") == Some(&J::Bool(true)) {
        Some(String::from_utf8(e.ints("bytes").iter().map(|x| *x as u8).collect()).unwrap())
    } else { None };
    let mut ev = vec![];
    macro_rules! run { ($g:expr, $w:expr) => {{
        let mut g = $g;
        for op in e.arr("ops") {
            let J::Str(op) = op else { unreachable!() };
            ev.push(match op.as_str() {
                "next" => ok(g.next() as u128),
                "skip" => { for _ in 0..e.int("skip") { g.next(); } ok(g.next() as u128) }
                "uniform" => uni(g.next_uniform() as f64, $w + 8),
                _ => fx(g.next_normal() as f64),
            });
        }
    }} }
    if e.int("w") == 32 { run!(match &text { Some(t) => Rand32::from(t.as_str()), None => Rand32(seed as u64) }, 32) }
    else { run!(match &text { Some(t) => Rand64::from(t.as_str()), None => Rand64(seed) }, 64) }
    e.clone().with("ev", J::Arr(ev))
}
