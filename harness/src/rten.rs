//! Random tensors (spec/RtenOps.tla).
use crate::fix::fxs;
use crate::json::J;
use crate::machine::mkshape;
use crate::rand::{uni, unbig};
use essay_tensor::init::{random_normal, random_uniform, Normal, Uniform};
use essay_tensor::tensor::Tensor;
use essay_tensor::random::{random_seed, Rand32};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// runs f in a thread that has not drawn yet, after seeding globally with g
fn fresh<R: Send + 'static>(g: u64, f: impl FnOnce() -> R + Send + 'static) -> R {
    random_seed(g);
    std::thread::spawn(f).join().unwrap()
}

pub fn row(e: &J) -> J {
    let g = unbig(&e.ints("g")) as u64;
    let sh = e.uss("sh");
    let n: usize = sh.iter().product();
    let form = e.int("form");
    let meth = e.get("meth") == Some(&J::Bool(true));
    let mut seed: Option<u64> = None;
    let (mut no, mut un) = (Normal::default(), Uniform::default());
    for s in e.arr("steps") {
        let (x, y, sd) = (s.int("x") as f32 / 8., s.int("y") as f32 / 8., unbig(&s.ints("s")) as u64);
        match s.str("k") {
            "a" => { no = Normal::mean(x); un = Uniform::min(x) }
            "b" => { no = Normal::std(x); un = Uniform::max(x) }
            "seed" => { no = Normal::seed(sd); un = Uniform::seed(sd); seed = Some(sd) }
            "some" => { no = Normal::from(Some(sd)); un = Uniform::from(Some(sd)); seed = Some(sd) }
            "default" => { no = Normal::default(); un = Uniform::default() }
            "none" => { no = Normal::from(None); un = Uniform::from(None) }
            "pair" => { no = Normal::from((x, y)); un = Uniform::from((x, y)) }
            "wa" => { no = no.with_mean(x); un = un.with_min(x) }
            "wb" => { no = no.with_std(x); un = un.with_max(x) }
            _ => { no = no.with_seed(sd); un = un.with_seed(sd); seed = Some(sd) }
        }
    }
    let normal = e.str("k") == "normal";
    let call = {
        let sh = sh.clone();
        move || catch_unwind(AssertUnwindSafe(|| {
            let s = mkshape(&sh, form);
            let t: Tensor = match (normal, meth) {
                (true, true) => Tensor::random_normal(s, no),
                (true, false) => random_normal(s, no),
                (false, true) => Tensor::random_uniform(s, un),
                (false, false) => random_uniform(s, un),
            };
            (t.shape().as_vec(), t.as_slice().to_vec())
        })).ok()
    };
    let r = fresh(g, call.clone());
    let r2 = fresh(g, call);
    let gen = move || match seed { Some(s) => Rand32(s), None => Rand32::new() };
    let un: Vec<f32> = fresh(g, move || { let mut r = gen(); (0..n).map(|_| r.next_uniform()).collect() });
    let nv: Vec<f32> = fresh(g, move || { let mut r = gen(); (0..n).map(|_| r.next_normal()).collect() });
    let again = match (&r, &r2) { (Some(a), Some(b)) => a.0 == b.0 && a.1.iter().map(|x| x.to_bits()).eq(b.1.iter().map(|x| x.to_bits())), (None, None) => true, _ => false };
    let out = if r.is_some() { "ok" } else { "panic" };
    let (rsh, el) = r.unwrap_or_default();
    let at = e.uss("at");
    let pick = |v: &[f32]| -> Vec<f32> { at.iter().filter_map(|i| v.get(*i)).copied().collect() };
    let (len, el, un, nv) = (el.len(), pick(&el), pick(&un), pick(&nv));
    e.clone().with("out", out).with("len", J::Int(len as i64)).with("again", again)
        .with("rsh", J::Arr(rsh.iter().map(|x| J::Int(*x as i64)).collect()))
        .with("el", fxs(el.iter().map(|x| *x as f64)))
        .with("uni", J::Arr(un.iter().map(|x| uni(*x as f64, 40)).collect()))
        .with("nor", fxs(nv.iter().map(|x| *x as f64)))
}
