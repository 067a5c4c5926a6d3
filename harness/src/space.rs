//! Ranges and spaced sequences (spec/SpaceOps.tla).
use crate::fix::fxs;
use crate::json::J;
use crate::reduce::build;
use essay_tensor::init::{arange, geomspace, linspace, logspace, logspace_opt};
use essay_tensor::tensor::Tensor;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn row(e: &J) -> J {
    let op = e.str("op");
    let sc = 2f32.powi(e.int_or("sc", 0) as i32);       // data scaled, results scaled back
    let q = |x: i64| x as f32 / 4. * sc;
    let form = e.int("form");
    let r = catch_unwind(AssertUnwindSafe(|| -> Tensor {
        if op == "arange" {
            let (a, z, st) = (q(e.int("a")), q(e.int("z")), q(e.int("st")));
            return if form == 0 { arange(a, z, st) } else { Tensor::arange(a, z, st) };
        }
        let (ss, es, len, pad) = (e.uss("ssh"), e.uss("esh"), e.us("len"), e.us("pad"));
        let (sv, ev): (Vec<f32>, Vec<f32>) = (e.ints("s").into_iter().map(q).collect(), e.ints("e").into_iter().map(q).collect());
        let base = match e.int("base") { b if b < 0 => 1. / -b as f32, b => b as f32 };
        macro_rules! call { ($s:expr, $z:expr) => { match op {
            "linspace" => linspace($s, $z, len),
            "geomspace" => geomspace($s, $z, len),
            _ => match form { 0 | 1 => logspace($s, $z, len), 2 => logspace_opt($s, $z, len, None), 3 => logspace_opt($s, $z, len, Some(base)),
                _ => logspace_opt($s, $z, len, base) } } } }
        if form % 2 == 0 && pad == 0 && ss.is_empty() && es.is_empty() { return call!(sv[0], ev[0]); }
        if form % 2 == 0 && pad == 0 && ss.len() == 1 && es.len() == 1 { return call!(sv, ev); }
        let (s, z) = (build(&ss, pad, sv), build(&es, 0, ev));
        if form == 1 { match op { "linspace" => s.linspace(&z, len), "geomspace" => s.geomspace(&z, len), _ => s.logspace(&z, len) } }
        else { call!(&s, &z) }
    }));
    let mut o = e.clone();
    o.set("ok", r.is_ok());
    match r {
        Ok(t) => { o.set("sh", t.shape().as_vec()); o.set("r", fxs(t.as_slice().iter().map(|x| *x as f64 / sc as f64))); }
        Err(_) => { o.set("sh", Vec::<i64>::new()); o.set("r", Vec::<i64>::new()); }
    }
    o
}
