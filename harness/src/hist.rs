//! Histograms (spec/HistOps.tla).
use crate::fix::fxs;
use crate::json::J;
use crate::reduce::build;
use essay_tensor::stats::{histogram, histogram2d, Hist2Args, HistArgs};
use essay_tensor::tensor::Tensor;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn sh(t: &Tensor) -> J { J::Arr(t.shape().as_vec().iter().map(|x| J::Int(*x as i64)).collect()) }
fn fl(t: &Tensor, sc: f32) -> J { fxs(t.as_slice().iter().map(|x| *x as f64 * sc as f64)) }
fn counts(t: &Tensor) -> J {
    J::Arr(t.as_slice().iter().map(|x| J::Int(if x.fract() == 0. && x.abs() < 16_777_216. { *x as i64 } else { -1 })).collect())
}

pub fn row(e: &J) -> J {
    let sc = 2f32.powi(e.int("sc") as i32);        // data divided by this, edges multiplied by it (both exact)
    let v = |k: &str| -> Vec<f32> { e.ints(k).iter().map(|x| *x as f32 / sc).collect() };
    let rep = e.us("rep").max(1);
    let (x, y) = (v("x").repeat(rep), v("y").repeat(rep));
    let (nb, arg, pad) = (e.us("nb"), e.int("arg"), e.us("pad"));
    let h1 = |t: Tensor, nb: usize| match arg {
        0 => histogram(t, ()),
        1 => histogram(&t, nb),
        _ => histogram(t, HistArgs::new().n_bins(nb)),
    };
    let h2 = |t: Tensor, nb: usize| match arg {
        0 => histogram2d(t, ()),
        1 => histogram2d(&t, nb),
        _ => histogram2d(t, Hist2Args::new().n_bins(nb)),
    };
    let pairs = || x.iter().zip(&y).flat_map(|(a, b)| [*a, *b]).collect::<Vec<_>>();
    let some = |s: &[usize]| build(s, pad, (0..s.iter().product::<usize>().max(1)).map(|i| i as f32).collect());
    let r = catch_unwind(AssertUnwindSafe(|| match e.str("k") {
        "h1" => { let (c, b) = h1(build(&[x.len()], pad, x.clone()), nb); (c, b, None) }
        "h2" => { let (c, b, d) = h2(build(&[x.len(), 2], pad, pairs()), nb); (c, b, Some(d)) }
        "h1bad" => { let (c, b) = h1(some(&e.uss("bsh")), nb); (c, b, None) }
        "h2bad" => { let (c, b, d) = h2(some(&e.uss("bsh")), nb); (c, b, Some(d)) }
        _ => if arg == 0 { let (c, b) = histogram(Tensor::from([1., 2.]), 0); (c, b, None) }
             else if arg == 1 { let (c, b, d) = histogram2d(Tensor::from([[1., 2.]]), 0); (c, b, Some(d)) }
             else { let (c, b) = histogram(Tensor::from([1., 2.]), HistArgs::new().n_bins(0)); (c, b, None) }
    }));
    let o = e.clone();
    match r {
        Err(_) => o.with("out", "panic"),
        Ok((c, b, d)) => {
            let o = o.with("out", "ok").with("csh", sh(&c)).with("c", counts(&c)).with("exsh", sh(&b)).with("ex", fl(&b, sc));
            match d { Some(d) => o.with("eysh", sh(&d)).with("ey", fl(&d, sc)), None => o }
        }
    }
}
