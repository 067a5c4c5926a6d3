//! Windowed spectrum (spec/FftOps.tla).
use crate::fix::fxs;
use crate::json::J;
use crate::reduce::build;
use essay_tensor::signal::rfft_norm;
#[cfg(essay_verif)]
use essay_tensor::signal::{FftArg, FftOpt};
use essay_tensor::tensor::Tensor;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn row(e: &J) -> J {
    let mut sh = e.uss("lead");
    sh.push(e.us("len"));
    let sc = 2f64.powi(e.int_or("sc", 0) as i32);      // data scaled, results scaled back
    let v: Vec<f32> = e.arr("rows").iter().flat_map(|r| r.as_arr().iter().map(|x| x.as_int() as f32 / 8. * sc as f32).collect::<Vec<_>>()).collect();
    let yes = |k: &str| e.get(k) == Some(&J::Bool(true));
    let fl = e.int("fl");
    let r = catch_unwind(AssertUnwindSafe(|| {
        let t: Tensor = build(&sh, e.us("pad"), v);
        let t2 = ((e.us("pad") + sh.len()) % 2 == 0).then(|| t.clone());       // sometimes the operand's storage is shared
        #[cfg(not(essay_verif))]
        let r = { assert!(fl < 0 && !yes("arg")); rfft_norm(&t, ()) };
        #[cfg(essay_verif)]
        let r = match (fl < 0, yes("arg")) {
            (true, false) => rfft_norm(&t, ()),
            (true, true) => rfft_norm(t, FftArg::default()),
            (false, false) if yes("twice") => rfft_norm(t, ().fft_length(fl as usize + 2).fft_length(fl as usize)),
            (false, false) => rfft_norm(&t, ().fft_length(fl as usize)),
            (false, true) => rfft_norm(t, FftArg::default().fft_length(fl as usize)),
        };
        drop(t2);
        (r.shape().as_vec(), r.as_slice().to_vec())
    }));
    match r {
        Err(_) => e.clone().with("out", "panic"),
        Ok((s, d)) => e.clone().with("out", "ok").with("rsh", J::Arr(s.iter().map(|x| J::Int(*x as i64)).collect())).with("el", fxs(d.iter().map(|x| *x as f64 / sc))),
    }
}
