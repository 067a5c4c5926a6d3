//! WAV decoding (spec/WavOps.tla).
use crate::json::J;
use crate::shape::big;
use essay_tensor::io::decode_wav;
use essay_tensor::tensor::Tensor;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn row(e: &J) -> J {
    let b: Vec<u8> = e.ints("b").iter().map(|x| *x as u8).collect();
    let pad = e.us("pad");
    let r = catch_unwind(AssertUnwindSafe(|| {
        let t: Tensor<u8> = if pad > 0 {
            // a view into a larger buffer
            let mut v = vec![0x52u8; pad];
            v.extend(&b);
            v.extend([1, 2, 3, 4, 5]);
            let t = Tensor::from(v);
            crate::watch::add(&t);
            t.subslice_flat(pad, b.len(), [b.len()])
        } else { Tensor::from(b.clone()) };
        crate::watch::add(&t);
        let (a, rate) = if pad % 2 == 0 { decode_wav(&t) } else { decode_wav(t) };
        (a.shape().as_vec(), a.as_slice().to_vec(), rate.shape().as_vec(), rate.as_slice().to_vec())
    }));
    match r {
        Err(_) => e.clone().with("out", "panic"),
        Ok((s, d, _, rt)) => e.clone().with("out", "ok")
            .with("rsh", J::Arr(s.iter().map(|x| J::Int(*x as i64)).collect()))
            .with("el", J::Arr(d.iter().map(|x| { let y = *x * 32768.; J::Int(if y.fract() == 0. && y.abs() <= 32768. { y as i64 } else { 99999 }) }).collect()))
            .with("rate", if rt.len() == 1 { big(rt[0] as u128) } else { J::Arr(vec![J::Int(-1)]) }),
    }
}
