//! Numeric reductions (spec/ReduceOps.tla).
use crate::fix::fxs;
use crate::json::J;
use crate::machine::mkshape;
use essay_tensor::tensor::{Axis, Tensor, Type};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn build<T: Type + Clone>(sh: &[usize], pad: usize, v: Vec<T>) -> Tensor<T> {
    let n = v.len();
    let mut d: Vec<T> = (0..pad).map(|i| v[(i * 7 + 1) % n].clone()).collect();
    d.extend(v.iter().cloned());
    if pad > 0 { d.push(v[0].clone()); }
    let t = Tensor::from(d);
    crate::watch::add(&t);
    if pad == 0 { t.reshape(mkshape(sh, 0)) } else { t.subslice_flat(pad, n, mkshape(sh, 0)) }
}

pub fn row(e: &J) -> J {
    let (op, ty, ax) = (e.str("op"), e.str("ty"), e.int("ax"));
    let (mut sh, off, mut q, pad) = (e.uss("sh"), e.int("off"), e.ints("q"), e.us("pad"));
    let rep = e.us("rep");
    if rep > 1 {
        // the given tensor repeated along the reduced axis
        let a = if ax >= 100 { 0 } else if ax < 0 { (sh.len() as i64 + ax) as usize } else { ax as usize };
        let w: usize = sh[a..].iter().product();
        q = q.chunks(w).flat_map(|c| c.iter().copied().cycle().take(w * rep).collect::<Vec<_>>()).collect();
        sh[a] *= rep;
    }
    let axis = || if ax == 101 { Axis::from(None) } else { Axis::axis(ax as isize) };
    // all data scaled by a power of two, and the results scaled back (exactly)
    let sc = 2f64.powi(e.int_or("sc", 0) as i32);
    let fv = || -> Vec<f64> { q.iter().map(|x| if op == "product" { *x as f64 } else if x.abs() == 900001 { f64::INFINITY.copysign(*x as f64) } else { (off as f64 + *x as f64 / 4.) * sc }).collect() };
    macro_rules! red { ($t:expr, $a:ident, $b:ident) => { if ax == 100 { $t.$a() } else { $t.$b(axis()) } } }
    let r = catch_unwind(AssertUnwindSafe(|| -> (Vec<usize>, Vec<f64>) {
        macro_rules! out { ($t:expr) => {{ let t = $t; (t.shape().as_vec(), t.as_slice().iter().map(|x| *x as f64).collect()) }} }
        macro_rules! ints { ($t:ty) => {{ let t = build::<$t>(&sh, pad, q.iter().map(|x| *x as $t).collect());
            if op == "sum" { out!(red!(t, reduce_sum, reduce_sum_axis)) } else { out!(red!(t, reduce_product, reduce_product_axis)) } }} }
        match ty {
            "i32" => ints!(i32),
            "i64" => ints!(i64),
            "f32" => {
                let t = build::<f32>(&sh, pad, fv().iter().map(|x| *x as f32).collect());
                match op {
                    "sum" => out!(red!(t, reduce_sum, reduce_sum_axis)),
                    "product" => out!(red!(t, reduce_product, reduce_product_axis)),
                    "min" => out!(red!(t, reduce_min, reduce_min_axis)),
                    "max" => out!(red!(t, reduce_max, reduce_max_axis)),
                    "mean" => out!(red!(t, reduce_mean, reduce_mean_axis)),
                    "std" => out!(red!(t, reduce_std, reduce_std_axis)),
                    "variance" => out!(red!(t, reduce_variance, reduce_variance_axis)),
                    "hypot" => out!(t.reduce_hypot()),
                    "unit" => out!(t.normalize_unit()),
                    _ => unreachable!(),
                }
            }
            _ => {
                let t = build::<f64>(&sh, pad, fv());
                match op {
                    "sum" => out!(red!(t, reduce_sum, reduce_sum_axis)),
                    "product" => out!(red!(t, reduce_product, reduce_product_axis)),
                    "min" => out!(red!(t, reduce_min, reduce_min_axis)),
                    "max" => out!(red!(t, reduce_max, reduce_max_axis)),
                    "hypot" => out!(t.reduce_hypot()),
                    "unit" => out!(t.normalize_unit()),
                    _ => unreachable!(),
                }
            }
        }
    }));
    let mut o = e.clone();
    // integers were summed as quarters
    let scale = if ty.starts_with('i') { if op == "sum" { 0.25 } else { 1. } } else { match op { "unit" | "product" => 1., "variance" => 1. / (sc * sc), _ => 1. / sc } };
    o.set("ok", r.is_ok());
    let (s, mut v) = r.unwrap_or_default();
    if rep > 1 && op == "unit" && v.len() == q.len() {
        let n = v.len() / rep;
        let same = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits());
        let k = (1..rep).find(|k| !same(&v[..n], &v[k * n..(k + 1) * n])).unwrap_or(rep - 1);
        v = v[..n].iter().chain(&v[k * n..(k + 1) * n]).copied().collect();
    }
    o.set("rsh", s);
    o.set("r", fxs(v.into_iter().map(|x| x * scale)));
    o
}
