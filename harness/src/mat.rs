//! Matrix products (spec/MatOps.tla) on integer-valued f32 matrices.
use crate::json::J;
use crate::machine::mkshape;
use crate::reduce::build;
use essay_tensor::linalg::matmul;
#[cfg(essay_verif)]
use essay_tensor::linalg::{matmul_t, Transpose};
use essay_tensor::tensor::Tensor;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn ints(t: &[f32]) -> Vec<i64> { t.iter().map(|x| if x.fract() == 0. && x.abs() < 1e9 { *x as i64 } else { -777777 }).collect() }

const INF: i64 = 88888881;
fn val(x: i64, sc: f32) -> f32 { match x { INF => f32::INFINITY, -88888881 => f32::NEG_INFINITY, 88888882 => f32::NAN, _ => x as f32 * sc } }
fn vals(t: &[f32], sc: f64) -> Vec<i64> {
    t.iter().map(|x| {
        let y = *x as f64 / sc;
        if x.is_nan() { INF + 1 } else if x.is_infinite() { if *x > 0. { INF } else { -INF } } else if y.fract() == 0. && y.abs() < 1e7 { y as i64 } else { -777777 }
    }).collect()
}

pub fn row(e: &J) -> J {
    // operands scaled by powers of two, the product scaled back (all exact)
    let (asc, bsc) = (2f32.powi(e.int("asc") as i32), 2f32.powi(e.int("bsc") as i32));
    let ali = e.int("ali");
    let bsc = if ali >= 3 { asc } else { bsc };
    let f = |k: &str, sc: f32| -> Vec<f32> { e.ints(k).into_iter().map(|x| val(x, sc)).collect() };
    let (ash, bsh, apad, bpad) = (e.uss("ash"), e.uss("bsh"), e.us("apad"), e.us("bpad"));
    let (av, bv) = (f("a", asc), f("b", bsc));
    let (a, b) = match ali {
        0 => (build(&ash, apad, av), build(&bsh, bpad, bv)),
        3 | 4 => {
            let a = build(&ash, apad, av);
            let b = if ali == 3 && ash == bsh { a.clone() } else { a.subslice_flat(0, bv.len(), mkshape(&bsh, 0)) };
            (a, b)
        }
        _ => {
            let (n, m) = (av.len(), bv.len());
            let first = ali == 1;
            let mut d = vec![0.5; apad];
            d.extend(if first { &av } else { &bv });
            d.extend(vec![0.25; bpad]);
            let at = d.len();
            d.extend(if first { &bv } else { &av });
            let t = Tensor::from(d);
            crate::watch::add(&t);
            let (ao, bo) = if first { (apad, at) } else { (at, apad) };
            (t.subslice_flat(ao, n, mkshape(&ash, 0)), t.subslice_flat(bo, m, mkshape(&bsh, 0)))
        }
    };
    let form = e.int("form");
    #[cfg(essay_verif)]
    let mode = || match e.str("mode") { "N" => Transpose::None, "A" => Transpose::TransposeA, "B" => Transpose::TransposeB, _ => Transpose::TransposeAB };
    let none = e.str("mode") == "N";
    let r = catch_unwind(AssertUnwindSafe(|| -> Tensor {
        #[cfg(not(essay_verif))]
        return { assert!(none); if e.str("op") != "matmul" { a.matvec(&b) } else if form == 0 { matmul(&a, &b) } else { a.matmul(&b) } };
        #[cfg(essay_verif)]
        if e.str("op") == "matmul" {
            match form { 0 if none => matmul(&a, &b), 1 if none => a.matmul(&b), 2 => a.matmul_t(&b, mode()), _ => matmul_t(&a, &b, mode()) }
        } else {
            match form { 0 if none => a.matvec(&b), _ => a.matvec_t(&b, mode()) }
        }
    }));
    let mut o = e.clone();
    o.set("ok", r.is_ok());
    match r {
        Ok(t) => { o.set("sh", t.shape().as_vec()); o.set("v", vals(t.as_slice(), asc as f64 * bsc as f64)); }
        Err(_) => { o.set("sh", Vec::<i64>::new()); o.set("v", Vec::<i64>::new()); }
    }
    o.set("a2", vals(a.as_slice(), asc as f64));
    o.set("b2", vals(b.as_slice(), bsc as f64));
    o
}
