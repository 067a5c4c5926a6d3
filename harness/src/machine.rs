//! Executes request histories of the tensor machine (spec/Machine.tla) on the real library
//! and records what can be observed after every request.
use crate::elem::*;
use crate::json::J;
use essay_tensor::array;
use essay_tensor::init;
use essay_tensor::tensor::{Axis, FoldState, Shape, Tensor, Type};
use num_traits::{One, Zero};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::ops::{BitXor, Not};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- helpers

/// The caller's function: counts calls, hashes returned labels, panics on request.
pub struct Fun { calls: Cell<i64>, seq: Cell<i64>, pan: i64 }
impl Fun {
    fn new(pan: i64) -> Fun { Fun { calls: Cell::new(0), seq: Cell::new(0), pan } }
    fn call(&self) {
        self.calls.set(self.calls.get() + 1);
        if self.pan > 0 && self.calls.get() == self.pan { panic!("caller function panics by request"); }
    }
    fn out<E: El>(&self, l: i64) -> E { self.seq.set(h2(self.seq.get(), l)); E::mk(l) }
}

/// the caller's fold states own memory, so that a state used twice or after its end shows
pub struct Acc<E>(Box<i64>, PhantomData<E>);
impl<E> Acc<E> { fn new(x: i64) -> Self { Acc(Box::new(x), PhantomData) } }
impl<E> Clone for Acc<E> { fn clone(&self) -> Self { Acc(self.0.clone(), PhantomData) } }
impl<E: El> FoldState for Acc<E> { type Out = E; fn into_result(self) -> E { E::mk(h1(*self.0)) } }

pub struct RowAcc<E, const N: usize>(Box<i64>, PhantomData<E>);
impl<E, const N: usize> Clone for RowAcc<E, N> { fn clone(&self) -> Self { RowAcc(self.0.clone(), PhantomData) } }
impl<E: El, const N: usize> FoldState for RowAcc<E, N> {
    type Out = [E; N];
    fn into_result(self) -> [E; N] { std::array::from_fn(|j| E::mk(h2(*self.0, j as i64))) }
}

pub fn mkshape(d: &[usize], form: i64) -> Shape {
    if form == 1 && d.iter().all(|x| *x > 0) { return Shape::from(d.to_vec()); }
    if form == 2 {
        match d.len() {
            1 => return Shape::from([d[0]]),
            2 => return Shape::from([d[0], d[1]]),
            3 => return Shape::from([d[0], d[1], d[2]]),
            4 => return Shape::from([d[0], d[1], d[2], d[3]]),
            5 => return Shape::from([d[0], d[1], d[2], d[3], d[4]]),
            6 => return Shape::from([d[0], d[1], d[2], d[3], d[4], d[5]]),
            _ => {}
        }
    }
    if form == 3 && d.len() == 1 { return Shape::from(d[0]); }
    if form == 3 { let s = Shape::from(d); return Shape::from(&s); }
    if d.is_empty() { return Shape::scalar(); }
    Shape::from(d)
}

/// A shape the library itself converts, in the named form.
pub struct RawShape(pub Vec<usize>, pub i64);
impl From<RawShape> for Shape { fn from(r: RawShape) -> Shape { mkshape(&r.0, r.1) } }

fn axis(e: &J) -> Axis {
    match e.str("ax") {
        "none" => Axis::axis_opt(None),
        "into" => Axis::from(e.int("axis") as isize),
        "opt" => Axis::from(Some(e.int("axis") as isize)),
        _ => Axis::axis(e.int("axis") as isize),
    }
}

pub fn mk<E: El>(v: &[i64]) -> Vec<E> { v.iter().map(|l| E::mk(*l)).collect() }
pub fn labs<E: El>(v: &[E]) -> Vec<i64> { v.iter().map(|x| x.lab()).collect() }

/// arguments: owned or borrowed
enum Arg<'a, E: Type> { Own(Tensor<E>), Ref(&'a Tensor<E>) }
impl<'a, E: Type> Arg<'a, E> {
    fn r(&self) -> &Tensor<E> { match self { Arg::Own(t) => t, Arg::Ref(t) => t } }
    fn own(self) -> Tensor<E> where E: Type { match self { Arg::Own(t) => t, Arg::Ref(t) => t.clone() } }
}

pub enum Out<E: Type> { Res(Vec<Tensor<E>>), Val(J) }

fn nest_ints(j: &J, depth: i64, out: &mut Vec<i64>) {
    if depth == 0 { out.push(j.as_int()); } else { for x in j.as_arr() { nest_ints(x, depth - 1, out); } }
}

fn tokens(s: &str) -> (J, J) {
    // "Tensor<type> {....., shape: [..]}"
    let body = &s[s.find('{').unwrap() + 1..];
    let (data, shape) = match body.rfind(", shape: ") {
        Some(i) => (&body[..i], &body[i + 9..body.len() - 1]),
        None => (body, "[-1]"),
    };
    let mut tok: Vec<J> = vec![];
    let mut num = String::new();
    for c in data.chars().chain(" ".chars()) {
        if c.is_ascii_alphanumeric() || c == '.' || c == '-' { num.push(c); continue; }
        if !num.is_empty() {
            let t = num.strip_suffix(".0").unwrap_or(&num).to_string();
            tok.push(match t.parse::<i64>() { Ok(i) => J::Int(i), Err(_) => J::Str(t) });
            num.clear();
        }
        if c == '[' || c == ']' { tok.push(J::Str(c.to_string())); }
    }
    let sh: Vec<i64> = shape.trim_matches(|c| c == '[' || c == ']').split(',')
        .filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap_or(-1)).collect();
    (J::Arr(tok), sh.into())
}

macro_rules! by_n { ($n:expr, $N:ident => $b:expr) => { match $n {
    1 => { const $N: usize = 1; $b } 2 => { const $N: usize = 2; $b }
    3 => { const $N: usize = 3; $b } 4 => { const $N: usize = 4; $b }
    n => unreachable!("N = {}", n) } } }

fn rows_of<E: El, const N: usize>(v: &[i64]) -> Vec<[E; N]> {
    v.chunks(N).map(|c| std::array::from_fn(|i| E::mk(c[i]))).collect()
}
fn arr2<E: El, const N: usize, const M: usize>(v: &[i64]) -> [[E; N]; M] {
    std::array::from_fn(|j| std::array::from_fn(|i| E::mk(v[j * N + i])))
}
fn arr3<E: El, const N: usize, const M: usize, const L: usize>(v: &[i64]) -> [[[E; N]; M]; L] {
    std::array::from_fn(|k| arr2(&v[k * N * M..]))
}
fn arr4<E: El, const N: usize, const M: usize, const L: usize, const K: usize>(v: &[i64]) -> [[[[E; N]; M]; L]; K] {
    std::array::from_fn(|k| arr3(&v[k * N * M * L..]))
}

fn n1<E: El>(j: &J) -> Vec<E> { j.as_arr().iter().map(|x| E::mk(x.as_int())).collect() }
fn n2<E: El>(j: &J) -> Vec<Vec<E>> { j.as_arr().iter().map(n1).collect() }
fn n3<E: El>(j: &J) -> Vec<Vec<Vec<E>>> { j.as_arr().iter().map(n2).collect() }
fn n4<E: El>(j: &J) -> Vec<Vec<Vec<Vec<E>>>> { j.as_arr().iter().map(n3).collect() }
fn n5<E: El>(j: &J) -> Vec<Vec<Vec<Vec<Vec<E>>>>> { j.as_arr().iter().map(n4).collect() }

/// list-taking functions in every operand form
fn list_op<E: El>(op: &str, e: &J, ts: &[&Tensor<E>]) -> Tensor<E> {
    macro_rules! f { ($l:expr) => { match op {
        "concat" => if e.str("ax") == "none" { array::concatenate($l) } else { array::concatenate_axis(axis(e), $l) },
        "stack" => if e.str("ax") == "none" { array::stack($l) } else { array::stack_axis(axis(e), $l) },
        "vstack" => array::vstack($l),
        "hstack" => array::hstack($l),
        "dstack" => array::dstack($l),
        _ => unreachable!() } } }
    macro_rules! m { ($s:expr, $l:expr) => { match op {
        "concat" => if e.str("ax") == "none" { $s.concatenate($l) } else { $s.concatenate_axis(axis(e), $l) },
        "stack" => $s.stack($l, axis(e)),
        "vstack" => $s.vstack($l),
        "hstack" => array::hstack(ts.to_vec()),
        "dstack" => $s.dstack($l),
        _ => unreachable!() } } }
    let vecs = || -> Vec<Vec<E>> { ts.iter().map(|t| t.as_slice().to_vec()).collect() };
    let flat = ts.iter().all(|t| t.rank() == 1);
    let n = ts.len();
    match e.int_or("form", 0) {
        1 => f!(ts.to_vec()),
        2 => { let v: Vec<Tensor<E>> = ts.iter().map(|t| (*t).clone()).collect(); f!(v.as_slice()) }
        3 => f!(ts),
        4 if n == 2 => f!([ts[0], ts[1]]),
        4 if n == 3 => f!([ts[0].clone(), ts[1].clone(), ts[2].clone()]),
        4 if n == 6 => f!([ts[0], ts[1], ts[2], ts[3], ts[4], ts[5]]),
        4 if n == 9 => { let a: [Tensor<E>; 9] = std::array::from_fn(|i| ts[i].clone()); f!(a) }
        4 if n == 10 => { let a: [&Tensor<E>; 10] = std::array::from_fn(|i| ts[i]); f!(a) }
        5 if n == 5 => f!((ts[0], ts[1].clone(), ts[2], ts[3], ts[4])),
        5 if n == 6 => f!((ts[0], ts[1].clone(), ts[2], ts[3], ts[4], ts[5])),
        5 if n == 7 => f!((ts[0], ts[1].clone(), ts[2], ts[3], ts[4], ts[5], ts[6])),
        5 if n == 8 => f!((ts[0], ts[1], ts[2], ts[3], ts[4].clone(), ts[5], ts[6], ts[7])),
        5 if n == 9 => f!((ts[0], ts[1], ts[2], ts[3], ts[4], ts[5], ts[6].clone(), ts[7], ts[8])),
        5 if n == 10 => f!((ts[0], ts[1], ts[2], ts[3], ts[4], ts[5], ts[6], ts[7], ts[8].clone(), ts[9])),
        7 if n == 7 => m!(ts[0], (ts[1], ts[2], ts[3], ts[4], ts[5], ts[6])),
        7 if n == 10 => m!(ts[0], (ts[1], ts[2], ts[3], ts[4].clone(), ts[5], ts[6], ts[7], ts[8], ts[9])),
        5 if n == 1 => f!((ts[0],)),
        5 if n == 2 => f!((ts[0], ts[1])),
        5 if n == 3 => f!((ts[0].clone(), ts[1], ts[2])),
        5 if n == 4 => f!((ts[0], ts[1].clone(), ts[2], ts[3])),
        6 => m!(ts[0], ts[1..].to_vec()),
        7 if n == 2 => m!(ts[0], (ts[1],)),
        7 if n == 3 => m!(ts[0], [ts[1], ts[2]]),
        8 if flat => f!(vecs()),
        9 if flat => { let v = vecs(); f!(v.as_slice()) }
        10 if flat && n == 2 => { let mut v = vecs(); let b = v.pop().unwrap(); let a = v.pop().unwrap(); f!([a, b]) }
        11 if flat => { let v = vecs(); let r: Vec<&Vec<E>> = v.iter().collect(); f!(r) }
        12 if flat => { let v = vecs(); let r: Vec<&Vec<E>> = v.iter().collect(); f!(r.as_slice()) }
        10 if flat && n == 9 => { let v = vecs(); let a: [Vec<E>; 9] = std::array::from_fn(|i| v[i].clone()); f!(a) }
        13 if flat && n == 9 => { let v = vecs(); let a: [&Vec<E>; 9] = std::array::from_fn(|i| &v[i]); f!(a) }
        13 if flat && n == 2 => { let v = vecs(); f!([&v[0], &v[1]]) }
        14 if flat && n == 2 => { let mut v = vecs(); let b = v.pop().unwrap(); f!((ts[0], b)) }
        _ => { let v: Vec<Tensor<E>> = ts.iter().map(|t| (*t).clone()).collect(); f!(v) }
    }
}

fn split_op<E: El>(op: &str, e: &J, t: &Tensor<E>) -> Vec<Tensor<E>> {
    let none = e.str("ax") == "none";
    let ax = if none { 0 } else { e.int("axis") };
    let form = e.int_or("form", 0);
    macro_rules! f { ($s:expr) => {
        if none { t.split($s) }
        else if form == 1 && ax == 0 { t.vsplit($s) }
        else if form == 1 && ax == 1 && t.rank() > 1 { t.hsplit($s) }
        else if form == 1 && ax == 2 && t.rank() > 2 { t.dsplit($s) }
        else { t.split_axis(axis(e), $s) } } }
    if op == "split" { return f!(e.us("n")); }
    let cuts = e.uss("cuts");
    match (form, cuts.len()) {
        (2, 1) => f!([cuts[0]]),
        (2, 2) => f!([cuts[0], cuts[1]]),
        (3, _) => f!(cuts.as_slice()),
        (4, _) => f!(&cuts),
        _ => f!(cuts),
    }
}

fn num_op<E: El + Zero + One>(op: &str, e: &J, a: &[&Tensor<E>]) -> Option<Vec<Tensor<E>>> {
    let form = e.int_or("form", 0);
    Some(match op {
        "eye" => vec![match form { 0 => init::eye(e.us("n")), 1 => Tensor::<E>::eye(e.us("n")),
            2 => init::identity(e.us("n")), _ => Tensor::<E>::identity(e.us("n")) }],
        "tri" => vec![if form == 0 { init::tri(e.us("n")) } else { Tensor::<E>::tri(e.us("n")) }],
        "zeros" => vec![if form == 0 { init::zeros(mkshape(&e.uss("sh"), 0)) } else { Tensor::zeros(mkshape(&e.uss("sh"), 1)) }],
        "ones" => vec![if form == 0 { init::ones(mkshape(&e.uss("sh"), 0)) } else { Tensor::ones(mkshape(&e.uss("sh"), 2)) }],
        "tril" => vec![a[0].tril()],
        "triu" => vec![a[0].triu()],
        "diagflat" => vec![a[0].diagflat()],
        "meshgrid" | "meshgrid_ij" => {
            macro_rules! f { ($l:expr) => { if op == "meshgrid" { Vec::from(init::meshgrid($l)) } else { Vec::from(init::meshgrid_ij($l)) } } }
            match (a.len(), form) {
                (1, 0) => f!([a[0]]), (1, _) => f!([a[0].clone()]),
                (2, 0) => f!([a[0], a[1]]), (2, 1) => f!([a[0].clone(), a[1].clone()]),
                (2, _) => if op == "meshgrid" { Vec::from(a[0].meshgrid(a[1])) } else { Vec::from(a[0].meshgrid_ij(a[1])) },
                (3, 0) => f!([a[0], a[1], a[2]]), (3, _) => f!([a[0].clone(), a[1].clone(), a[2].clone()]),
                _ => return None,
            }
        }
        _ => return None,
    })
}

fn xor_op<E: El + BitXor<E, Output = E>>(op: &str, e: &J, mut a: Vec<Arg<E>>) -> Option<Vec<Tensor<E>>> {
    Some(match op {
        "xor" => {
            let b = a.pop().unwrap();
            let a = a.pop().unwrap();
            vec![match (a, b) {
                (Arg::Own(a), Arg::Own(b)) => a ^ b,
                (Arg::Own(a), Arg::Ref(b)) => a ^ b,
                (Arg::Ref(a), Arg::Own(b)) => a ^ b,
                (Arg::Ref(a), Arg::Ref(b)) => a ^ b,
            }]
        }
        "xor_s" => vec![match a.pop().unwrap() {
            Arg::Own(a) => a ^ E::mk(e.int("s")),
            Arg::Ref(a) => a ^ E::mk(e.int("s")),
        }],
        _ => return None,
    })
}

fn copy_op<E: El + Copy>(e: &J, ts: Vec<Tensor<E>>) -> Vec<Tensor<E>> {
    vec![match (e.int_or("form", 0), ts.len()) {
        (1, _) => Tensor::from(ts.as_slice()),
        (2, 1) => Tensor::from([ts[0].clone()]),
        (2, 2) => Tensor::from([ts[0].clone(), ts[1].clone()]),
        (2, 3) => Tensor::from([ts[0].clone(), ts[1].clone(), ts[2].clone()]),
        _ => Tensor::from(&ts),
    }]
}

/// type-specific operations
pub trait MEl: El {
    fn special(op: &str, e: &J, a: Vec<ArgBox<Self>>) -> Vec<Tensor<Self>>;
}
pub struct ArgBox<'a, E: Type>(Arg<'a, E>);
fn unbox<E: Type>(a: Vec<ArgBox<E>>) -> Vec<Arg<E>> { a.into_iter().map(|x| x.0).collect() }

macro_rules! refs { ($a:expr) => { $a.iter().map(|x| x.0.r()).collect::<Vec<_>>() } }

impl MEl for Elem {
    fn special(op: &str, e: &J, a: Vec<ArgBox<Self>>) -> Vec<Tensor<Self>> {
        if op == "not" {
            return vec![match unbox(a).pop().unwrap() { Arg::Own(a) => Not::not(a), Arg::Ref(a) => Not::not(a) }];
        }
        if let "xor" | "xor_s" = op { return xor_op(op, e, unbox(a)).unwrap(); }
        num_op(op, e, &refs!(a)).unwrap_or_else(|| unreachable!("op {}", op))
    }
}
impl MEl for Thin {
    fn special(op: &str, e: &J, a: Vec<ArgBox<Self>>) -> Vec<Tensor<Self>> {
        if op == "not" {
            return vec![match unbox(a).pop().unwrap() { Arg::Own(a) => Not::not(a), Arg::Ref(a) => Not::not(a) }];
        }
        if let "xor" | "xor_s" = op { return xor_op(op, e, unbox(a)).unwrap(); }
        num_op(op, e, &refs!(a)).unwrap_or_else(|| unreachable!("op {}", op))
    }
}
impl MEl for i32 {
    fn special(op: &str, e: &J, a: Vec<ArgBox<Self>>) -> Vec<Tensor<Self>> {
        if let "xor" | "xor_s" = op { return xor_op(op, e, unbox(a)).unwrap(); }
        if op == "tensors" { return copy_op(e, a.into_iter().map(|x| x.0.own()).collect()); }
        num_op(op, e, &refs!(a)).unwrap_or_else(|| unreachable!("op {}", op))
    }
}
impl MEl for u64 {
    fn special(op: &str, e: &J, a: Vec<ArgBox<Self>>) -> Vec<Tensor<Self>> {
        if let "xor" | "xor_s" = op { return xor_op(op, e, unbox(a)).unwrap(); }
        if op == "tensors" { return copy_op(e, a.into_iter().map(|x| x.0.own()).collect()); }
        num_op(op, e, &refs!(a)).unwrap_or_else(|| unreachable!("op {}", op))
    }
}
impl MEl for B3 {
    fn special(op: &str, e: &J, a: Vec<ArgBox<Self>>) -> Vec<Tensor<Self>> {
        if let "xor" | "xor_s" = op { return xor_op(op, e, unbox(a)).unwrap(); }
        if op == "tensors" { return copy_op(e, a.into_iter().map(|x| x.0.own()).collect()); }
        num_op(op, e, &refs!(a)).unwrap_or_else(|| unreachable!("op {}", op))
    }
}
impl MEl for Wide {
    fn special(op: &str, _e: &J, _a: Vec<ArgBox<Self>>) -> Vec<Tensor<Self>> { unreachable!("op {}", op) }
}
impl MEl for f32 {
    fn special(op: &str, e: &J, a: Vec<ArgBox<Self>>) -> Vec<Tensor<Self>> {
        if op == "tensors" { return copy_op(e, a.into_iter().map(|x| x.0.own()).collect()); }
        if op == "one_hot" {
            let ix = e.uss("ix");
            return vec![if e.int_or("form", 0) == 0 { init::one_hot(&ix, e.us("n")) } else { Tensor::one_hot(&ix, e.us("n")) }];
        }
        if op == "mgrid" {
            macro_rules! g { ($($m:literal $n:literal),*) => { match (e.us("m"), e.us("n")) {
                $(($m, $n) => Vec::from(init::mgrid::<$m, $n>()),)* x => unreachable!("mgrid {:?}", x) } } }
            return g!(1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 4, 4 3, 5 2);
        }
        num_op(op, e, &refs!(a)).unwrap_or_else(|| unreachable!("op {}", op))
    }
}
impl MEl for String {
    fn special(op: &str, e: &J, _a: Vec<ArgBox<Self>>) -> Vec<Tensor<Self>> {
        if op == "from" {
            let v: Vec<String> = mk(&e.ints("v"));
            let r: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            return vec![match r.len() {
                1 => Tensor::from([r[0]]),
                2 => Tensor::from([r[0], r[1]]),
                3 => Tensor::from([r[0], r[1], r[2]]),
                _ => Tensor::from(r),
            }];
        }
        unreachable!("op {}", op)
    }
}

fn exec<E: MEl>(e: &J, args: Vec<Arg<E>>, fun: &Fun) -> Out<E> {
    let op = e.str("op");
    let form = e.int_or("form", 0);
    let sh = |k: i64| RawShape(e.uss("sh"), if e.has("sform") { e.int("sform") } else { k });
    macro_rules! one { ($x:expr) => { Out::Res(vec![$x]) } }
    macro_rules! t { () => { args[0].r() } }
    match op {
        // ------------------------------------------------ constructors
        "from_scalar" => one!(match form {
            0 => Tensor::from_scalar(E::mk(e.ints("v")[0])),
            1 => essay_tensor::tensor::scalar(E::mk(e.ints("v")[0])),
            _ => Tensor::from(E::mk(e.ints("v")[0])) }),
        "from_vec" => one!(Tensor::from_vec(mk(&e.ints("v")), sh(0))),
        "from_vec_big" => {
            // dimensions hi * 2^32 + lo
            let d: Vec<usize> = e.uss("sh").iter().zip(e.uss("hi")).map(|(l, h)| (h << 32) + l).collect();
            let v = mk(&e.ints("v"));
            one!(if form == 0 { Tensor::from_vec(v, d.as_slice()) } else if form == 1 { Tensor::from_vec(v, d) }
                 else { match d.len() { 1 => Tensor::from_vec(v, d[0]), 2 => Tensor::from_vec(v, [d[0], d[1]]), _ => Tensor::from_vec(v, [d[0], d[1], d[2]]) } })
        }
        "from_box" => one!(Tensor::from_box(mk::<E>(&e.ints("v")).into_boxed_slice(), sh(0))),
        "opt" => one!(Tensor::from(e.ints("v").first().map(|l| E::mk(*l)))),
        "from" => {
            let l = e.ints("v");
            let v: Vec<E> = mk(&l);
            one!(match form {
                0 => Tensor::from(v),
                1 => Tensor::from(&v),
                2 => Tensor::from(v.as_slice()),
                3 => v.into_iter().collect::<Tensor<E>>(),
                4 => v.iter().collect::<Tensor<E>>(),
                5 => Tensor::from_slice(&v),
                // sources whose length hint is a bound, or nothing
                8 => { let mut it = v.into_iter(); std::iter::from_fn(move || it.next()).collect::<Tensor<E>>() }
                9 => { let n = v.len(); v.into_iter().chain((0..n).map(|_| E::mk(0))).enumerate().filter(|(i, _)| *i < n).map(|(_, x)| x).collect::<Tensor<E>>() }
                6 => match l.len() {
                    1 => Tensor::from([E::mk(l[0])]),
                    2 => Tensor::from([E::mk(l[0]), E::mk(l[1])]),
                    3 => essay_tensor::ten![E::mk(l[0]), E::mk(l[1]), E::mk(l[2])],
                    4 => Tensor::from([E::mk(l[0]), E::mk(l[1]), E::mk(l[2]), E::mk(l[3])]),
                    _ => Tensor::from(v),
                },
                _ => return Out::Res(E::special(op, e, vec![])),
            })
        }
        "rows_c" => {
            let v = e.ints("v");
            let s = e.uss("sh");
            macro_rules! a3 { ($($l:literal $m:literal $n:literal),*) => { match (s[0], s[1], s[2]) {
                $(($l, $m, $n) => Tensor::from(arr3::<E, $n, $m, $l>(&v)),)* x => unreachable!("{:?}", x) } } }
            macro_rules! a4 { ($($k:literal $l:literal $m:literal $n:literal),*) => { match (s[0], s[1], s[2], s[3]) {
                $(($k, $l, $m, $n) => Tensor::from(arr4::<E, $n, $m, $l, $k>(&v)),)* x => unreachable!("{:?}", x) } } }
            one!(match (s.len(), form) {
                (2, 0) => by_n!(s[1], N => Tensor::from(rows_of::<E, N>(&v))),
                (2, 1) => by_n!(s[1], N => Tensor::from(&rows_of::<E, N>(&v))),
                (2, 2) => by_n!(s[1], N => Tensor::from(rows_of::<E, N>(&v).as_slice())),
                (2, _) => match s[0] {
                    1 => by_n!(s[1], N => Tensor::from(arr2::<E, N, 1>(&v))),
                    2 => by_n!(s[1], N => Tensor::from(arr2::<E, N, 2>(&v))),
                    3 => by_n!(s[1], N => Tensor::from(arr2::<E, N, 3>(&v))),
                    _ => by_n!(s[1], N => Tensor::from(rows_of::<E, N>(&v))),
                },
                (3, _) => a3!(2 3 2, 1 2 3, 3 1 2, 2 1 1, 1 1 1, 3 2 1),
                (4, _) => a4!(2 1 3 2, 1 2 2 3, 3 1 1 2, 2 2 2 2),
                x => unreachable!("{:?}", x),
            })
        }
        "nested" => {
            let j = e.get("nest").unwrap();
            one!(match (e.int("depth"), form) {
                (2, _) => Tensor::from(&n2::<E>(j)),
                (3, 1) => {
                    let w = j.as_arr()[0].as_arr()[0].as_arr().len();
                    by_n!(w, N => {
                        let v: Vec<Vec<[E; N]>> = j.as_arr().iter().map(|r| r.as_arr().iter().map(|x| {
                            let x = x.as_arr(); std::array::from_fn(|i| E::mk(x[i].as_int())) }).collect()).collect();
                        Tensor::from(&v)
                    })
                }
                (3, _) => Tensor::from(&n3::<E>(j)),
                (4, _) => Tensor::from(&n4::<E>(j)),
                (5, _) => Tensor::from(&n5::<E>(j)),
                x => unreachable!("{:?}", x),
            })
        }
        "join" => one!(Tensor::join_vec(&n2::<E>(e.get("nest").unwrap()))),
        "merge" => {
            let v: Vec<Tensor<E>> = args.into_iter().map(|a| a.own()).collect();
            one!(Tensor::from_merge(&v, sh(0)))
        }
        "init" => {
            let (s, k) = (e.int("s"), Cell::new(0));
            one!(Tensor::init(sh(0), || { fun.call(); k.set(k.get() + 1); fun.out::<E>(h2(s, k.get() - 1)) }))
        }
        "init_rindexed" => {
            let s = e.int("s");
            one!(Tensor::init_rindexed(sh(0), |ix| { fun.call(); fun.out::<E>(hfold(s, ix.iter().map(|i| *i as i64))) }))
        }
        "fill" => one!(match form { 0 => init::fill(sh(0), E::mk(e.int("s"))), 1 => Tensor::fill(sh(1), E::mk(e.int("s"))), _ => E::defaults(sh(0)) }),
        // ------------------------------------------------ views
        "clone" => one!(match form { 1 => Tensor::from(t!()), _ => t!().clone() }),
        "subslice" => one!(t!().subslice(e.us("off"), e.us("len"))),
        "subslice_flat" => one!(t!().subslice_flat(e.us("off"), e.us("len"), sh(0))),
        "reshape" | "flatten" | "squeeze" | "squeeze_axis" | "expand_dims" => {
            let t = args.into_iter().next().unwrap().own();
            one!(match op {
                "reshape" => t.reshape(sh(0)),
                "flatten" => t.flatten(),
                "squeeze" => t.squeeze(),
                "squeeze_axis" => t.squeeze_axis(axis(e)),
                _ => if e.str("ax") == "none" { t.expand_dims(None) } else { t.expand_dims(axis(e)) },
            })
        }
        "drop" => { drop(args); Out::Res(vec![]) }
        // ------------------------------------------------ maps
        "map" => one!(t!().map(|a| { fun.call(); fun.out::<E>(h1(a.lab())) })),
        "map2" => one!(t!().map2(args[1].r(), |a, b| { fun.call(); fun.out::<E>(h2(a.lab(), b.lab())) })),
        "map3" => one!(t!().map3(args[1].r(), args[2].r(), |a, b, c| {
            fun.call(); fun.out::<E>(h2(h2(a.lab(), b.lab()), c.lab())) })),
        "map_row" => one!(by_n!(e.us("n"), N => t!().map_row::<N, E>(|r| {
            fun.call(); let h = hrow(r.iter().map(|x| x.lab())); std::array::from_fn(|j| fun.out::<E>(h2(h, j as i64))) }))),
        "map_expand" => one!(by_n!(e.us("n"), N => t!().map_expand::<N, E>(|a| {
            fun.call(); let h = a.lab(); std::array::from_fn(|j| fun.out::<E>(h2(h, j as i64))) }))),
        // ------------------------------------------------ folds
        "fold" => one!(t!().fold(Acc::<E>::new(e.int("s")), |s, v| { fun.call(); Acc::new(h2(*s.0, v.lab())) })),
        "fold_axis" => one!(t!().fold_axis(axis(e), Acc::<E>::new(e.int("s")), |s, v| { fun.call(); Acc::new(h2(*s.0, v.lab())) })),
        "fold_row" => one!(by_n!(e.us("n"), N => t!().fold_row(axis(e), RowAcc::<E, N>(Box::new(e.int("s")), PhantomData), |s, r| {
            fun.call(); RowAcc::<E, N>(Box::new(h2(*s.0, hrow(r.iter().map(|x| x.lab())))), PhantomData) }))),
        "reduce" => one!(t!().reduce(|a, b| { fun.call(); E::mk(h2(a.lab(), b.lab())) })),
        "reduce_axis" => one!(t!().reduce_axis(axis(e), |a, b| { fun.call(); E::mk(h2(a.lab(), b.lab())) })),
        "normalize" => one!(t!().normalize(axis(e), e.int("s"),
            |s: i64, v| { fun.call(); h2(s, v.lab()) },
            |s: i64| h1(s),
            |s: &i64, v| E::mk(h2(*s, v.lab())))),
        // ------------------------------------------------ arrays
        "concat" | "stack" | "vstack" | "hstack" | "dstack" => {
            let ts: Vec<&Tensor<E>> = args.iter().map(|a| a.r()).collect();
            one!(list_op(op, e, &ts))
        }
        "append" => { let b = args[1].r(); one!(if form == 0 { t!().append(b) } else { t!().append(b.clone()) }) }
        "split" | "split_at" => Out::Res(split_op(op, e, t!())),
        "unstack" => Out::Res(t!().unstack(axis(e))),
        "transpose" => one!(match form { 0 => t!().transpose(), 1 => t!().t(), 2 => array::transpose(t!()),
            _ => array::transpose(args.into_iter().next().unwrap().own()) }),
        "tile" => {
            let m = e.uss("m");
            one!(match (form, m.len()) {
                (0, _) => t!().tile(m),
                (1, 1) => t!().tile([m[0]]),
                (1, 2) => t!().tile([m[0], m[1]]),
                (2, _) => array::tile(t!(), m.as_slice()),
                (3, _) => array::tile(args.into_iter().next().unwrap().own(), &m),
                _ => array::tile(t!(), m),
            })
        }
        // ------------------------------------------------ reads
        "as_slice" => Out::Val(labs(t!().as_slice()).into()),
        "iter" => Out::Val(t!().iter().map(|x| x.lab()).collect::<Vec<_>>().into()),
        "into_iter" => Out::Val(t!().into_iter().map(|x| x.lab()).collect::<Vec<_>>().into()),
        "deref" => { let s: &[E] = t!(); Out::Val(labs(s).into()) }
        "as_ref" => { let s: &[E] = t!().as_ref(); Out::Val(labs(s).into()) }
        "get" => Out::Val(t!().get(e.us("i")).map(|x| vec![x.lab()]).unwrap_or(vec![]).into()),
        "index" => Out::Val(t!()[e.us("i")].lab().into()),
        "mindex" => {
            let x = e.uss("ix");
            let t = t!();
            Out::Val(match x.len() {
                2 => t[(x[0], x[1])].lab(),
                3 => t[(x[0], x[1], x[2])].lab(),
                4 => t[(x[0], x[1], x[2], x[3])].lab(),
                _ => t[(x[0], x[1], x[2], x[3], x[4])].lab(),
            }.into())
        }
        "rows" => Out::Val(t!().iter_row().map(|r| J::from(labs(r))).collect::<Vec<_>>().into()),
        "wrap_slice" => Out::Val(labs(t!().as_wrap_slice(e.us("i"))).into()),
        "wrap_ptr" => Out::Val(unsafe { (*t!().as_wrap_ptr(e.us("i"))).lab() }.into()),
        "wrap_slice_n" => Out::Val(labs(t!().as_wrap_slice_n(e.us("i"), e.us("n"))).into()),
        "debug" => { let (tok, s) = tokens(&format!("{:?}", t!())); Out::Val(J::obj().with("tok", tok).with("sh", s)) }
        "query" => {
            let t = t!();
            let r = t.rank();
            let dims: Vec<usize> = (0..r).map(|i| t.dim(i)).collect();
            let rdims: Vec<usize> = (0..r).map(|i| t.rdim(i)).collect();
            assert_eq!(t.shape().as_vec(), dims, "shape().as_vec() and dim() differ");
            assert_eq!(t.shape().size(), t.size(), "shape().size() and size() differ");
            Out::Val(J::obj().with("rank", r).with("size", t.size()).with("dims", dims).with("rdims", rdims)
                .with("len", if r > 0 { t.len() as i64 } else { -1 })
                .with("cols", t.cols()).with("rows", t.rows()))
        }
        "eq" => { let r = t!() == args[1].r(); assert_eq!(r, !(t!() != args[1].r())); Out::Val(r.into()) }
        "cmp" => Out::Val(match t!().partial_cmp(args[1].r()) {
            None => 2, Some(o) => o as i32 }.into()),
        _ => Out::Res(E::special(op, e, args.into_iter().map(ArgBox).collect())),
    }
}

// ---------------------------------------------------------------- the machine

#[derive(Clone, PartialEq)]
struct Proj { sh: Vec<usize>, v: Vec<i64>, b: usize, off: usize }

struct M<E: Type> {
    regs: Vec<Option<Tensor<E>>>,
    place: Vec<(usize, usize)>,               // buffer id, offset
    bufs: BTreeMap<usize, (usize, usize, Vec<usize>)>,    // id -> base address, length in cells, element identities
    proj: Vec<Option<Proj>>,
    next: usize,
}

const VIEWS: [&str; 8] = ["clone", "subslice", "subslice_flat", "reshape", "flatten", "squeeze", "squeeze_axis", "expand_dims"];

pub fn run<E: MEl>(reqs: &[J], nr: usize) -> Vec<J> {
    Elem::reset();
    crate::alloc::FAULTS.store(0, std::sync::atomic::Ordering::SeqCst);
    let mut m: M<E> = M { regs: (0..=nr).map(|_| None).collect(), place: vec![(0, 0); nr + 1],
        bufs: BTreeMap::new(), proj: vec![None; nr + 1], next: 1 };
    let mut out = vec![];
    for e in reqs {
        // a register that should be filled is empty: an earlier outcome already differs from the model
        if e.uss("a").iter().any(|r| m.regs[*r].is_none()) {
            let mut s = e.clone();
            s.set("out", "stuck");
            s.set("op", "stuck");
            s.set("a", J::Arr(vec![]));
            s.set("own", J::Arr(vec![]));
            out.push(s);
            break;
        }
        out.push(step(&mut m, e));
    }
    out
}

fn step<E: MEl>(m: &mut M<E>, e: &J) -> J {
    let op = e.str("op");
    let a = e.uss("a");
    let own: Vec<usize> = e.uss("own").iter().map(|p| p - 1).collect();
    let dropping = op == "drop";
    let fun = Fun::new(e.int_or("pan", 0));

    // move consumed operands out of their registers
    let mut taken: Vec<Option<Tensor<E>>> = a.iter().enumerate().map(|(i, r)|
        if own.contains(&i) || dropping { Some(m.regs[*r].take().expect("empty register")) } else { None }).collect();
    let consumed: Vec<usize> = a.iter().enumerate().filter(|(i, _)| taken[*i].is_some()).map(|(_, r)| *r).collect();

    let res = {
        let regs = &m.regs;
        let args: Vec<Arg<E>> = a.iter().enumerate().map(|(i, r)| match taken[i].take() {
            Some(t) => Arg::Own(t),
            None => Arg::Ref(regs[*r].as_ref().expect("empty register")) }).collect();
        CLONE_PANIC.with(|c| c.set(e.int_or("cpan", 0)));
        let r = catch_unwind(AssertUnwindSafe(|| exec::<E>(e, args, &fun)));
        CLONE_PANIC.with(|c| c.set(0));
        r
    };

    let mut ev = e.clone();
    // buffers a result may lie in: those of registers that remain and of consumed operands (for these,
    // unless the operation is a view, only if the elements themselves are still the same ones: a freed
    // buffer's memory may be given to a new one)
    let view = VIEWS.contains(&op) || E::TRACKED;
    let keep: Vec<usize> = (1..m.regs.len()).filter(|r| m.regs[*r].is_some() || (view && consumed.contains(r)))
        .map(|r| m.place[r].0).collect();
    let known: Vec<(usize, usize, usize, Vec<usize>)> = m.bufs.iter().filter(|(id, _)| keep.contains(id))
        .map(|(id, (b, l, u))| (*id, *b, *l, u.clone())).collect();
    match res {
        Err(_) => ev.set("out", "panic"),
        Ok(Out::Val(v)) => { ev.set("out", "val"); ev.set("val", v); }
        Ok(Out::Res(ts)) => {
            ev.set("out", "ok");
            ev.set("nres", ts.len());
            let d = e.uss("d");
            let es = std::mem::size_of::<E>();
            for (i, t) in ts.into_iter().enumerate() {
                if i >= d.len() { continue; }
                let p = t.as_slice().as_ptr() as usize;
                let n = t.size();
                let pl = if n == 0 { None } else {
                    known.iter().find(|(_, b, l, u)| p >= *b && p + n * es <= *b + *l * es && {
                        let o = (p - *b) / es;
                        t.as_slice().iter().enumerate().all(|(i, x)| x.uid() == u[o + i]) })
                    .map(|(id, b, _, _)| (*id, (p - *b) / es)) };
                let pl = pl.unwrap_or_else(|| {
                    let id = m.next;
                    m.next += 1;
                    m.bufs.insert(id, (p, n, t.as_slice().iter().map(|x| x.uid()).collect()));
                    (id, 0)
                });
                m.regs[d[i]] = Some(t);
                m.place[d[i]] = pl;
            }
        }
    }
    // forget buffers nobody holds
    let held: Vec<usize> = (1..m.regs.len()).filter(|r| m.regs[*r].is_some()).map(|r| m.place[r].0).collect();
    m.bufs.retain(|id, _| held.contains(id));

    // project
    let mut obs = vec![];
    for r in 1..m.regs.len() {
        let p = m.regs[r].as_ref().map(|t| Proj { sh: t.shape().as_vec(), v: labs(t.as_slice()), b: m.place[r].0, off: m.place[r].1 });
        if p != m.proj[r] {
            obs.push(match &p {
                None => J::obj().with("r", r).with("null", true),
                Some(p) => J::obj().with("r", r).with("null", false).with("sh", p.sh.clone()).with("v", p.v.clone())
                    .with("b", p.b).with("off", p.off),
            });
            m.proj[r] = p;
        }
    }
    ev.set("obs", J::Arr(obs));
    ev.set("live", if E::TRACKED { Elem::live() } else { -1 });
    ev.set("bad", if E::TRACKED { Elem::bad() } else { 0 } + crate::alloc::FAULTS.load(std::sync::atomic::Ordering::SeqCst));
    if fun.calls.get() > 0 || e.has("pan") {
        ev.set("calls", fun.calls.get());
        ev.set("seq", fun.seq.get());
    }
    ev
}

thread_local! { pub static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn history(h: &J) -> J {
    let nr = h.us("nr");
    let reqs = h.arr("ev");
    let ev = match h.str("ty") {
        "elem" => run::<Elem>(reqs, nr),
        "thin" => run::<Thin>(reqs, nr),
        "i32" => run::<i32>(reqs, nr),
        "u64" => run::<u64>(reqs, nr),
        "f32" => run::<f32>(reqs, nr),
        "str" => run::<String>(reqs, nr),
        "b3" => run::<B3>(reqs, nr),
        "wide" => run::<Wide>(reqs, nr),
        t => panic!("type {}", t),
    };
    let mut o = h.clone();
    o.set("ev", J::Arr(ev));
    o
}
