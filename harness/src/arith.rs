//! Arithmetic, bitwise and math functions (spec/ArithTrace.tla).
//!
//! A "table" row asks for the scalar function on every combination of pool values; a "case" row asks for the
//! tensor function on operands given as pool indices.  Values are reported as strings.
use crate::json::J;
use essay_tensor::tensor::{Tensor, Type};
use num_complex::Complex;
use num_traits::{Float, MulAdd, PrimInt, Signed};
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Val: Type + Clone {
    fn parse(s: &str) -> Self;
    fn show(&self) -> String;
}
macro_rules! ival { ($($t:ty)*) => { $( impl Val for $t {
    fn parse(s: &str) -> $t { match s { "MAX" => <$t>::MAX, "MIN" => <$t>::MIN, s => s.parse().unwrap() } }
    fn show(&self) -> String { self.to_string() } } )* } }
ival!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
macro_rules! fval { ($($t:ty)*) => { $( impl Val for $t {
    fn parse(s: &str) -> $t { match s { "MAX" => <$t>::MAX, "TINY" => <$t>::MIN_POSITIVE, "SUB" => <$t>::MIN_POSITIVE / 4., s => s.parse().unwrap() } }
    fn show(&self) -> String { if self.is_nan() { "nan".into() } else { format!("{:?}", self) } } } )* } }
fval!(f32 f64);
impl Val for bool {
    fn parse(s: &str) -> bool { s == "1" }
    fn show(&self) -> String { (if *self { "1" } else { "0" }).into() }
}
impl<T: Val> Val for Complex<T> {
    fn parse(s: &str) -> Self { let (a, b) = s.split_once(',').unwrap(); Complex { re: T::parse(a), im: T::parse(b) } }
    fn show(&self) -> String { format!("{},{}", self.re.show(), self.im.show()) }
}
impl<T: Val> Val for (T, T) {
    fn parse(s: &str) -> Self { let (a, b) = s.split_once(',').unwrap(); (T::parse(a), T::parse(b)) }
    fn show(&self) -> String { format!("{},{}", self.0.show(), self.1.show()) }
}

/// symbolic operands: left, right and result have different types; the operators are order-sensitive hashes
#[derive(Clone)] pub struct SymL(pub i64);
#[derive(Clone)] pub struct SymR(pub i64);
#[derive(Clone)] pub struct SymV(pub i64);
macro_rules! sval { ($($t:ident)*) => { $( impl Type for $t {}
    impl Val for $t { fn parse(s: &str) -> $t { $t(s.parse().unwrap()) } fn show(&self) -> String { self.0.to_string() } } )* } }
sval!(SymL SymR SymV);
macro_rules! sop { ($($tr:ident $f:ident $k:expr;)*) => { $(
    impl $tr<SymR> for SymL { type Output = SymV; fn $f(self, o: SymR) -> SymV { SymV(self.0 * 31 + o.0 * 7 + $k) } } )* } }
sop! { Add add 100; Sub sub 200; Mul mul 300; Div div 400; Rem rem 500; BitAnd bitand 600; BitOr bitor 700; BitXor bitxor 800; Shl shl 900; Shr shr 1000; }
impl Neg for SymL { type Output = SymL; fn neg(self) -> SymL { SymL(self.0 * 13 + 1) } }
impl Not for SymL { type Output = SymL; fn not(self) -> SymL { SymL(self.0 * 17 + 2) } }
impl Mul<SymL> for SymL { type Output = SymV; fn mul(self, o: SymL) -> SymV { SymV(self.0 * 31 + o.0 * 7 + 300) } }

pub struct Rec { sh: Vec<usize>, v: Vec<String> }
fn rec<V: Val>(t: Tensor<V>) -> Rec {
    Rec { sh: t.shape().as_vec(), v: t.as_slice().iter().map(|x| x.show()).collect() }
}
fn js(v: &[J]) -> Vec<String> { v.iter().map(|x| match x { J::Str(s) => s.clone(), _ => unreachable!() }).collect() }

/// operand k of a case: pool indices, possibly as a view into padded storage
fn opnd<T: Val>(e: &J, k: usize) -> Tensor<T> { opnd_base(e, k).0 }
/// the operand and the tensor whose storage it shares
fn opnd_base<T: Val>(e: &J, k: usize) -> (Tensor<T>, Tensor<T>) {
    let o = &e.arr("args")[k];
    let pool: Vec<T> = js(o.arr("pool")).iter().map(|s| T::parse(s)).collect();
    let ix = o.uss("v");
    let sh = o.uss("sh");
    let pad = o.us("pad");
    let mut d: Vec<T> = (0..pad).map(|i| pool[(i * 5 + 1) % pool.len()].clone()).collect();
    d.extend(ix.iter().map(|i| pool[*i].clone()));
    let n = d.len();
    if pad > 0 { d.push(pool[0].clone()); }
    let base = Tensor::from(d);
    crate::watch::add(&base);
    let shape = crate::machine::mkshape(&sh, 0);
    let t = if pad == 0 { base.clone().reshape(shape) } else { base.subslice_flat(pad, n - pad, shape) };
    (t, base)
}
/// the second operand: its own tensor, or a clone of the first
fn second<T: Val, U: Val>(e: &J, a: &Tensor<T>) -> Tensor<U> {
    if e.int("alias") == 0 { return opnd::<U>(e, 1); }
    *(Box::new(a.clone()) as Box<dyn std::any::Any>).downcast::<Tensor<U>>().unwrap()
}
/// what is kept beside operand k while the function runs: nothing, a clone, or the tensor it is a part of
struct Kept<T: Val>(Option<Tensor<T>>, usize);
impl<T: Val> Kept<T> {
    fn take(e: &J, k: usize) -> (Tensor<T>, Kept<T>) {
        let (t, base) = opnd_base::<T>(e, k);
        let kept = match e.int("keep") { 0 => None, 1 => Some(t.clone()), _ => Some(base.clone()) };
        drop(base);
        (t, Kept(kept, k))
    }
    fn now(self, e: &J, after: &mut Vec<J>) {
        let (t, base) = opnd_base::<T>(e, self.1);
        if let Some(x) = self.0 { after.push(seen(&x)); after.push(seen(if e.int("keep") == 1 { &t } else { &base })); }
    }
}
fn scal<T: Val>(e: &J, k: usize) -> T {
    let o = &e.arr("args")[k];
    T::parse(&js(o.arr("pool"))[o.uss("v")[0]])
}
fn pool<T: Val>(e: &J, k: usize) -> Vec<T> { js(e.arr("args")[k].arr("pool")).iter().map(|s| T::parse(s)).collect() }
fn seen<T: Val>(t: &Tensor<T>) -> J {
    J::obj().with("sh", t.shape().as_vec()).with("v", t.as_slice().iter().map(|x| x.show()).collect::<Vec<_>>())
}
fn sc(f: impl FnOnce() -> String) -> String { catch_unwind(AssertUnwindSafe(f)).unwrap_or("panic".into()) }

struct Out<'a> { e: &'a J, after: Vec<J> }

macro_rules! table1 { ($e:expr, $t:ty, |$x:ident| $b:expr) => {{
    let p = pool::<$t>($e, 0);
    J::from(p.iter().map(|v| { let $x = v.clone(); sc(move || Val::show(&$b)) }).collect::<Vec<_>>()) }} }
macro_rules! table2 { ($e:expr, $t:ty, $u:ty, |$x:ident, $y:ident| $b:expr) => {{
    let p = pool::<$t>($e, 0); let q = pool::<$u>($e, 1);
    J::Arr(p.iter().map(|v| J::from(q.iter().map(|w| { let $x = v.clone(); let $y = w.clone(); sc(move || Val::show(&$b)) }).collect::<Vec<_>>())).collect()) }} }

/// the tensor forms of a binary operator
macro_rules! forms { ($o:tt, $t:ty, $u:ty, $e:expr, $out:expr, [$($left:tt)*]) => {{
    let e: &J = $e;
    match e.int("form") {
        f @ 0..=3 => {
            let (a, ka) = Kept::<$t>::take(e, 0);
            let (b, kb) = if e.int("alias") == 0 { let (b, k) = Kept::<$u>::take(e, 1); (b, Some(k)) } else { (second::<$t, $u>(e, &a), None) };
            let r = match f { 0 => a $o b, 1 => &a $o b, 2 => a $o &b, _ => &a $o &b };
            ka.now(e, &mut $out.after);
            if let Some(k) = kb { k.now(e, &mut $out.after); }
            rec(r)
        }
        f @ 4..=5 => {
            let s = scal::<$u>(e, 1);
            let (a, ka) = Kept::<$t>::take(e, 0);
            let r = if f == 4 { a $o s } else { &a $o s };
            ka.now(e, &mut $out.after);
            rec(r)
        }
        _ => { $($left)* }
    }
}} }
macro_rules! sleft { ($o:tt, $t:ty, $e:expr, $out:expr) => {{
    let s = scal::<$t>($e, 0); let (b, kb) = Kept::<$t>::take($e, 1);
    let r = if $e.int("form") == 6 { s $o b } else { s $o &b };
    kb.now($e, &mut $out.after);
    rec(r) }} }

macro_rules! bin { ($name:ident, $t:ty, [$($s:literal $o:tt),*]) => {
    fn $name(op: &str, out: &mut Out) -> Option<Rec> {
        let e = out.e;
        Some(match op { $( $s => forms!($o, $t, $t, e, out, [sleft!($o, $t, e, out)]), )* _ => return None })
    } } }
macro_rules! bint { ($name:ident, $t:ty, [$($s:literal $o:tt),*]) => {
    fn $name(op: &str, e: &J) -> Option<J> {
        Some(match op { $( $s => table2!(e, $t, $t, |x, y| x $o y), )* _ => return None })
    } } }

fn arg1<T: Val, V: Val>(out: &mut Out, f: impl FnOnce(&Tensor<T>) -> Tensor<V>) -> Rec {
    let a = opnd::<T>(out.e, 0);
    let r = f(&a);
    out.after = vec![seen(&a), seen(&opnd::<T>(out.e, 0))];
    rec(r)
}
/// a function that consumes its operand
fn own1<T: Val, V: Val>(out: &mut Out, f: impl FnOnce(Tensor<T>) -> Tensor<V>) -> Rec {
    let (a, k) = Kept::<T>::take(out.e, 0);
    let r = f(a);
    k.now(out.e, &mut out.after);
    rec(r)
}
fn arg2<T: Val, U: Val, V: Val>(out: &mut Out, f: impl FnOnce(&Tensor<T>, &Tensor<U>) -> Tensor<V>) -> Rec {
    let a = opnd::<T>(out.e, 0);
    let b = second::<T, U>(out.e, &a);
    let r = f(&a, &b);
    out.after = vec![seen(&a), seen(&opnd::<T>(out.e, 0)), seen(&b), seen(&opnd::<U>(out.e, 1))];
    rec(r)
}

fn f_un<T: Val + Float>(op: &str, out: &mut Out) -> Option<Rec> {
    macro_rules! m { ($($n:ident)*) => { match op { $( stringify!($n) => arg1::<T, T>(out, |a| a.$n()), )*
        "sin_cos" => arg1::<T, (T, T)>(out, |a| a.sin_cos()),
        _ => return None } } }
    Some(m!(floor ceil round trunc fract signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin asin sinh asinh
        cos acos cosh acosh tan atan tanh atanh exp_m1 ln_1p))
}
fn f_unt<T: Val + Float>(op: &str, e: &J) -> Option<J> {
    macro_rules! m { ($($n:ident)*) => { match op { $( stringify!($n) => table1!(e, T, |x| Float::$n(x)), )*
        "sin_cos" => table1!(e, T, |x| Float::sin_cos(x)),
        _ => return None } } }
    Some(m!(floor ceil round trunc fract signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin asin sinh asinh
        cos acos cosh acosh tan atan tanh atanh exp_m1 ln_1p))
}
fn f_bin<T: Val + Float + MulAdd<Output = T>>(op: &str, out: &mut Out) -> Option<Rec> {
    macro_rules! m { ($($n:ident)*) => { match op { $( stringify!($n) => arg2::<T, T, T>(out, |a, b| a.$n(b)), )*
        "powi" => match out.e.int("form") {
            0 => arg2::<T, i32, T>(out, |a, b| a.powi(b)),
            1 => arg2::<T, i32, T>(out, |a, b| a.powi(b.clone())),
            _ => { let s = scal::<i32>(out.e, 1); arg1::<T, T>(out, |a| a.powi(s)) }
        },
        "mul_add" => {
            let a = opnd::<T>(out.e, 0); let b = opnd::<T>(out.e, 1); let c = opnd::<T>(out.e, 2);
            let k = a.clone();
            let r = a.mul_add(&b, &c);
            out.after = vec![seen(&k), seen(&opnd::<T>(out.e, 0)), seen(&b), seen(&opnd::<T>(out.e, 1)), seen(&c), seen(&opnd::<T>(out.e, 2))];
            rec(r)
        }
        _ => return None } } }
    Some(m!(powf log hypot atan2 copysign))
}
fn f_bint<T: Val + Float + MulAdd<Output = T>>(op: &str, e: &J) -> Option<J> {
    macro_rules! m { ($($n:ident)*) => { match op { $( stringify!($n) => table2!(e, T, T, |x, y| Float::$n(x, y)), )*
        "powi" => table2!(e, T, i32, |x, y| Float::powi(x, y)),
        "mul_add" => { let p = pool::<T>(e, 0);
            J::Arr(p.iter().map(|a| J::Arr(p.iter().map(|b| J::from(p.iter().map(|c| Val::show(&MulAdd::mul_add(*a, *b, *c))).collect::<Vec<_>>())).collect())).collect()) }
        _ => return None } } }
    Some(m!(powf log hypot atan2 copysign))
}

fn i_fn<T: Val + PrimInt>(op: &str, out: &mut Out) -> Option<Rec> {
    macro_rules! m { ($([$n:ident $r:ty])*) => { match op { $( stringify!($n) => arg1::<T, $r>(out, |a| a.$n()), )*
        "rotate_left" => arg2::<T, u32, T>(out, |a, b| a.rotate_left(b)),
        "rotate_right" => arg2::<T, u32, T>(out, |a, b| a.rotate_right(b)),
        "min" => match out.e.int("form") {
            0 => arg2::<T, T, T>(out, |a, b| a.min(b)),
            1 => arg2::<T, T, T>(out, |a, b| a.min(b.clone())),
            _ => { let s = scal::<T>(out.e, 1); arg1::<T, T>(out, |a| a.min(Tensor::from(s))) } },
        "max" => match out.e.int("form") {
            0 => arg2::<T, T, T>(out, |a, b| a.max(b)),
            1 => arg2::<T, T, T>(out, |a, b| a.max(b.clone())),
            _ => { let s = scal::<T>(out.e, 1); arg1::<T, T>(out, |a| a.max(Tensor::from(s))) } },
        _ => return None } } }
    Some(m!([count_ones u32] [count_zeros u32] [leading_ones u32] [leading_zeros u32] [trailing_ones u32] [trailing_zeros u32]
        [swap_bytes T] [reverse_bits T] [to_be T] [to_le T]))
}
fn i_fnt<T: Val + PrimInt>(op: &str, e: &J) -> Option<J> {
    macro_rules! m { ($($n:ident)*) => { match op { $( stringify!($n) => table1!(e, T, |x| PrimInt::$n(x)), )*
        "rotate_left" => table2!(e, T, u32, |x, y| PrimInt::rotate_left(x, y)),
        "rotate_right" => table2!(e, T, u32, |x, y| PrimInt::rotate_right(x, y)),
        "min" => table2!(e, T, T, |x, y| Ord::min(x, y)),
        "max" => table2!(e, T, T, |x, y| Ord::max(x, y)),
        _ => return None } } }
    Some(m!(count_ones count_zeros leading_ones leading_zeros trailing_ones trailing_zeros swap_bytes reverse_bits to_be to_le))
}
fn s_fn<T: Val + Signed>(op: &str, out: &mut Out) -> Option<Rec> {
    Some(match op {
        "abs" => arg1::<T, T>(out, |a| a.abs()),
        "neg_fn" => arg1::<T, T>(out, |a| a.neg()),
        "abs_sub" => arg2::<T, T, T>(out, |a, b| a.abs_sub(b)),
        "is_negative" => arg1::<T, bool>(out, |a| a.is_negative()),
        "is_positive" => arg1::<T, bool>(out, |a| a.is_positive()),
        "neg" => own1::<T, T>(out, |a| -a),
        "neg_ref" => arg1::<T, T>(out, |a| -a),
        "square" => arg1::<T, T>(out, |a| a.square()),
        _ => return None })
}
fn s_fnt<T: Val + Signed>(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "abs" => table1!(e, T, |x| Signed::abs(&x)),
        "neg_fn" | "neg" | "neg_ref" => table1!(e, T, |x| -x),
        "abs_sub" => table2!(e, T, T, |x, y| Signed::abs_sub(&x, &y)),
        "is_negative" => table1!(e, T, |x| Signed::is_negative(&x)),
        "is_positive" => table1!(e, T, |x| Signed::is_positive(&x)),
        "square" => table1!(e, T, |x| x.clone() * x),
        _ => return None })
}
fn n_fn<T: Val + Not<Output = T>>(op: &str, out: &mut Out) -> Option<Rec> {
    Some(match op {
        "not" => own1::<T, T>(out, |a| !a),
        "not_ref" => arg1::<T, T>(out, |a| !a),
        _ => return None })
}
fn n_fnt<T: Val + Not<Output = T>>(op: &str, e: &J) -> Option<J> {
    Some(match op { "not" | "not_ref" => table1!(e, T, |x| !x), _ => return None })
}

fn c_fn<T: Val + Float + Signed>(op: &str, out: &mut Out) -> Option<Rec> where Complex<T>: Val {
    type C<T> = Complex<T>;
    Some(match op {
        "re" => arg1::<C<T>, T>(out, |a| a.re()),
        "im" => arg1::<C<T>, T>(out, |a| a.im()),
        "norm_sqr" => arg1::<C<T>, T>(out, |a| a.norm_sqr()),
        "scale" => arg2::<C<T>, T, C<T>>(out, |a, b| a.scale(b)),
        "unscale" => arg2::<C<T>, T, C<T>>(out, |a, b| a.unscale(b)),
        "powu" => arg2::<C<T>, u32, C<T>>(out, |a, b| a.powu(b)),
        "conj" => arg1::<C<T>, C<T>>(out, |a| a.conj()),
        "inv" => arg1::<C<T>, C<T>>(out, |a| a.inv()),
        "l1_norm" => arg1::<C<T>, T>(out, |a| a.l1_norm()),
        "norm" => arg1::<C<T>, T>(out, |a| a.norm()),
        "arg" => arg1::<C<T>, T>(out, |a| a.arg()),
        "to_polar" => arg1::<C<T>, (T, T)>(out, |a| a.to_polar()),
        "from_polar" => arg1::<(T, T), C<T>>(out, |a| Tensor::<C<T>>::from_polar(a)),
        "powc" => arg2::<C<T>, C<T>, C<T>>(out, |a, b| a.powc(b)),
        "expf" => arg2::<C<T>, T, C<T>>(out, |a, b| a.expf(b)),
        "finv" => arg1::<C<T>, C<T>>(out, |a| a.finv()),
        "fdiv" => arg2::<C<T>, C<T>, C<T>>(out, |a, b| a.fdiv(b)),
        _ => return None })
}
fn c_fnt<T: Val + Float + Signed>(op: &str, e: &J) -> Option<J> where Complex<T>: Val {
    type C<T> = Complex<T>;
    Some(match op {
        "re" => table1!(e, C<T>, |x| x.re),
        "im" => table1!(e, C<T>, |x| x.im),
        "norm_sqr" => table1!(e, C<T>, |x| Complex::norm_sqr(&x)),
        "scale" => table2!(e, C<T>, T, |x, y| Complex::scale(&x, y)),
        "unscale" => table2!(e, C<T>, T, |x, y| Complex::unscale(&x, y)),
        "powu" => table2!(e, C<T>, u32, |x, y| Complex::powu(&x, y)),
        "conj" => table1!(e, C<T>, |x| Complex::conj(&x)),
        "inv" => table1!(e, C<T>, |x| Complex::inv(&x)),
        "l1_norm" => table1!(e, C<T>, |x| Complex::l1_norm(&x)),
        "norm" => table1!(e, C<T>, |x| Complex::norm(x)),
        "arg" => table1!(e, C<T>, |x| Complex::arg(x)),
        "to_polar" => table1!(e, C<T>, |x| Complex::to_polar(x)),
        "from_polar" => table1!(e, (T, T), |x| Complex::from_polar(x.0, x.1)),
        "powc" => table2!(e, C<T>, C<T>, |x, y| Complex::powc(x, y)),
        "expf" => table2!(e, C<T>, T, |x, y| Complex::expf(x, y)),
        "finv" => table1!(e, C<T>, |x| Complex::finv(x)),
        "fdiv" => table2!(e, C<T>, C<T>, |x, y| Complex::fdiv(x, y)),
        _ => return None })
}

macro_rules! ints { ($($t:ident)*) => { $( mod $t { #[allow(unused_imports)] use super::*;
    bin!(ops, std::primitive::$t, ["add" +, "sub" -, "mul" *, "div" /, "rem" %, "and" &, "or" |, "xor" ^, "shl" <<, "shr" >>]);
    bint!(tab, std::primitive::$t, ["add" +, "sub" -, "mul" *, "div" /, "rem" %, "and" &, "or" |, "xor" ^, "shl" <<, "shr" >>]);
    pub fn call(op: &str, out: &mut Out) -> Option<Rec> { ops(op, out).or_else(|| i_fn::<std::primitive::$t>(op, out)).or_else(|| n_fn::<std::primitive::$t>(op, out)) }
    pub fn scalar(op: &str, e: &J) -> Option<J> { tab(op, e).or_else(|| i_fnt::<std::primitive::$t>(op, e)).or_else(|| n_fnt::<std::primitive::$t>(op, e)) }
} )* } }
ints!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
macro_rules! floats { ($($t:ident)*) => { $( mod $t { #[allow(unused_imports)] use super::*;
    bin!(ops, std::primitive::$t, ["add" +, "sub" -, "mul" *, "div" /, "rem" %]);
    bint!(tab, std::primitive::$t, ["add" +, "sub" -, "mul" *, "div" /, "rem" %]);
    pub fn call(op: &str, out: &mut Out) -> Option<Rec> {
        ops(op, out).or_else(|| s_fn::<std::primitive::$t>(op, out)).or_else(|| f_un::<std::primitive::$t>(op, out)).or_else(|| f_bin::<std::primitive::$t>(op, out)) }
    pub fn scalar(op: &str, e: &J) -> Option<J> {
        tab(op, e).or_else(|| s_fnt::<std::primitive::$t>(op, e)).or_else(|| f_unt::<std::primitive::$t>(op, e)).or_else(|| f_bint::<std::primitive::$t>(op, e)) }
} )* } }
floats!(f32 f64);
mod boolean { use super::*;
    bin!(ops, bool, ["and" &, "or" |, "xor" ^]);
    bint!(tab, bool, ["and" &, "or" |, "xor" ^]);
    pub fn call(op: &str, out: &mut Out) -> Option<Rec> { ops(op, out).or_else(|| n_fn::<bool>(op, out)) }
    pub fn scalar(op: &str, e: &J) -> Option<J> { tab(op, e).or_else(|| n_fnt::<bool>(op, e)) }
}
fn sym(op: &str, out: &mut Out) -> Option<Rec> {
    let e = out.e;
    macro_rules! m { ($($s:literal $o:tt),*) => { match op { $( $s => forms!($o, SymL, SymR, e, out, [unreachable!()]), )*
        "neg" => own1::<SymL, SymL>(out, |a| -a),
        "neg_ref" => arg1::<SymL, SymL>(out, |a| -a),
        "not" => own1::<SymL, SymL>(out, |a| !a),
        "not_ref" => arg1::<SymL, SymL>(out, |a| !a),
        _ => return None } } }
    Some(m!("add" +, "sub" -, "mul" *, "div" /, "rem" %, "and" &, "or" |, "xor" ^, "shl" <<, "shr" >>))
}
fn symt(op: &str, e: &J) -> Option<J> {
    macro_rules! m { ($($s:literal $o:tt),*) => { match op { $( $s => table2!(e, SymL, SymR, |x, y| x $o y), )*
        "neg" | "neg_ref" => table1!(e, SymL, |x| -x), "not" | "not_ref" => table1!(e, SymL, |x| !x),
        _ => return None } } }
    Some(m!("add" +, "sub" -, "mul" *, "div" /, "rem" %, "and" &, "or" |, "xor" ^, "shl" <<, "shr" >>))
}
/// operands of different primitive types
fn mixed(op: &str, out: &mut Out) -> Option<Rec> {
    let e = out.e;
    Some(match op { "shl" => forms!(<<, std::primitive::i64, std::primitive::u8, e, out, [unreachable!()]), "shr" => forms!(>>, std::primitive::i64, std::primitive::u8, e, out, [unreachable!()]), _ => return None })
}
fn mixedt(op: &str, e: &J) -> Option<J> {
    Some(match op { "shl" => table2!(e, std::primitive::i64, std::primitive::u8, |x, y| x << y), "shr" => table2!(e, std::primitive::i64, std::primitive::u8, |x, y| x >> y), _ => return None })
}
mod cx { use super::*;
    macro_rules! c { ($($m:ident $t:ty),*) => { $( pub mod $m { use super::*;
        bin_c!(ops, Complex<$t>, ["add" +, "sub" -, "mul" *, "div" /, "rem" %]);
        bint!(tab, Complex<$t>, ["add" +, "sub" -, "mul" *, "div" /, "rem" %]);
        pub fn call(op: &str, out: &mut Out) -> Option<Rec> { ops(op, out).or_else(|| c_fn::<$t>(op, out)) }
        pub fn scalar(op: &str, e: &J) -> Option<J> { tab(op, e).or_else(|| c_fnt::<$t>(op, e)) }
    } )* } }
    macro_rules! bin_c { ($name:ident, $t:ty, [$($s:literal $o:tt),*]) => {
        fn $name(op: &str, out: &mut Out) -> Option<Rec> {
            let e = out.e;
            Some(match op { $( $s => forms!($o, $t, $t, e, out, [unreachable!()]), )* _ => return None })
        } } }
    c!(c32 std::primitive::f32, c64 std::primitive::f64);
}

macro_rules! dispatch { ($ty:expr, $op:expr, $x:expr, $f:ident) => { match $ty {
    "i8" => i8::$f($op, $x), "i16" => i16::$f($op, $x), "i32" => i32::$f($op, $x), "i64" => i64::$f($op, $x), "i128" => i128::$f($op, $x), "isize" => isize::$f($op, $x),
    "u8" => u8::$f($op, $x), "u16" => u16::$f($op, $x), "u32" => u32::$f($op, $x), "u64" => u64::$f($op, $x), "u128" => u128::$f($op, $x), "usize" => usize::$f($op, $x),
    "f32" => f32::$f($op, $x), "f64" => f64::$f($op, $x), "bool" => boolean::$f($op, $x), "c32" => cx::c32::$f($op, $x), "c64" => cx::c64::$f($op, $x),
    t => panic!("type {}", t) } } }

pub fn row(e: &J) -> J {
    let (op, ty) = (e.str("op"), e.str("ty"));
    let mut o = e.clone();
    if e.str("k") == "table" {
        let t = match ty { "sym" => symt(op, e), "mixed" => mixedt(op, e),
            "si8" => s_fnt::<std::primitive::i8>(op, e), "si32" => s_fnt::<std::primitive::i32>(op, e), "si64" => s_fnt::<std::primitive::i64>(op, e), "sisize" => s_fnt::<std::primitive::isize>(op, e),
            "si16" => s_fnt::<std::primitive::i16>(op, e), "si128" => s_fnt::<std::primitive::i128>(op, e),
            _ => dispatch!(ty, op, e, scalar) };
        o.set("tab", t.unwrap_or_else(|| panic!("no scalar {} {}", op, ty)));
        return o;
    }
    let mut out = Out { e, after: vec![] };
    let r = catch_unwind(AssertUnwindSafe(|| match ty { "sym" => sym(op, &mut out), "mixed" => mixed(op, &mut out),
        "si8" => s_fn::<std::primitive::i8>(op, &mut out), "si32" => s_fn::<std::primitive::i32>(op, &mut out), "si64" => s_fn::<std::primitive::i64>(op, &mut out), "sisize" => s_fn::<std::primitive::isize>(op, &mut out),
        "si16" => s_fn::<std::primitive::i16>(op, &mut out), "si128" => s_fn::<std::primitive::i128>(op, &mut out),
        _ => dispatch!(ty, op, &mut out, call) }));
    match r {
        Err(_) => { o.set("ok", false); o.set("sh", Vec::<i64>::new()); o.set("v", Vec::<i64>::new()); }
        Ok(None) => panic!("no function {} {}", op, ty),
        Ok(Some(r)) => { o.set("ok", true); o.set("sh", r.sh); o.set("v", r.v); }
    }
    o.set("after", J::Arr(out.after));
    o
}
