//! Fixed-point reporting of floating-point values (spec/Fix.tla), 24 fractional bits.
use crate::json::J;
use crate::shape::big;
pub fn fx(x: f64) -> J {
    let o = J::obj();
    if !x.is_finite() { return o.with("n", false).with("m", Vec::<i64>::new()).with("b", if x.is_nan() { "nan" } else if x > 0. { "inf" } else { "-inf" }); }
    let y = (x.abs() * 16777216.0).round();
    if y > 1e37 { return o.with("n", false).with("m", Vec::<i64>::new()).with("b", "huge"); }
    let m = y as u128;
    o.with("n", x < 0. && m > 0).with("m", big(m)).with("b", "")
}
pub fn fxs(v: impl IntoIterator<Item = f64>) -> J { J::Arr(v.into_iter().map(fx).collect()) }
