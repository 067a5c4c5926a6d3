//! Element types used to exercise the library.
use essay_tensor::tensor::{Shape, Tensor, Type};
use num_traits::{One, Zero};
use std::cell::Cell;
use std::fmt::Debug;
use std::ops::{Add, BitXor, Mul, Not};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};

pub const HM: i64 = 1000003;
pub fn h1(a: i64) -> i64 { (a * 601 + 17) % HM }
pub fn h2(a: i64, b: i64) -> i64 { (a * 601 + b * 1201 + 13) % HM }
pub fn hfold(s: i64, it: impl IntoIterator<Item = i64>) -> i64 { it.into_iter().fold(s, h2) }
pub fn hrow(it: impl IntoIterator<Item = i64>) -> i64 { hfold(7, it) }

/// An element: carries an integer label.
/// Its default has label 0.
pub trait El: Default + Type + Clone + Debug + PartialEq + PartialOrd {
    fn mk(l: i64) -> Self;
    fn lab(&self) -> i64;
    /// identity of the element (tracked elements only)
    fn uid(&self) -> usize { 0 }
    fn defaults(sh: impl Into<Shape>) -> Tensor<Self> { Tensor::init_default(sh) }
    const TRACKED: bool = false;
}

impl El for i32 { fn mk(l: i64) -> i32 { l as i32 } fn lab(&self) -> i64 { *self as i64 } }
impl El for u64 { fn mk(l: i64) -> u64 { l as u64 } fn lab(&self) -> i64 { *self as i64 } }
impl El for f32 { fn mk(l: i64) -> f32 { if l == -777 { f32::NAN } else { l as f32 } } fn lab(&self) -> i64 {
    if self.is_finite() && self.fract() == 0. && self.abs() < 1e9 { *self as i64 } else { -777 } } }
impl El for String {
    fn mk(l: i64) -> String { format!("{:08}", l) }
    fn lab(&self) -> i64 { self.parse().unwrap_or(-777) }
    fn defaults(sh: impl Into<Shape>) -> Tensor<Self> { Tensor::fill(sh, Self::mk(0)) }   // an empty string has no label
}

/// three bytes, no alignment
#[derive(Clone, Copy, PartialEq, Default)]
pub struct B3([u8; 3]);
impl Type for B3 {}
impl El for B3 {
    fn mk(l: i64) -> B3 { let b = (l as i32).to_le_bytes(); B3([b[0], b[1], b[2]]) }
    fn lab(&self) -> i64 { let b = self.0; (i32::from_le_bytes([0, b[0], b[1], b[2]]) >> 8) as i64 }
}
impl PartialOrd for B3 { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.lab().partial_cmp(&o.lab()) } }
impl Debug for B3 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.lab()) } }
impl BitXor for B3 { type Output = B3; fn bitxor(self, o: B3) -> B3 { B3::mk(self.lab() ^ o.lab()) } }
impl Add for B3 { type Output = B3; fn add(self, o: B3) -> B3 { B3::mk(self.lab() + o.lab()) } }
impl Mul for B3 { type Output = B3; fn mul(self, o: B3) -> B3 { B3::mk(self.lab() * o.lab()) } }
impl Zero for B3 { fn zero() -> Self { B3::mk(0) } fn is_zero(&self) -> bool { self.lab() == 0 } }
impl One for B3 { fn one() -> Self { B3::mk(1) } }

/// a large element with a large alignment, which must hold wherever it is read, and redundant contents
#[derive(Clone, PartialEq)]
#[repr(align(128))]
pub struct Wide { a: i64, pad: [i64; 30], z: i64 }
impl Type for Wide {}
impl Default for Wide { fn default() -> Self { Wide::mk(0) } }
impl El for Wide {
    fn mk(l: i64) -> Wide { Wide { a: l, pad: [l ^ 0x5a5a; 30], z: !l } }
    fn lab(&self) -> i64 {
        let at = std::hint::black_box(self as *const Wide as usize);
        if at % 128 == 0 && self.z == !self.a && self.pad.iter().all(|x| *x == self.a ^ 0x5a5a) { self.a } else { -666 }
    }
}
impl PartialOrd for Wide { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.lab().partial_cmp(&o.lab()) } }
impl Debug for Wide { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.lab()) } }

// ---- tracked elements ----

const MAGIC: u64 = 0x5ee1_ab1e_0b5e_7ed5;
const CAP: usize = 1 << 23;
static NEXT: AtomicUsize = AtomicUsize::new(1);
static LIVE: AtomicI64 = AtomicI64::new(0);
static BAD: AtomicI64 = AtomicI64::new(0);

fn table() -> &'static Vec<AtomicUsize> {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<AtomicUsize>> = OnceLock::new();
    T.get_or_init(|| (0..CAP / 64).map(|_| AtomicUsize::new(0)).collect())
}
fn bit(id: usize) -> (usize, usize) { ((id % CAP) / 64, 1usize << (id % 64)) }
fn set_alive(id: usize) -> bool { let (w, b) = bit(id); table()[w].fetch_or(b, Ordering::SeqCst) & b == 0 }
fn set_dead(id: usize) -> bool { let (w, b) = bit(id); table()[w].fetch_and(!b, Ordering::SeqCst) & b != 0 }
fn is_alive(id: usize) -> bool { let (w, b) = bit(id); table()[w].load(Ordering::SeqCst) & b != 0 }

thread_local! {
    /// panic at the n-th clone from now on (0: never)
    pub static CLONE_PANIC: Cell<i64> = const { Cell::new(0) };
}

pub struct Elem { magic: u64, id: usize, label: i64 }

impl Elem {
    pub fn new(label: i64) -> Self {
        let id = NEXT.fetch_add(1, Ordering::SeqCst);
        set_alive(id);
        LIVE.fetch_add(1, Ordering::SeqCst);
        Elem { magic: MAGIC, id, label }
    }
    fn ok(&self) -> bool { self.magic == MAGIC && self.id < NEXT.load(Ordering::SeqCst) && is_alive(self.id) }
    pub fn live() -> i64 { LIVE.load(Ordering::SeqCst) }
    pub fn bad() -> i64 { BAD.load(Ordering::SeqCst) }
    pub fn reset() { LIVE.store(0, Ordering::SeqCst); BAD.store(0, Ordering::SeqCst); }
}
impl Drop for Elem {
    fn drop(&mut self) {
        if self.magic != MAGIC || self.id >= NEXT.load(Ordering::SeqCst) || !set_dead(self.id) {
            BAD.fetch_add(1, Ordering::SeqCst);
        } else {
            LIVE.fetch_sub(1, Ordering::SeqCst);
        }
    }
}
impl Clone for Elem {
    fn clone(&self) -> Self {
        let n = CLONE_PANIC.with(|c| c.get());
        if n > 0 {
            CLONE_PANIC.with(|c| c.set(n - 1));
            if n == 1 { panic!("clone panics by request"); }
        }
        Elem::new(self.lab())
    }
}
impl Debug for Elem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.lab()) }
}
impl PartialEq for Elem { fn eq(&self, o: &Self) -> bool { self.lab() == o.lab() } }
impl PartialOrd for Elem {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.lab().partial_cmp(&o.lab()) }
}
impl Default for Elem { fn default() -> Self { Elem::new(0) } }
impl Type for Elem {}
impl El for Elem {
    const TRACKED: bool = true;
    fn uid(&self) -> usize { self.id }
    fn mk(l: i64) -> Self { Elem::new(l) }
    fn lab(&self) -> i64 {
        if !self.ok() { BAD.fetch_add(1, Ordering::SeqCst); return -666; }
        self.label
    }
}
impl BitXor for Elem { type Output = Elem; fn bitxor(self, o: Elem) -> Elem { Elem::new(self.lab() ^ o.lab()) } }
impl Not for Elem { type Output = Elem; fn not(self) -> Elem { Elem::new(h1(self.lab())) } }
impl Add for Elem { type Output = Elem; fn add(self, o: Elem) -> Elem { Elem::new(self.lab() + o.lab()) } }
impl Mul for Elem { type Output = Elem; fn mul(self, o: Elem) -> Elem { Elem::new(self.lab() * o.lab()) } }
impl Zero for Elem { fn zero() -> Self { Elem::new(0) } fn is_zero(&self) -> bool { self.lab() == 0 } }
impl One for Elem { fn one() -> Self { Elem::new(1) } }

/// a tracked element of eight bytes
pub struct Thin { id: u32, label: i32 }
impl Thin {
    fn new(label: i64) -> Self {
        let id = NEXT.fetch_add(1, Ordering::SeqCst);
        set_alive(id);
        LIVE.fetch_add(1, Ordering::SeqCst);
        Thin { id: id as u32, label: label as i32 }
    }
    fn ok(&self) -> bool { (self.id as usize) < NEXT.load(Ordering::SeqCst) && is_alive(self.id as usize) }
}
impl Drop for Thin {
    fn drop(&mut self) {
        if self.id as usize >= NEXT.load(Ordering::SeqCst) || !set_dead(self.id as usize) {
            BAD.fetch_add(1, Ordering::SeqCst);
        } else {
            LIVE.fetch_sub(1, Ordering::SeqCst);
        }
    }
}
impl Clone for Thin {
    fn clone(&self) -> Self {
        let n = CLONE_PANIC.with(|c| c.get());
        if n > 0 {
            CLONE_PANIC.with(|c| c.set(n - 1));
            if n == 1 { panic!("clone panics by request"); }
        }
        Thin::new(self.lab())
    }
}
impl Debug for Thin { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.lab()) } }
impl PartialEq for Thin { fn eq(&self, o: &Self) -> bool { self.lab() == o.lab() } }
impl PartialOrd for Thin { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.lab().partial_cmp(&o.lab()) } }
impl Default for Thin { fn default() -> Self { Thin::new(0) } }
impl Type for Thin {}
impl El for Thin {
    const TRACKED: bool = true;
    fn uid(&self) -> usize { self.id as usize }
    fn mk(l: i64) -> Self { Thin::new(l) }
    fn lab(&self) -> i64 {
        if !self.ok() { BAD.fetch_add(1, Ordering::SeqCst); return -666; }
        self.label as i64
    }
}
impl BitXor for Thin { type Output = Thin; fn bitxor(self, o: Thin) -> Thin { Thin::new(self.lab() ^ o.lab()) } }
impl Not for Thin { type Output = Thin; fn not(self) -> Thin { Thin::new(h1(self.lab())) } }
impl Add for Thin { type Output = Thin; fn add(self, o: Thin) -> Thin { Thin::new(self.lab() + o.lab()) } }
impl Mul for Thin { type Output = Thin; fn mul(self, o: Thin) -> Thin { Thin::new(self.lab() * o.lab()) } }
impl Zero for Thin { fn zero() -> Self { Thin::new(0) } fn is_zero(&self) -> bool { self.lab() == 0 } }
impl One for Thin { fn one() -> Self { Thin::new(1) } }
