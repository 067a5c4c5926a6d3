//! Tensors kept beside the operands while a function runs, compared with their contents before (spec/FrameTrace.tla).
//! Active when WATCH is set.
use crate::json::J;
use essay_tensor::tensor::{Tensor, Type};
use std::cell::RefCell;

type Look = Box<dyn Fn() -> (Vec<usize>, String)>;
thread_local! { static SEEN: RefCell<Vec<(Vec<usize>, String, Look)>> = const { RefCell::new(Vec::new()) }; }

pub fn on() -> bool {
    use std::sync::OnceLock;
    static ON: OnceLock<bool> = OnceLock::new();
    *ON.get_or_init(|| std::env::var("WATCH").is_ok())
}

/// plain data only: contents are compared byte by byte
pub fn add<T: Type + Clone>(t: &Tensor<T>) {
    if !on() { return; }
    let t = t.clone();
    let look: Look = Box::new(move || {
        let s = t.as_slice();
        let b = unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, std::mem::size_of_val(s)) };
        let h = b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
        (t.shape().as_vec(), format!("{}:{:016x}", b.len(), h))
    });
    let (sh, d) = look();
    SEEN.with(|s| s.borrow_mut().push((sh, d, look)));
}

pub fn report() -> J {
    J::Arr(SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())).into_iter().map(|(sh, d, look)| {
        let (sh2, d2) = look();
        J::obj().with("sh0", sh).with("sh1", sh2).with("v0", d).with("v1", d2)
    }).collect())
}
