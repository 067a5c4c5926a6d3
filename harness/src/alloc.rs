//! A checking allocator: every block carries its layout in front and guard bytes on both sides.
//! Freeing with another layout than the allocation's, zero-sized requests and writes just outside
//! a block are counted; freed memory is overwritten.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Checked;
pub static FAULTS: AtomicI64 = AtomicI64::new(0);
const MAGIC: u64 = 0x0a11_0c8e_d5ea_1001;
const GUARD: u8 = 0xD7;
const TAIL: usize = 32;

fn head(align: usize) -> usize { if align > 32 { align } else { 32 } }

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 { FAULTS.fetch_add(1, Ordering::SeqCst); }
        let h = head(l.align());
        let full = match Layout::from_size_align(h + l.size() + TAIL, l.align().max(16)) {
            Ok(f) => f, Err(_) => return std::ptr::null_mut() };
        let p = unsafe { System.alloc(full) };
        if p.is_null() { return p; }
        unsafe {
            let q = p.add(h);
            (q.sub(32) as *mut u64).write_unaligned(MAGIC);
            (q.sub(24) as *mut u64).write_unaligned(l.size() as u64);
            (q.sub(16) as *mut u64).write_unaligned(l.align() as u64);
            std::ptr::write_bytes(q.sub(8), GUARD, 8);
            std::ptr::write_bytes(q, 0xC3, l.size());
            std::ptr::write_bytes(q.add(l.size()), GUARD, TAIL);
            q
        }
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        unsafe {
            let magic = (q.sub(32) as *const u64).read_unaligned();
            let size = (q.sub(24) as *const u64).read_unaligned() as usize;
            let align = (q.sub(16) as *const u64).read_unaligned() as usize;
            if magic != MAGIC {
                // not a live block of ours: freed twice or never allocated; leave it alone
                FAULTS.fetch_add(1, Ordering::SeqCst);
                return;
            }
            let guards = (1..=8).all(|i| *q.sub(i) == GUARD) && (0..TAIL).all(|i| *q.add(size + i) == GUARD);
            if size != l.size() || align != l.align() || !guards { FAULTS.fetch_add(1, Ordering::SeqCst); }
            (q.sub(32) as *mut u64).write_unaligned(!MAGIC);
            std::ptr::write_bytes(q, 0xE9, size);
            let h = head(align);
            System.dealloc(q.sub(h), Layout::from_size_align_unchecked(h + size + TAIL, align.max(16)));
        }
    }
}
