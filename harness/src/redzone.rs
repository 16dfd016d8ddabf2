//! Allocator with guard bytes behind every block: an out-of-bounds write is recorded when the
//! block is released or resized.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering};
pub struct Redzone;
const PAD: usize = 256;
const FILL: u8 = 0xA7;
pub static SMASHED: AtomicU64 = AtomicU64::new(0);
fn padded(l: Layout) -> Layout {
    Layout::from_size_align(l.size() + PAD, l.align()).expect("layout")
}
unsafe fn check(p: *mut u8, l: Layout) {
    unsafe {
        let z = p.add(l.size());
        for i in 0..PAD {
            if *z.add(i) != FILL {
                SMASHED.fetch_add(1, Ordering::SeqCst);
                return;
            }
        }
    }
}
unsafe impl GlobalAlloc for Redzone {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            let p = System.alloc(padded(l));
            if !p.is_null() {
                std::ptr::write_bytes(p.add(l.size()), FILL, PAD);
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            check(p, l);
            System.dealloc(p, padded(l));
        }
    }
}
pub fn smashed() -> u64 {
    SMASHED.load(Ordering::SeqCst)
}
