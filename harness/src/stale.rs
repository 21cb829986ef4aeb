//! fresh and freed memory is filled, so that reading it never looks right by accident
use std::alloc::{GlobalAlloc, Layout, System};
pub struct Stale;
fn fill(p: *mut u8, n: usize, with: u8) {
    if !p.is_null() {
        unsafe { std::ptr::write_bytes(p, with, n.min(4096)) };
        std::hint::black_box(p);
    }
}
unsafe impl GlobalAlloc for Stale {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        fill(p, l.size(), 0x5a);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        fill(p, l.size(), 0xa5);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n < l.size() {
            fill(p.add(n), l.size() - n, 0xa5);
        }
        let q = System.realloc(p, l, n);
        if n > l.size() && !q.is_null() {
            fill(q.add(l.size()), n - l.size(), 0x5a);
        }
        q
    }
}
