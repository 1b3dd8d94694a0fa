//! Global allocator: measures the largest request of a call, refuses absurd requests (so that
//! a damaged file cannot exhaust the sandbox), and offers extra pre-emption points, because
//! allocations are the most frequent thing the code under test does between system calls.
use crate::kernel::{self, sim, INK, MAX_ALLOC};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;
/// Allocations left until the next pre-emption; <= 0: off.
pub static GAP: AtomicI64 = AtomicI64::new(0);
pub const REFUSE: usize = 3 << 30;

#[inline]
fn note(n: usize) -> bool {
    if sim() && !INK.load(Relaxed) {
        if n > MAX_ALLOC.load(Relaxed) {
            MAX_ALLOC.store(n, Relaxed);
        }
        if n > REFUSE {
            return false;
        }
        let g = GAP.load(Relaxed);
        if g > 0 {
            GAP.store(g - 1, Relaxed);
            if g == 1 {
                kernel::preempt();
            }
        }
    }
    true
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
