//! Callbacks of the instrumented code under test (see wrap.sh): every edge of its control flow
//! is a possible scheduling point and is counted as reached, and so is every access it makes to
//! a static variable, where threads meet.
use crate::kernel::{self, sim, INK};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU8, Ordering::Relaxed};

pub const MAX: usize = 32768;
/// Edges left until the next pre-emption; <= 0: off.
pub static GAP: AtomicI64 = AtomicI64::new(0);
/// An edge counts only the first so many times, so that inner loops do not take all the
/// pre-emptions.
pub static LIMIT: AtomicU32 = AtomicU32::new(0);
pub static EDGES: AtomicU32 = AtomicU32::new(0);
/// How often each edge was passed in this run (saturating).
static HITS: [AtomicU8; MAX] = [const { AtomicU8::new(0) }; MAX];

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    unsafe {
        if a == b || *a != 0 {
            return;
        }
        while a < b {
            *a = EDGES.fetch_add(1, Relaxed) + 1;
            a = a.add(1);
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = unsafe { *g } as usize;
    if i >= MAX {
        return;
    }
    if GAP.load(Relaxed) <= 0 {
        // pre-emption is off: only the coverage
        if let Some(m) = crate::choice::shm_if() {
            if m.cov[i] == 0 {
                m.cov[i] = 1;
            }
        }
        return;
    }
    if !sim() || INK.load(Relaxed) {
        return;
    }
    let h = HITS[i].load(Relaxed);
    if h == 0 {
        crate::choice::shm().cov[i] = 1;
    }
    if h < 255 {
        HITS[i].store(h + 1, Relaxed);
    }
    let g = GAP.load(Relaxed);
    if g > 0 && (h as u32) < LIMIT.load(Relaxed) {
        GAP.store(g - 1, Relaxed);
        if g == 1 {
            kernel::preempt();
        }
    }
}

/// Accesses to static variables left until the next pre-emption; <= 0: off.
pub static SHARED: AtomicI64 = AtomicI64::new(0);
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline(always)]
fn access(a: usize) {
    let g = SHARED.load(Relaxed);
    if g <= 0 {
        return;
    }
    let (lo, hi) = unsafe { (&raw const __data_start as usize, &raw const _end as usize) };
    if a < lo || a >= hi || !sim() || INK.load(Relaxed) {
        return;
    }
    SHARED.store(g - 1, Relaxed);
    if g == 1 {
        kernel::preempt_shared();
    }
}
macro_rules! accesses {
    ($($f:ident)*) => {$(
        #[no_mangle]
        pub extern "C" fn $f(a: usize) {
            access(a)
        }
    )*};
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
