//! Counting allocator: current and peak heap usage, with a hard cap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static CURRENT: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

/// Above this, allocations fail (the process aborts, which is an observation)
const CAP: usize = 3 << 30;

pub struct Counting;

fn grow(n: usize) -> bool {
    let cur = CURRENT.fetch_add(n, Relaxed) + n;
    if cur > CAP {
        CURRENT.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(cur, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if grow(l.size()) {
            unsafe { System.alloc(l) }
        } else {
            std::ptr::null_mut()
        }
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if grow(l.size()) {
            unsafe { System.alloc_zeroed(l) }
        } else {
            std::ptr::null_mut()
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CURRENT.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both blocks may exist while the contents are moved
        if grow(n) {
            let q = unsafe { System.realloc(p, l, n) };
            if q.is_null() {
                CURRENT.fetch_sub(n, Relaxed);
            } else {
                CURRENT.fetch_sub(l.size(), Relaxed);
            }
            q
        } else {
            std::ptr::null_mut()
        }
    }
}

/// Start measuring; returns the baseline
pub fn mark() -> usize {
    let cur = CURRENT.load(Relaxed);
    PEAK.store(cur, Relaxed);
    cur
}

/// Peak heap usage above a baseline
pub fn peak(base: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(base)
}
