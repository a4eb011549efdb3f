//! A counting allocator: the peak of memory in use, and a cap above which allocations fail.

use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr::null_mut;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Counting;

/// No input of ours is nearly as large; whether the system would grant it depends on the machine
const CAP: usize = 3 << 30;

static USED: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

#[global_allocator]
static A: Counting = Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = if l.size() > CAP { null_mut() } else { System.alloc(l) };
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = if l.size() > CAP { null_mut() } else { System.alloc_zeroed(l) };
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = if n > CAP { null_mut() } else { System.realloc(p, l, n) };
        if !q.is_null() {
            USED.fetch_sub(l.size(), Ordering::Relaxed);
            add(n);
        }
        q
    }
}

fn add(n: usize) {
    let u = USED.fetch_add(n, Ordering::Relaxed) + n;
    PEAK.fetch_max(u, Ordering::Relaxed);
}

/// Bytes allocated now
pub fn used() -> usize {
    USED.load(Ordering::Relaxed)
}

/// Bytes allocated at most, on top of what is allocated now, while running `f`.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = USED.load(Ordering::Relaxed);
    PEAK.store(base, Ordering::Relaxed);
    let r = f();
    (r, PEAK.load(Ordering::Relaxed).saturating_sub(base))
}
