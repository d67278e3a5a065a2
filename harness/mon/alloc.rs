//! Counting global allocator: the resource monitor of C02 and the runaway guard of every property.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
/// Allocation beyond this much live memory is refused, so that a runaway load aborts here
/// instead of exhausting the machine.
pub const CAP: usize = 1 << 30;

fn add(n: usize) -> bool {
    CALLS.fetch_add(1, Relaxed);
    let live = LIVE.fetch_add(n, Relaxed).saturating_add(n);
    if live > CAP {
        LIVE.fetch_sub(n, Relaxed);
        // What was asked for still counts as the peak.
        PEAK.fetch_max(live, Relaxed);
        return false;
    }
    PEAK.fetch_max(live, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // Counted as a copying move: both blocks are live for a moment.
        if !add(new) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        LIVE.fetch_sub(if q.is_null() { new } else { l.size() }, Relaxed);
        q
    }
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn calls() -> usize {
    CALLS.load(Relaxed)
}
/// Restarts peak tracking and returns the present level.
pub fn reset_peak() -> usize {
    let l = live();
    PEAK.store(l, Relaxed);
    l
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
