//! Allocation monitor: counts live and peak bytes requested by the current thread, so that a check can
//! compare what one call allocated with the size of its input.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Monitor;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            let _ = CALLS.try_with(|c| c.set(c.get() + 1));
            let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
        }
    });
}

// SAFETY: defers to the system allocator; only counters are added.
unsafe impl GlobalAlloc for Monitor {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

/// Runs `f` and returns its result with (peak live bytes above the start, allocation calls).
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let start = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(start));
    let calls = CALLS.with(Cell::get);
    let r = f();
    let peak = PEAK.with(Cell::get) - start;
    (r, peak.max(0) as u64, CALLS.with(Cell::get) - calls)
}

/// Runs `f` and returns its result with (bytes allocated in all, allocation calls).
pub fn measured_total<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let (total, calls) = (TOTAL.with(Cell::get), CALLS.with(Cell::get));
    let r = f();
    (r, TOTAL.with(Cell::get) - total, CALLS.with(Cell::get) - calls)
}
