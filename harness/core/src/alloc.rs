//! Counting allocator: per-thread live bytes, peak and the largest single request.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = LARGEST.try_with(|l| {
        if n > l.get() {
            l.set(n)
        }
    });
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}

/// Resets the peak and the largest request of this thread
pub fn mark() {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
    LARGEST.with(|l| l.set(0));
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn peak() -> i64 {
    PEAK.with(|l| l.get())
}
pub fn largest() -> usize {
    LARGEST.with(|l| l.get())
}
