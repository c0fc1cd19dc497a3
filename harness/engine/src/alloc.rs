//! Counting allocator: live and peak bytes per thread, and a cap per case. Deterministic, unlike the system's memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CAP: Cell<isize> = const { Cell::new(isize::MAX) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

fn add(n: isize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 && v > CAP.with(|c| c.get()) {
            return false;
        }
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        if n > 0 {
            BIGGEST.with(|b| {
                if n as usize > b.get() {
                    b.set(n as usize)
                }
            });
        }
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if q.is_null() {
            add(l.size() as isize - n as isize);
        }
        q
    }
}

/// Peak bytes allocated on this thread while `f` runs, over what was live before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}

/// Bytes live on this thread now.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

/// From now on this thread's allocations fail beyond `bytes` over what is live now (the process then aborts).
pub fn cap(bytes: usize) {
    let base = LIVE.with(|l| l.get());
    CAP.with(|c| c.set(base.saturating_add(bytes as isize)));
}
