//! A counting allocator: per-thread current, peak and largest request while armed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::Relaxed};

pub struct Counting;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

/// Whether to count the memory of the whole process.
static WATCHED: AtomicBool = AtomicBool::new(false);
static NET: AtomicIsize = AtomicIsize::new(0);

fn add(n: usize) {
    if WATCHED.load(Relaxed) {
        NET.fetch_add(n as isize, Relaxed);
    }
    if ARMED.get() {
        let c = CUR.get() + n as isize;
        CUR.set(c);
        if c > PEAK.get() {
            PEAK.set(c);
        }
        if n > LARGEST.get() {
            LARGEST.set(n);
        }
    }
}
fn sub(n: usize) {
    if WATCHED.load(Relaxed) {
        NET.fetch_sub(n as isize, Relaxed);
    }
    if ARMED.get() {
        CUR.set(CUR.get() - n as isize);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        unsafe { System.realloc(p, l, n) }
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Usage {
    pub peak: usize,
    pub largest: usize,
}

/// Runs `f` and reports the heap use of this thread during it.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    CUR.set(0);
    PEAK.set(0);
    LARGEST.set(0);
    ARMED.set(true);
    let r = f();
    ARMED.set(false);
    (r, Usage { peak: PEAK.get() as usize, largest: LARGEST.get() })
}
/// Disarms after a panic inside `measure`.
pub fn disarm() {
    ARMED.set(false);
}

/// Runs `f` and reports how much more heap memory the process has afterwards.
pub fn remaining<T>(f: impl FnOnce() -> T) -> (T, isize) {
    WATCHED.store(true, Relaxed);
    let before = NET.load(Relaxed);
    let r = f();
    let after = NET.load(Relaxed);
    WATCHED.store(false, Relaxed);
    (r, after - before)
}
