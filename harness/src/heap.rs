//! A global allocator which counts what a thread asks of it while it is being watched.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn note(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            CALLS.with(|c| c.set(c.get() + 1));
            BYTES.with(|c| c.set(c.get() + n as u64));
        }
    });
}

// SAFETY: everything is passed on to the system allocator unchanged.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

/// Run `f`; returns its result and how many allocations (and bytes) it made on this thread.
pub fn watch<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|c| c.set(false));
        }
    }
    CALLS.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    let off = Off;
    ON.with(|c| c.set(true));
    let r = f();
    drop(off);
    (r, CALLS.with(|c| c.get()), BYTES.with(|c| c.get()))
}
