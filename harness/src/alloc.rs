//! Records the largest single allocation each thread asks for, so that a hostile length field that
//! makes the code reserve gigabytes is seen before it ends the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
}
fn note(n: usize) {
    if n > 1 << 20 {
        let _ = MAX.try_with(|m| {
            if n > m.get() {
                m.set(n)
            }
        });
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
/// Runs `f` and returns its result with the largest single allocation over 1 MiB it asked for (0: none).
pub fn largest<T>(f: impl FnOnce() -> T) -> (T, usize) {
    MAX.with(|m| m.set(0));
    let r = f();
    (r, MAX.with(|m| m.get()))
}
