//! An allocator that counts the bytes requested by the current thread: a
//! deterministic measure of work (C21), and a stop for runaway cases.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

fn count(n: usize) {
    let _ = BYTES.try_with(|b| {
        let t = b.get().wrapping_add(n as u64);
        b.set(t);
        if t > LIMIT.try_with(|l| l.get()).unwrap_or(u64::MAX) {
            // a panic cannot leave an allocator; the parent attributes the abort
            unsafe { libc::abort() }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n);
        System.realloc(p, l, n)
    }
}

struct Reset;
impl Drop for Reset {
    fn drop(&mut self) {
        LIMIT.with(|l| l.set(u64::MAX));
    }
}

/// Bytes requested by `f` on this thread; the process aborts beyond `limit`.
pub fn measure<T>(limit: u64, f: impl FnOnce() -> T) -> (T, u64) {
    let before = BYTES.with(|b| b.get());
    let _reset = Reset;
    LIMIT.with(|l| l.set(before.saturating_add(limit)));
    let r = f();
    (r, BYTES.with(|b| b.get()) - before)
}
