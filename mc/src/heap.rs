//! What this OS thread has allocated and not yet freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

std::thread_local! {
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}

/// The system allocator, with a count per thread.  All coroutines of a world share one OS thread.
pub struct Counting;

fn add(n: i64, bytes: i64) {
    let _ = LIVE.try_with(|l| {
        let (a, b) = l.get();
        l.set((a + n, b + bytes));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Allocations and bytes alive.
pub fn live() -> (i64, i64) {
    LIVE.with(|l| l.get())
}
