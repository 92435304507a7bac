//! A counting allocator: net number of bytes allocated by the current thread.
//! Used to decide whether a dropped document left something behind.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! { static NET: Cell<i64> = const { Cell::new(0) }; }

pub struct Counting;

fn add(n: i64) { let _ = NET.try_with(|c| c.set(c.get() + n)); }

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { add(l.size() as i64); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { add(l.size() as i64); }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { add(n as i64 - l.size() as i64); }
        q
    }
}

pub fn net_bytes() -> i64 { NET.with(|c| c.get()) }
