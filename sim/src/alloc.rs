//! The allocator seam: accounts the bytes held by the code under test and injects allocation
//! failures. Only allocations made while the current thread is "tracked" (inside a call into the
//! code under test, outside the simulated transports) are accounted or failed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static FAIL_MIN: Cell<usize> = const { Cell::new(usize::MAX) };
    static FAIL_NTH: Cell<u64> = const { Cell::new(0) };
    static SEEN_BIG: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

/// The simulated machine never grants the code under test one request above this size.
pub const MACHINE_LIMIT: usize = 1 << 26;
/// Nor anything, the harness included, one above this.
const ANY_LIMIT: usize = 1 << 31;

fn admit(size: usize) -> bool {
    let tracked = TRACK.with(|t| t.get());
    if tracked {
        COUNT.with(|c| c.set(c.get() + 1));
    }
    if size > if tracked { MACHINE_LIMIT } else { ANY_LIMIT } {
        REFUSED.with(|c| c.set(c.get() + 1));
        return false;
    }
    if tracked && size >= FAIL_MIN.with(|c| c.get()) {
        let n = SEEN_BIG.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if n == FAIL_NTH.with(|c| c.get()) {
            FAILED.with(|c| c.set(c.get() + 1));
            return false;
        }
    }
    true
}

fn account(delta: i64) {
    if TRACK.with(|t| t.get()) {
        let cur = CUR.with(|c| {
            c.set(c.get() + delta);
            c.get()
        });
        PEAK.with(|p| {
            if cur > p.get() {
                p.set(cur)
            }
        });
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !admit(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            account(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !admit(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            account(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !admit(new) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            account(new as i64 - l.size() as i64);
        }
        q
    }
}

/// Restores the previous tracking state when dropped (also on unwinding).
pub struct Guard(bool);
impl Drop for Guard {
    fn drop(&mut self) {
        TRACK.with(|t| t.set(self.0));
    }
}
pub fn track() -> Guard {
    Guard(TRACK.with(|t| t.replace(true)))
}
pub fn mute() -> Guard {
    Guard(TRACK.with(|t| t.replace(false)))
}
pub fn reset() {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    SEEN_BIG.with(|c| c.set(0));
    FAILED.with(|c| c.set(0));
    REFUSED.with(|c| c.set(0));
    COUNT.with(|c| c.set(0));
    FAIL_MIN.with(|c| c.set(usize::MAX));
    FAIL_NTH.with(|c| c.set(0));
}
/// Fail the `nth` (1-based) tracked allocation of at least `min` bytes.
pub fn fail(min: usize, nth: u64) {
    FAIL_MIN.with(|c| c.set(min));
    FAIL_NTH.with(|c| c.set(nth));
}
pub fn current() -> i64 {
    CUR.with(|c| c.get())
}
pub fn peak() -> i64 {
    PEAK.with(|c| c.get())
}
pub fn failed() -> u64 {
    FAILED.with(|c| c.get())
}
pub fn refused() -> u64 {
    REFUSED.with(|c| c.get())
}
/// Allocations (and reallocations) the code under test asked for.
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
