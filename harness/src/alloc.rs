//! Allocator that counts what the current thread holds
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    /// bytes now, peak since `measure` began, bytes at which allocation fails
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static STOP: Cell<isize> = const { Cell::new(isize::MAX) };
}
pub struct Counting;
/// false if the allocation shall fail
fn add(n: isize) -> bool {
    let Ok(now) = NOW.try_with(|c| {
        c.set(c.get() + n);
        c.get()
    }) else {
        return true;
    };
    if n > 0 {
        let _ = PEAK.try_with(|p| p.set(p.get().max(now)));
        if STOP.try_with(|s| now > s.get()).unwrap_or(false) {
            let _ = NOW.try_with(|c| c.set(c.get() - n));
            return false;
        }
    }
    true
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if add(l.size() as isize) { System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if add(l.size() as isize) { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if add(n as isize - l.size() as isize) { System.realloc(p, l, n) } else { std::ptr::null_mut() }
    }
}
/// result and the most memory that was held at a time beyond what was held before;
/// allocations that lead to more than `stop` fail, which ends the process unless the caller handles it
pub fn measure<T>(stop: usize, f: impl FnOnce() -> T) -> (T, usize) {
    let base = NOW.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    STOP.with(|s| s.set(base + stop as isize));
    let r = f();
    STOP.with(|s| s.set(isize::MAX));
    (r, (PEAK.with(|p| p.get()) - base) as usize)
}
