//! Counting allocator: live and peak heap bytes, per thread that asked for it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

/// Live bytes of one thread above this are reported as runaway memory use.
const RUNAWAY: isize = 1 << 30;
static GONE: AtomicBool = AtomicBool::new(false);

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
/// Largest single allocation request ever seen (any thread)
pub static MAX_SINGLE: AtomicUsize = AtomicUsize::new(0);

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if v > RUNAWAY && !GONE.swap(true, Ordering::SeqCst) {
            crate::core::runaway(v);
        }
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MAX_SINGLE.fetch_max(l.size(), Ordering::Relaxed);
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        MAX_SINGLE.fetch_max(l.size(), Ordering::Relaxed);
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        MAX_SINGLE.fetch_max(new, Ordering::Relaxed);
        // the old and the new block may exist at the same time
        add(new as isize);
        let r = System.realloc(p, l, new);
        add(-(l.size() as isize));
        r
    }
}

/// Live heap bytes of this thread.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

/// Run `f` and return its result with the peak of live heap bytes of this thread above the start.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let start = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(start));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - start).max(0) as usize)
}
