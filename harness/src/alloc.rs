//! Counting allocator: per-thread live and peak bytes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering};

pub struct Counting;
thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    /// all bytes ever allocated by this thread
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
pub fn total() -> u64 {
    TOTAL.with(|c| c.get())
}
/// live bytes of the whole process, counted from `watch_all` on
static ALL: AtomicIsize = AtomicIsize::new(0);
static WATCH: AtomicBool = AtomicBool::new(false);
pub fn watch_all() {
    WATCH.store(true, Ordering::SeqCst)
}
pub fn all() -> isize {
    ALL.load(Ordering::SeqCst)
}
/// live bytes on this thread's account
pub fn mine() -> isize {
    CUR.with(|c| c.get())
}
fn add(n: isize) {
    if WATCH.load(Ordering::Relaxed) {
        ALL.fetch_add(n, Ordering::Relaxed);
    }
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if n > 0 {
            let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as isize)
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as isize)
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // both blocks may exist for a moment
            add(n as isize);
            add(-(l.size() as isize));
        }
        q
    }
}
/// bytes by which this thread's live allocation peaked above its level at the start of `f`
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let pk = PEAK.with(|p| p.get());
    (r, (pk - base).max(0) as usize)
}
