//! A counting global allocator: live bytes and high-water mark.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BIG: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);
fn plus(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if (l as isize) > 0 { PEAK.fetch_max(l, Relaxed); }
    BIG.fetch_max(n, Relaxed);
    COUNT.fetch_add(1, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if ON.load(Relaxed) { plus(l.size()) } System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if ON.load(Relaxed) { plus(l.size()) } System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if ON.load(Relaxed) { LIVE.fetch_sub(l.size(), Relaxed); } System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) { LIVE.fetch_sub(l.size(), Relaxed); plus(n) }
        System.realloc(p, l, n)
    }
}
/// Peak of live bytes, largest single request and number of requests while `f` runs (single-threaded use).
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize, usize) {
    LIVE.store(0, Relaxed); PEAK.store(0, Relaxed); BIG.store(0, Relaxed); COUNT.store(0, Relaxed);
    ON.store(true, Relaxed);
    let r = f();
    ON.store(false, Relaxed);
    (r, PEAK.load(Relaxed), BIG.load(Relaxed), COUNT.load(Relaxed))
}
pub fn off() { ON.store(false, Relaxed) }
