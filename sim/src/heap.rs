//! The memory allocator behind a seam: what the code under test takes from the heap is counted, and a
//! region of code can be declared one in which no heap is left.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;
#[global_allocator]
static A: Counting = Counting;

thread_local! {
    static ZONE: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn add(n: i64, call: bool) {
    if ZONE.try_with(|z| z.get()).unwrap_or(false) {
        let l = LIVE.with(|l| {
            l.set(l.get() + n);
            l.get()
        });
        PEAK.with(|p| p.set(p.get().max(l)));
        if call {
            CALLS.with(|c| c.set(c.get() + 1));
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, true);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), false);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, true);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64, true);
        System.realloc(p, l, n)
    }
}

/// Forgets what was counted so far.
pub fn reset() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
}
/// Bytes taken in counted code and not given back in counted code.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// The most that was taken at any moment since `reset`.
pub fn peak() -> i64 {
    PEAK.with(|l| l.get())
}
struct Out(bool);
impl Drop for Out {
    fn drop(&mut self) {
        ZONE.with(|z| z.set(self.0));
    }
}
/// Counts what `f` takes from the heap; the number of requests.
pub fn counted<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = CALLS.with(|c| c.get());
    let t = {
        let _o = Out(ZONE.with(|z| z.replace(true)));
        crate::engine::lib(f)
    };
    (t, CALLS.with(|c| c.get()) - before)
}
/// Takes up an interrupted count again.
pub fn restore(live: i64, peak: i64) {
    LIVE.with(|l| l.set(live));
    PEAK.with(|l| l.set(peak));
}
