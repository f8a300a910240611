//! Counts the live heap bytes that were not allocated by the façade itself.
use ::std::alloc::{GlobalAlloc, Layout, System};
use ::std::cell::Cell;
use ::std::sync::atomic::{AtomicI64, Ordering::Relaxed};

thread_local! { pub(crate) static DEPTH: Cell<u32> = const { Cell::new(0) }; }
static LIVE: AtomicI64 = AtomicI64::new(0);
pub fn live() -> i64 { LIVE.load(Relaxed) }

pub struct Counting;
fn outer(l: Layout, size: usize) -> (Layout, usize) {
    let a = l.align().max(16);
    (unsafe { Layout::from_size_align_unchecked(size + a, a) }, a)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (o, h) = outer(l, l.size());
        let p = System.alloc(o);
        if p.is_null() { return p; }
        let p = p.add(h);
        let mine = DEPTH.try_with(|d| d.get() == 0).unwrap_or(false);
        *(p.sub(8) as *mut u64) = mine as u64;
        if mine { LIVE.fetch_add(l.size() as i64, Relaxed); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (o, h) = outer(l, l.size());
        if *(p.sub(8) as *mut u64) == 1 { LIVE.fetch_sub(l.size() as i64, Relaxed); }
        System.dealloc(p.sub(h), o)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let (o, h) = outer(l, l.size());
        let mine = *(p.sub(8) as *mut u64) == 1;
        let q = System.realloc(p.sub(h), o, n + h);
        if q.is_null() { return q; }
        if mine { LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed); }
        q.add(h)
    }
}
