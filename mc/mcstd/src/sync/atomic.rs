//! Façade of `std::sync::atomic`: sequentially consistent, every access a scheduling point.
pub use ::std::sync::atomic::*;
use ::std::sync::atomic as sa;
use crate::rt::{self, ObjCell, ObjData, Req};
use ::std::fmt;

macro_rules! common {
    ($name:ident, $t:ty, $real:ident) => {
        pub struct $name { id: ObjCell, v: sa::$real, init: $t }
        impl $name {
            pub const fn new(v: $t) -> $name { $name { id: ObjCell::new(), v: sa::$real::new(v), init: v } }
            fn op<R>(&self, code: &'static str, ro: bool, f: impl FnOnce(&sa::$real) -> R) -> R where R: Clone {
                if !rt::active() { return f(&self.v); }
                let o = {
                    let mut w = rt::lock();
                    let (o, stale) = self.id.get(&mut w, "atomic", || ObjData::Plain);
                    if stale { self.v.store(self.init, sa::Ordering::SeqCst); }
                    o
                };
                let mut r = Req::new(code, o);
                if ro { r = r.ro(); }
                let _w = rt::point(r);
                f(&self.v)
            }
            pub fn load(&self, _o: Ordering) -> $t { self.op("load", true, |v| v.load(Ordering::SeqCst)) }
            pub fn store(&self, x: $t, _o: Ordering) { self.op("store", false, |v| v.store(x, Ordering::SeqCst)) }
            pub fn swap(&self, x: $t, _o: Ordering) -> $t { self.op("swap", false, |v| v.swap(x, Ordering::SeqCst)) }
            pub fn compare_exchange(&self, a: $t, b: $t, _s: Ordering, _f: Ordering) -> Result<$t, $t> {
                self.op("cas", false, |v| v.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst))
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.compare_exchange(a, b, s, f) }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _s: Ordering, _f: Ordering, mut f: F) -> Result<$t, $t> {
                self.op("update", false, |v| { let c = v.load(Ordering::SeqCst); match f(c) { Some(n) => { v.store(n, Ordering::SeqCst); Ok(c) } None => Err(c) } })
            }
            pub fn get_mut(&mut self) -> &mut $t { self.v.get_mut() }
            pub fn into_inner(self) -> $t { self.v.into_inner() }
        }
        impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.v.fmt(f) } }
        impl From<$t> for $name { fn from(v: $t) -> $name { $name::new(v) } }
        impl Default for $name { fn default() -> $name { $name::new(Default::default()) } }
    };
}
macro_rules! ints {
    ($($name:ident $t:ty),*) => { $(
        common!($name, $t, $name);
        impl $name {
            pub fn fetch_add(&self, x: $t, _o: Ordering) -> $t { self.op("add", false, |v| v.fetch_add(x, Ordering::SeqCst)) }
            pub fn fetch_sub(&self, x: $t, _o: Ordering) -> $t { self.op("sub", false, |v| v.fetch_sub(x, Ordering::SeqCst)) }
            pub fn fetch_max(&self, x: $t, _o: Ordering) -> $t { self.op("max", false, |v| v.fetch_max(x, Ordering::SeqCst)) }
            pub fn fetch_min(&self, x: $t, _o: Ordering) -> $t { self.op("min", false, |v| v.fetch_min(x, Ordering::SeqCst)) }
            pub fn fetch_and(&self, x: $t, _o: Ordering) -> $t { self.op("and", false, |v| v.fetch_and(x, Ordering::SeqCst)) }
            pub fn fetch_or(&self, x: $t, _o: Ordering) -> $t { self.op("or", false, |v| v.fetch_or(x, Ordering::SeqCst)) }
            pub fn fetch_xor(&self, x: $t, _o: Ordering) -> $t { self.op("xor", false, |v| v.fetch_xor(x, Ordering::SeqCst)) }
            pub fn fetch_nand(&self, x: $t, _o: Ordering) -> $t { self.op("nand", false, |v| v.fetch_nand(x, Ordering::SeqCst)) }
        }
    )* };
}
ints!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32, AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8);
common!(AtomicBool, bool, AtomicBool);
impl AtomicBool {
    pub fn fetch_and(&self, x: bool, _o: Ordering) -> bool { self.op("and", false, |v| v.fetch_and(x, Ordering::SeqCst)) }
    pub fn fetch_or(&self, x: bool, _o: Ordering) -> bool { self.op("or", false, |v| v.fetch_or(x, Ordering::SeqCst)) }
    pub fn fetch_xor(&self, x: bool, _o: Ordering) -> bool { self.op("xor", false, |v| v.fetch_xor(x, Ordering::SeqCst)) }
    pub fn fetch_nand(&self, x: bool, _o: Ordering) -> bool { self.op("nand", false, |v| v.fetch_nand(x, Ordering::SeqCst)) }
    pub fn fetch_not(&self, _o: Ordering) -> bool { self.op("not", false, |v| v.fetch_xor(true, Ordering::SeqCst)) }
}
