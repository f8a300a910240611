//! Façade of `std::sync`: every lock, channel and atomic operation is a scheduling point.
pub use ::std::sync::*;
use crate::rt::{self, Cond, ObjCell, ObjData, Req, World};
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as ss;
use ::std::time::Duration;

pub mod atomic;
pub mod mpsc;

fn map_err<G, H>(r: ss::LockResult<G>, f: impl FnOnce(G) -> H) -> ss::LockResult<H> {
    match r {
        Ok(g) => Ok(f(g)),
        Err(e) => Err(PoisonError::new(f(e.into_inner()))),
    }
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    id: ObjCell,
    inner: ss::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    inner: Option<ss::MutexGuard<'a, T>>,
    m: &'a Mutex<T>,
    o: u32,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { id: ObjCell::new(), inner: ss::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
}
impl<T: ?Sized> Mutex<T> {
    fn obj(&self) -> u32 {
        let mut w = rt::lock();
        self.id.get(&mut w, "mutex", || ObjData::Mutex { owner: None }).0
    }
    fn wrap<'a>(&'a self, o: u32) -> LockResult<MutexGuard<'a, T>> {
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard { inner: Some(g), m: self, o }),
            Err(TryLockError::Poisoned(p)) => Err(PoisonError::new(MutexGuard { inner: Some(p.into_inner()), m: self, o })),
            Err(TryLockError::WouldBlock) => panic!("façade mutex: inner lock taken"),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if !rt::active() {
            return map_err(self.inner.lock(), |g| MutexGuard { inner: Some(g), m: self, o: rt::NOOBJ });
        }
        let o = self.obj();
        let mut w = rt::point(Req::new("lock", o).cond(Cond::MutexFree(o)));
        take_mutex(&mut w, o);
        drop(w);
        held(o);
        self.wrap(o)
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if !rt::active() {
            return match self.inner.try_lock() {
                Ok(g) => Ok(MutexGuard { inner: Some(g), m: self, o: rt::NOOBJ }),
                Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { inner: Some(p.into_inner()), m: self, o: rt::NOOBJ }))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            };
        }
        let o = self.obj();
        let mut w = rt::point(Req::new("try_lock", o));
        tried(&mut w);
        let free = matches!(w.objs[o as usize].data, ObjData::Mutex { owner: None });
        let me = rt::tid().unwrap();
        w.note(me, free as u64);
        if !free { return Err(TryLockError::WouldBlock); }
        take_mutex(&mut w, o);
        drop(w);
        held(o);
        self.wrap(o).map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
    pub fn clear_poison(&self) { self.inner.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
}
/// Where some lock is only tried for, being in possession of one shows: a point of its own.
fn held(o: u32) { if rt::try_points() { drop(rt::point(Req::new("held", o))) } }
fn tried(w: &mut World) { if !rt::try_points() { *w.tags.entry(rt::TRIES).or_insert(0) += 1; } }
fn take_mutex(w: &mut World, o: u32) {
    let me = rt::tid();
    if let ObjData::Mutex { owner } = &mut w.objs[o as usize].data { *owner = me; }
}
fn release_mutex(o: u32, code: &'static str) {
    if let Some(me) = rt::tid() {
        let mut w = rt::lock();
        w.touch(me, code, o, false);
        if let ObjData::Mutex { owner } = &mut w.objs[o as usize].data { *owner = None; }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if self.inner.take().is_some() && self.o != rt::NOOBJ { release_mutex(self.o, "unlock"); }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T { self.inner.as_ref().unwrap() }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T { self.inner.as_mut().unwrap() }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }

// ---------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> {
    id: ObjCell,
    inner: ss::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> { inner: Option<ss::RwLockReadGuard<'a, T>>, o: u32 }
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> { inner: Option<ss::RwLockWriteGuard<'a, T>>, o: u32 }
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> { RwLock { id: ObjCell::new(), inner: ss::RwLock::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
}
impl<T: ?Sized> RwLock<T> {
    fn obj(&self) -> u32 {
        let mut w = rt::lock();
        self.id.get(&mut w, "rwlock", || ObjData::Rw { writer: None, readers: 0, queued: 0 }).0
    }
    fn wrap_r(&self, o: u32) -> LockResult<RwLockReadGuard<'_, T>> {
        match self.inner.try_read() {
            Ok(g) => Ok(RwLockReadGuard { inner: Some(g), o }),
            Err(TryLockError::Poisoned(p)) => Err(PoisonError::new(RwLockReadGuard { inner: Some(p.into_inner()), o })),
            Err(TryLockError::WouldBlock) => panic!("façade rwlock: inner lock taken"),
        }
    }
    fn wrap_w(&self, o: u32) -> LockResult<RwLockWriteGuard<'_, T>> {
        match self.inner.try_write() {
            Ok(g) => Ok(RwLockWriteGuard { inner: Some(g), o }),
            Err(TryLockError::Poisoned(p)) => Err(PoisonError::new(RwLockWriteGuard { inner: Some(p.into_inner()), o })),
            Err(TryLockError::WouldBlock) => panic!("façade rwlock: inner lock taken"),
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if !rt::active() { return map_err(self.inner.read(), |g| RwLockReadGuard { inner: Some(g), o: rt::NOOBJ }); }
        let o = self.obj();
        let mut w = rt::point(Req::new("rlock", o).cond(Cond::RwNoWriter(o)));
        if let ObjData::Rw { readers, .. } = &mut w.objs[o as usize].data { *readers += 1; }
        drop(w);
        held(o);
        self.wrap_r(o)
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if !rt::active() { return map_err(self.inner.write(), |g| RwLockWriteGuard { inner: Some(g), o: rt::NOOBJ }); }
        let o = self.obj();
        let me = rt::tid();
        let mut w = rt::point(Req::new("wlock", o));
        let mut got = false;
        if let ObjData::Rw { writer, readers, queued } = &mut w.objs[o as usize].data {
            if writer.is_none() && *readers == 0 { *writer = me; got = true; } else { *queued += 1; }
        }
        drop(w);
        if !got {
            let mut w = rt::point(Req::new("wlock wait", o).cond(Cond::RwFree(o)));
            if let ObjData::Rw { writer, queued, .. } = &mut w.objs[o as usize].data { *writer = me; *queued -= 1; }
        }
        held(o);
        self.wrap_w(o)
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if !rt::active() {
            return match self.inner.try_read() {
                Ok(g) => Ok(RwLockReadGuard { inner: Some(g), o: rt::NOOBJ }),
                Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard { inner: Some(p.into_inner()), o: rt::NOOBJ }))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            };
        }
        let o = self.obj();
        let mut w = rt::point(Req::new("try_rlock", o));
        tried(&mut w);
        let mut ok = false;
        if let ObjData::Rw { writer, readers, queued } = &mut w.objs[o as usize].data {
            if writer.is_none() && *queued == 0 { *readers += 1; ok = true; }
        }
        w.note(rt::tid().unwrap(), ok as u64);
        drop(w);
        if ok { held(o); self.wrap_r(o).map_err(TryLockError::Poisoned) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if !rt::active() {
            return match self.inner.try_write() {
                Ok(g) => Ok(RwLockWriteGuard { inner: Some(g), o: rt::NOOBJ }),
                Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard { inner: Some(p.into_inner()), o: rt::NOOBJ }))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            };
        }
        let o = self.obj();
        let me = rt::tid();
        let mut w = rt::point(Req::new("try_wlock", o));
        tried(&mut w);
        let mut ok = false;
        if let ObjData::Rw { writer, readers, .. } = &mut w.objs[o as usize].data {
            if writer.is_none() && *readers == 0 { *writer = me; ok = true; }
        }
        w.note(me.unwrap(), ok as u64);
        drop(w);
        if ok { held(o); self.wrap_w(o).map_err(TryLockError::Poisoned) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
    pub fn clear_poison(&self) { self.inner.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        if self.inner.take().is_some() && self.o != rt::NOOBJ {
            if let Some(me) = rt::tid() {
                let mut w = rt::lock();
                w.touch(me, "runlock", self.o, false);
                if let ObjData::Rw { readers, .. } = &mut w.objs[self.o as usize].data { *readers -= 1; }
            }
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if self.inner.take().is_some() && self.o != rt::NOOBJ {
            if let Some(me) = rt::tid() {
                let mut w = rt::lock();
                w.touch(me, "wunlock", self.o, false);
                if let ObjData::Rw { writer, .. } = &mut w.objs[self.o as usize].data { *writer = None; }
            }
        }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.inner.as_ref().unwrap() } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.inner.as_ref().unwrap() } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.inner.as_mut().unwrap() } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) } }
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }

// ---------------------------------------------------------------- Condvar
pub struct Condvar { id: ObjCell }
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
impl Condvar {
    pub const fn new() -> Condvar { Condvar { id: ObjCell::new() } }
    fn obj(&self) -> u32 {
        let mut w = rt::lock();
        self.id.get(&mut w, "condvar", || ObjData::Cv { waiters: vec![] }).0
    }
    fn wait_int<'a, T: ?Sized>(&self, mut g: MutexGuard<'a, T>, d: Option<Duration>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        assert!(rt::active(), "façade condvar used outside the model");
        let o = self.obj();
        let me = rt::tid().unwrap();
        let m = g.m;
        let mo = g.o;
        let deadline;
        {
            let mut w = rt::lock();
            w.touch(me, "cv register", o, false);
            if let ObjData::Cv { waiters } = &mut w.objs[o as usize].data { waiters.push((me, false)); }
            deadline = d.and_then(|d| w.deadline(d));
        }
        g.inner = None;
        release_mutex(mo, "cv unlock");
        drop(g);
        let mut w = rt::point(Req::new("cv wait", o).cond(Cond::CvNotified(o, me)).deadline(deadline));
        let mut notified = false;
        if let ObjData::Cv { waiters } = &mut w.objs[o as usize].data {
            if let Some(p) = waiters.iter().position(|x| x.0 == me) { notified = waiters[p].1; waiters.remove(p); }
        }
        w.note(me, notified as u64);
        drop(w);
        let mut w = rt::point(Req::new("cv relock", mo).cond(Cond::MutexFree(mo)));
        take_mutex(&mut w, mo);
        drop(w);
        (m.wrap(mo), !notified)
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> { self.wait_int(g, None).0 }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) { g = self.wait(g)?; }
        Ok(g)
    }
    pub fn wait_timeout_ms<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, ms: u32) -> LockResult<(MutexGuard<'a, T>, bool)> {
        map_err(self.wait_timeout(g, Duration::from_millis(ms as u64)), |(g, r)| (g, r.timed_out()))
    }
    pub fn wait_timeout<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (r, t) = self.wait_int(g, Some(d));
        map_err(r, |g| (g, WaitTimeoutResult(t)))
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let start = crate::time::Instant::now();
        loop {
            if !f(&mut *g) { return Ok((g, WaitTimeoutResult(false))); }
            let left = match d.checked_sub(start.elapsed()) { Some(l) if l > Duration::ZERO => l, _ => return Ok((g, WaitTimeoutResult(true))) };
            g = self.wait_timeout(g, left)?.0;
        }
    }
    pub fn notify_one(&self) { self.notify(false) }
    pub fn notify_all(&self) { self.notify(true) }
    fn notify(&self, all: bool) {
        if !rt::active() { return; }
        let o = self.obj();
        let mut w = rt::point(Req::new("notify", o));
        if let ObjData::Cv { waiters } = &mut w.objs[o as usize].data {
            for x in waiters.iter_mut().filter(|x| !x.1) { x.1 = true; if !all { break; } }
        }
    }
}
impl Default for Condvar { fn default() -> Self { Condvar::new() } }
impl fmt::Debug for Condvar { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Condvar") } }

// ---------------------------------------------------------------- Barrier
pub struct Barrier { m: Mutex<(usize, usize)>, cv: Condvar, n: usize }
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult { pub fn is_leader(&self) -> bool { self.0 } }
impl Barrier {
    pub const fn new(n: usize) -> Barrier { Barrier { m: Mutex::new((0, 0)), cv: Condvar::new(), n } }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen { g = self.cv.wait(g).unwrap(); }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}

/// `OnceLock`: the cell is the real one, the initialization is serialized by a façade lock.
pub struct OnceLock<T> { m: Mutex<()>, v: ss::OnceLock<T> }
impl<T> OnceLock<T> {
    pub const fn new() -> OnceLock<T> { OnceLock { m: Mutex::new(()), v: ss::OnceLock::new() } }
    pub fn get(&self) -> Option<&T> { self.v.get() }
    pub fn get_mut(&mut self) -> Option<&mut T> { self.v.get_mut() }
    pub fn set(&self, t: T) -> Result<(), T> {
        let _g = self.m.lock();
        self.v.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if let Some(v) = self.v.get() { return v; }
        let _g = self.m.lock();
        if let Some(v) = self.v.get() { return v; }
        let x = f();
        self.v.get_or_init(move || x)
    }
    pub fn into_inner(self) -> Option<T> { self.v.into_inner() }
    pub fn take(&mut self) -> Option<T> { self.v.take() }
}
impl<T> Default for OnceLock<T> { fn default() -> Self { Self::new() } }
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.v.fmt(f) } }
impl<T: Clone> Clone for OnceLock<T> { fn clone(&self) -> Self { OnceLock { m: Mutex::new(()), v: self.v.clone() } } }
impl<T> From<T> for OnceLock<T> { fn from(t: T) -> Self { OnceLock { m: Mutex::new(()), v: ss::OnceLock::from(t) } } }

/// `LazyLock` over the façade's `OnceLock`.
pub struct LazyLock<T, F = fn() -> T> { c: OnceLock<T>, f: ss::Mutex<Option<F>> }
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> LazyLock<T, F> { LazyLock { c: OnceLock::new(), f: ss::Mutex::new(Some(f)) } }
    pub fn force(t: &LazyLock<T, F>) -> &T {
        t.c.get_or_init(|| {
            let f = t.f.lock().unwrap().take();
            match f { Some(f) => f(), None => panic!("LazyLock instance has previously been poisoned") }
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { Self::force(self) } }

/// `Once` over the façade's lock.
pub struct Once(OnceLock<()>);
impl Once {
    pub const fn new() -> Once { Once(OnceLock::new()) }
    pub fn call_once<F: FnOnce()>(&self, f: F) { self.0.get_or_init(f); }
    pub fn is_completed(&self) -> bool { self.0.get().is_some() }
}
