//! Façade of `std::thread`: virtual threads under the controlled scheduler.
pub use ::std::thread::*;
use crate::rt::{self, Cond, Req};
use ::std::io;
use ::std::num::NonZeroUsize;
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(usize);
#[derive(Clone, Debug)]
pub struct Thread { t: usize, name: Option<String> }
impl Thread {
    pub fn id(&self) -> ThreadId { ThreadId(self.t) }
    pub fn name(&self) -> Option<&str> { self.name.as_deref() }
    pub fn unpark(&self) {
        if !rt::active() { return; }
        let o = rt::lock().threads[self.t].park_obj;
        let mut w = rt::point(Req::new("unpark", o));
        w.threads[self.t].park_token = true;
    }
}
pub struct JoinHandle<T> { t: usize, th: Thread, slot: Arc<Mutex<Option<Result<T>>>> }
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        let o = rt::lock().threads[self.t].obj;
        drop(rt::point(Req::new("join", o).cond(Cond::Finished(self.t))));
        let r = self.slot.lock().unwrap_or_else(|e| e.into_inner()).take();
        r.expect("thread result")
    }
    pub fn is_finished(&self) -> bool {
        let o = rt::lock().threads[self.t].obj;
        let w = rt::point(Req::new("is_finished", o).ro());
        w.threads[self.t].finished
    }
    pub fn thread(&self) -> &Thread { &self.th }
}
impl<T> ::std::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("JoinHandle { .. }") } }

#[derive(Debug, Default)]
pub struct Builder { name: Option<String> }
impl Builder {
    pub fn new() -> Builder { Builder { name: None } }
    pub fn name(mut self, n: String) -> Builder { self.name = Some(n); self }
    pub fn stack_size(self, _: usize) -> Builder { self }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
        Ok(unsafe { spawn_raw(f, self.name, false) })
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope {
        let h = unsafe { spawn_raw(f, self.name, false) };
        s.ts.lock().unwrap().push(h.t);
        Ok(ScopedJoinHandle(h, ::std::marker::PhantomData))
    }
}
/// Safety: the closure must outlive the thread (guaranteed by 'static or by a scope).
pub(crate) unsafe fn spawn_raw<F, T>(f: F, name: Option<String>, harness: bool) -> JoinHandle<T> where F: FnOnce() -> T + Send, T: Send {
    let me = rt::tid().expect("façade thread spawned outside the model");
    let slot: Arc<Mutex<Option<Result<T>>>> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let (t, ep) = {
        let mut w = rt::lock();
        let t = rt::new_thread(&mut w, Some(me), name.clone());
        w.threads[t].harness = harness;
        let o = w.threads[t].obj;
        w.touch(me, "spawn", o, false);
        (t, w.epoch)
    };
    let body = move || {
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
        *s2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
    };
    let body: Box<dyn FnOnce() + Send + '_> = Box::new(body);
    let body: Box<dyn FnOnce() + Send + 'static> = ::std::mem::transmute(body);
    let h = ::std::thread::Builder::new().stack_size(1 << 20).spawn(move || rt::thread_main(ep, t, body)).expect("os thread");
    rt::lock().threads[t].os = Some(h.thread().clone());
    JoinHandle { t, th: Thread { t, name }, slot }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
    unsafe { spawn_raw(f, None, false) }
}

pub struct Scope<'scope, 'env: 'scope> {
    ts: Mutex<Vec<usize>>,
    _s: ::std::marker::PhantomData<&'scope mut &'scope ()>,
    _e: ::std::marker::PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T>(JoinHandle<T>, ::std::marker::PhantomData<&'scope ()>);
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Result<T> { self.0.join() }
    pub fn is_finished(&self) -> bool { self.0.is_finished() }
    pub fn thread(&self) -> &Thread { self.0.thread() }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T> where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope {
        Builder::new().spawn_scoped(self, f).unwrap()
    }
}
pub fn scope<'env, F, T>(f: F) -> T where F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T {
    let s = Scope { ts: Mutex::new(vec![]), _s: ::std::marker::PhantomData, _e: ::std::marker::PhantomData };
    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| f(unsafe { ::std::mem::transmute::<&Scope, &Scope>(&s) })));
    let mut i = 0;
    loop {
        let t = match s.ts.lock().unwrap().get(i) { Some(t) => *t, None => break };
        let o = rt::lock().threads[t].obj;
        drop(rt::point(Req::new("join", o).cond(Cond::Finished(t))));
        i += 1;
    }
    match r { Ok(t) => t, Err(e) => ::std::panic::resume_unwind(e) }
}

pub fn current() -> Thread {
    match rt::tid() {
        Some(t) => Thread { t, name: rt::lock().threads[t].name.clone() },
        None => Thread { t: usize::MAX, name: None },
    }
}
pub fn park() { park_int(None) }
pub fn park_timeout(d: Duration) { park_int(Some(d)) }
fn park_int(d: Option<Duration>) {
    let Some(me) = rt::tid() else { panic!("façade park outside the model") };
    let (o, dl) = { let w = rt::lock(); (w.threads[me].park_obj, d.and_then(|d| w.deadline(d))) };
    let mut w = rt::point(Req::new("park", o).cond(Cond::ParkToken(me)).deadline(dl));
    let tok = w.threads[me].park_token;
    w.threads[me].park_token = false;
    w.note(me, tok as u64);
}
pub fn sleep(d: Duration) {
    if !rt::active() { return ::std::thread::sleep(d); }
    let dl = rt::lock().deadline(d);
    drop(rt::point(Req::new("sleep", rt::NOOBJ).cond(Cond::Never).deadline(dl)));
}
pub fn yield_now() {
    if !rt::active() { return ::std::thread::yield_now(); }
    let mut r = Req::new("yield", rt::NOOBJ);
    r.yielding = true;
    drop(rt::point(r));
}
pub fn available_parallelism() -> io::Result<NonZeroUsize> {
    if !rt::active() { return Ok(NonZeroUsize::new(1).unwrap()); }
    match rt::lock().cfg.ncpu {
        0 => Err(io::Error::from(io::ErrorKind::Unsupported)),
        n => Ok(NonZeroUsize::new(n).unwrap()),
    }
}

#[allow(non_snake_case)]
pub fn sleep_ms(ms: u32) { sleep(Duration::from_millis(ms as u64)) }
pub fn sleep_until(t: crate::time::Instant) { sleep(t.saturating_duration_since(crate::time::Instant::now())) }
