//! The controlled scheduler: virtual threads (real OS threads that pass a baton), virtual time,
//! recorded choices, happens-before fingerprints.
use ::std::cell::Cell;
use ::std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use ::std::sync::{Mutex, MutexGuard};

use crate::netsim::Net;

pub const NONE: usize = usize::MAX;
pub const NOOBJ: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub struct Config {
    /// reported by available_parallelism
    pub ncpu: usize,
    /// steps after which an execution counts as a livelock
    pub max_steps: u64,
    /// virtual nanoseconds after which an execution counts as hung
    pub max_time: u64,
    /// offer "time passes until the next timer" as a deviation at every scheduling point
    pub timer_dev: bool,
    /// cost of choosing a thread other than the default one when the running thread blocked
    pub switch_cost: u8,
    /// offer preemptions at all
    pub preempt: bool,
    /// offer no scheduling alternatives at all
    pub quiet: bool,
    /// capacity of a socket direction
    pub sock_cap: usize,
    /// reads may return a single byte (deviation)
    pub short_read: bool,
    /// writes may take a single byte (deviation)
    pub short_write: bool,
    /// fault kinds injected as deviations
    pub faults: Vec<Fault>,
    /// the errors (errno) they may bring; none: the usual one of each
    pub fault_errors: &'static [i32],
    /// panics whose message starts with this are expected
    pub expect_panic: &'static str,
    pub verbose: bool,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            ncpu: 1, max_steps: 60_000, max_time: 7_200_000_000_000, timer_dev: false, switch_cost: 0, preempt: true, quiet: false,
            sock_cap: 1 << 20, short_read: false, short_write: false, faults: vec![], fault_errors: &[],
            expect_panic: "expected panic", verbose: false,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    AcceptAborted, AcceptEmfile, AcceptWouldBlock, AcceptIntr, PollerNew, PollerAdd, PollWaitIntr,
    ReadReset, WriteReset, SetNonblock, Dup, Bind, ReadIntr, WriteIntr, SpuriousReady,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    True,
    Never,
    MutexFree(u32),
    RwNoWriter(u32),
    RwFree(u32),
    CvNotified(u32, usize),
    ChanRecv(u32),
    ChanMatched(u32),
    ChanSpace(u32),
    ChanTaken(u32, usize),
    Finished(usize),
    ParkToken(usize),
    SockReadable(usize),
    SockWritable(usize),
    Acceptable(usize),
    Poll(usize),
}

pub struct Req {
    pub code: &'static str,
    pub obj: u32,
    pub ro: bool,
    pub always: bool,
    pub cond: Cond,
    pub deadline: Option<u64>,
    pub yielding: bool,
}
impl Req {
    pub fn new(code: &'static str, obj: u32) -> Req {
        Req { code, obj, ro: false, always: obj == NOOBJ, cond: Cond::True, deadline: None, yielding: false }
    }
    pub fn ro(mut self) -> Req { self.ro = true; self }
    pub fn always(mut self) -> Req { self.always = true; self }
    pub fn cond(mut self, c: Cond) -> Req { self.cond = c; self }
    pub fn deadline(mut self, d: Option<u64>) -> Req { self.deadline = d; self }
}

pub struct Th {
    pub req: Req,
    pub os: Option<::std::thread::Thread>,
    pub name: Option<String>,
    pub finished: bool,
    pub hist: u64,
    pub canon: u64,
    pub contrib: u64,
    pub nspawn: u64,
    pub nops: u64,
    pub park_token: bool,
    pub obj: u32,
    pub park_obj: u32,
    pub harness: bool,
}

#[derive(Debug, Default)]
pub struct ChanSt {
    pub cap: Option<usize>,
    pub len: usize,
    pub senders: usize,
    pub rx_alive: bool,
    pub rx_waiting: bool,
    pub rx_matched: bool,
    pub blocked: ::std::collections::VecDeque<usize>,
}
#[derive(Debug)]
pub enum ObjData {
    Plain,
    Mutex { owner: Option<usize> },
    Rw { writer: Option<usize>, readers: u32, queued: u32 },
    Cv { waiters: Vec<(usize, bool)> },
    Chan(ChanSt),
}
pub struct Obj {
    pub kind: &'static str,
    pub canon: u64,
    pub hist: u64,
    pub first: usize,
    pub shared: bool,
    pub data: ObjData,
}

#[derive(Clone, Copy, Debug)]
pub struct Point {
    pub n: u8,
    pub choice: u8,
    /// alternatives with index >= cost_from (and != 0) cost one deviation
    pub cost_from: u8,
    /// 0: always worth expanding, else canonical id of the object of the running thread's next step
    pub obj: u32,
    pub key: u64,
}

pub struct World {
    pub epoch: u32,
    pub cfg: Config,
    pub threads: Vec<Th>,
    pub now: u64,
    pub steps: u64,
    pub run_len: u64,
    pub spin: u64,
    pub sum: u64,
    pub prefix: Vec<u8>,
    pub expect_key: u64,
    pub trace: Vec<Point>,
    pub objs: Vec<Obj>,
    pub net: Net,
    pub violation: Option<String>,
    pub diverged: Option<String>,
    pub panics: Vec<String>,
    pub outcomes: Vec<String>,
    pub log: Vec<String>,
    pub exit_code: Option<i32>,
    pub done: bool,
    pub fps: u64,
    pub fault_used: ::std::collections::BTreeMap<u32, u32>,
    /// (fault, n, k): the first n chances pass, the next k are taken
    pub plan: Option<(Fault, usize, usize)>,
    pub ferr: Option<i32>,
    pub tags: ::std::collections::BTreeMap<&'static str, u64>,
    pub main: ::std::thread::Thread,
}

static WORLD: Mutex<Option<Box<World>>> = Mutex::new(None);
static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static EPOCH: AtomicU32 = AtomicU32::new(0);
static NEXT_EPOCH: AtomicU32 = AtomicU32::new(1);
/// monotone counter the watchdog looks at
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static LEAKED: AtomicUsize = AtomicUsize::new(0);

::std::thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
    static TEPOCH: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: Cell<bool> = const { Cell::new(false) };
}

/// Index of the calling virtual thread, if the caller is one.
#[inline]
pub fn tid() -> Option<usize> {
    let t = TID.with(|c| c.get());
    if t == NONE { None } else { Some(t) }
}
#[inline]
pub fn active() -> bool { tid().is_some() }
#[inline]
pub fn epoch() -> u32 { EPOCH.load(Relaxed) }

pub struct WGuard(MutexGuard<'static, Option<Box<World>>>);
impl Drop for WGuard {
    fn drop(&mut self) { crate::heapcount::DEPTH.with(|d| d.set(d.get() - 1)); }
}
impl ::std::ops::Deref for WGuard {
    type Target = World;
    fn deref(&self) -> &World { self.0.as_ref().expect("no world") }
}
impl ::std::ops::DerefMut for WGuard {
    fn deref_mut(&mut self) -> &mut World { self.0.as_mut().expect("no world") }
}
pub fn lock() -> WGuard {
    crate::heapcount::DEPTH.with(|d| d.set(d.get() + 1));
    WGuard(WORLD.lock().unwrap_or_else(|e| e.into_inner()))
}

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x.wrapping_mul(0x94D0_49BB_1331_11EB) ^ (x >> 31)
}
pub fn mixs(a: u64, s: &str) -> u64 {
    let mut h = a;
    for c in s.as_bytes().chunks(8) {
        let mut v = 0u64;
        for b in c { v = v << 8 | *b as u64; }
        h = mix(h, v);
    }
    h
}

/// A lazily assigned per-execution object identity, embedded in the façade types.
pub struct ObjCell(AtomicU64);
impl ObjCell {
    pub const fn new() -> ObjCell { ObjCell(AtomicU64::new(0)) }
    /// (object index, true if this is its first use in an execution after having been used in an earlier one)
    pub fn get(&self, w: &mut World, kind: &'static str, mk: impl FnOnce() -> ObjData) -> (u32, bool) {
        let v = self.0.load(Relaxed);
        if (v >> 32) as u32 == w.epoch && v != 0 {
            return ((v as u32) - 1, false);
        }
        let idx = w.new_obj(kind, mk());
        self.0.store((w.epoch as u64) << 32 | (idx as u64 + 1), Relaxed);
        (idx, v != 0)
    }
}

impl World {
    pub fn new_obj(&mut self, kind: &'static str, data: ObjData) -> u32 {
        let me = tid().unwrap_or(0);
        let t = &mut self.threads[me];
        t.nops += 1;
        let canon = mixs(mix(t.canon, t.nops), kind);
        self.objs.push(Obj { kind, canon, hist: canon, first: NONE, shared: false, data });
        (self.objs.len() - 1) as u32
    }
    /// Record that thread `t` performed a step on object `o` (happens-before bookkeeping).
    pub fn touch(&mut self, t: usize, code: &str, o: u32, ro: bool) {
        let th = &mut self.threads[t];
        th.nops += 1;
        if o == NOOBJ {
            th.hist = mixs(th.hist, code);
        } else {
            let ob = &mut self.objs[o as usize];
            th.hist = mix(mixs(mix(th.hist, ob.canon), code), ob.hist);
            if !ro { ob.hist = th.hist; }
            if ob.first == NONE { ob.first = t } else if ob.first != t { ob.shared = true }
        }
    }
    pub fn note(&mut self, t: usize, v: u64) {
        let th = &mut self.threads[t];
        th.hist = mix(th.hist, v);
    }
    fn refresh(&mut self, t: usize) {
        let oc = match self.threads[t].req.obj { NOOBJ => 7, o => self.objs[o as usize].canon };
        let th = &mut self.threads[t];
        let fin = th.finished as u64;
        let c = mix(mix(mixs(mix(th.canon, th.hist), th.req.code), oc), fin);
        self.sum = self.sum.wrapping_sub(th.contrib).wrapping_add(c);
        th.contrib = c;
    }
    pub fn fp(&self) -> u64 { mix(self.sum, self.now) }

    fn eval(&mut self, c: &Cond) -> bool {
        match *c {
            Cond::True => true,
            Cond::Never => false,
            Cond::MutexFree(o) => matches!(self.objs[o as usize].data, ObjData::Mutex { owner: None }),
            Cond::RwNoWriter(o) => match self.objs[o as usize].data { ObjData::Rw { writer, queued, .. } => writer.is_none() && queued == 0, _ => true },
            Cond::RwFree(o) => match self.objs[o as usize].data { ObjData::Rw { writer, readers, .. } => writer.is_none() && readers == 0, _ => true },
            Cond::CvNotified(o, t) => match &self.objs[o as usize].data { ObjData::Cv { waiters } => waiters.iter().any(|w| w.0 == t && w.1), _ => true },
            Cond::ChanRecv(o) => match &self.objs[o as usize].data { ObjData::Chan(c) => c.len > 0 || c.senders == 0, _ => true },
            Cond::ChanMatched(o) => match &self.objs[o as usize].data { ObjData::Chan(c) => c.rx_matched || c.senders == 0, _ => true },
            Cond::ChanSpace(o) => match &self.objs[o as usize].data { ObjData::Chan(c) => !c.rx_alive || c.cap.map_or(true, |n| c.len < n), _ => true },
            Cond::ChanTaken(o, t) => match &self.objs[o as usize].data { ObjData::Chan(c) => !c.rx_alive || !c.blocked.contains(&t), _ => true },
            Cond::Finished(t) => self.threads[t].finished,
            Cond::ParkToken(t) => self.threads[t].park_token,
            Cond::SockReadable(s) => self.net.readable(s),
            Cond::SockWritable(s) => self.net.writable(s),
            Cond::Acceptable(s) => self.net.acceptable(s),
            Cond::Poll(p) => self.net.poll_ready(p),
        }
    }
    fn enabled(&mut self, t: usize) -> bool {
        if self.threads[t].finished { return false; }
        if let Some(d) = self.threads[t].req.deadline { if d <= self.now { return true; } }
        let c = self.threads[t].req.cond.clone();
        self.eval(&c)
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if t.finished { continue; }
            let k = if t.req.obj == NOOBJ { "" } else { self.objs[t.req.obj as usize].kind };
            s += &format!(" [t{}{} at {} {} {:?}]", i, t.name.as_deref().map(|n| format!("({n})")).unwrap_or_default(), t.req.code, k, t.req.cond);
        }
        s
    }
    pub fn fail(&mut self, msg: String) {
        if self.violation.is_none() { self.violation = Some(msg); }
    }
    /// Take a recorded or default choice among n alternatives.
    fn choice(&mut self, n: usize, cost_from: usize, obj: u32, salt: u64) -> usize {
        if n <= 1 { return 0; }
        assert!(n < 250);
        let pos = self.trace.len();
        let key = mix(self.fp(), salt);
        let c = if pos < self.prefix.len() {
            let c = self.prefix[pos] as usize;
            if c >= n {
                self.diverged = Some(format!("choice {} of {} at point {}", c, n, pos));
                0
            } else {
                if pos + 1 == self.prefix.len() && self.expect_key != 0 && self.expect_key != key {
                    self.diverged = Some(format!("state differs at point {}", pos));
                }
                c
            }
        } else { 0 };
        self.trace.push(Point { n: n as u8, choice: c as u8, cost_from: cost_from as u8, obj, key });
        c
    }
    /// Environment choice by thread t: alternatives other than 0 cost `cost`.
    pub fn env_choice(&mut self, t: usize, n: usize, cost: u8, salt: &str) -> usize {
        self.refresh(t);
        let tc = self.threads[t].canon;
        let c = self.choice(n, if cost == 0 { n } else { 1 }, 0, mixs(mix(77, tc), salt));
        self.note(t, c as u64 + 1);
        if n > 1 && self.cfg.verbose {
            let l = format!("t{} {} -> {}/{}", t, salt, c, n);
            self.log.push(l);
        }
        c
    }
    /// Should fault f strike here? (a deviation)
    pub fn fault(&mut self, t: usize, f: Fault) -> bool {
        if let Some((g, n, k)) = self.plan {
            if g == f {
                self.plan = if n == 0 && k == 1 { None } else if n == 0 { Some((g, 0, k - 1)) } else { Some((g, n - 1, k)) };
                self.refresh(t);
                self.note(t, 0x5000 + (n + k) as u64);
                if n == 0 { *self.fault_used.entry(f as u32).or_insert(0) += 1; }
                return n == 0;
            }
        }
        if !self.cfg.faults.contains(&f) { return false; }
        let hit = self.env_choice(t, 2, 1, match f {
            Fault::AcceptAborted => "fault ECONNABORTED at accept", Fault::AcceptEmfile => "fault EMFILE at accept",
            Fault::AcceptWouldBlock => "fault EAGAIN at accept", Fault::AcceptIntr => "fault EINTR at accept",
            Fault::PollerNew => "fault EMFILE at epoll_create", Fault::PollerAdd => "fault ENOMEM at epoll_ctl add",
            Fault::PollWaitIntr => "fault EINTR at epoll_wait", Fault::ReadReset => "fault ECONNRESET at read",
            Fault::WriteReset => "fault ECONNRESET at write", Fault::SetNonblock => "fault at set_nonblocking",
            Fault::Dup => "fault EMFILE at dup", Fault::Bind => "fault at bind", Fault::ReadIntr => "fault EINTR at read",
            Fault::WriteIntr => "fault EINTR at write", Fault::SpuriousReady => "spurious readiness",
        }) == 1;
        if hit { *self.fault_used.entry(f as u32).or_insert(0) += 1; }
        hit
    }

    /// Choose who runs next. None: the execution is over (violation set).
    fn pick(&mut self, me: usize) -> Option<usize> {
        self.refresh(me);
        loop {
            if self.violation.is_some() || self.done || self.diverged.is_some() { return None; }
            if self.steps >= self.cfg.max_steps {
                let d = self.describe();
                self.fail(format!("livelock: no end after {} steps:{}", self.steps, d));
                return None;
            }
            if self.now > self.cfg.max_time {
                let d = self.describe();
                self.fail(format!("hang: still not finished after {} virtual seconds:{}", self.now / 1_000_000_000, d));
                return None;
            }
            let n = self.threads.len();
            let me_en = self.enabled(me);
            let mut slice = false;
            if me_en && !self.threads[me].req.yielding && self.run_len > 3000 {
                slice = true;
            }
            let mut cand: Vec<usize> = Vec::with_capacity(8);
            let me_first = me_en && !self.threads[me].req.yielding && !slice;
            if me_first { cand.push(me); }
            for k in 1..=n {
                let t = (me + k) % n;
                if t == me { continue; }
                if self.threads[t].req.yielding { continue; }
                if self.enabled(t) { cand.push(t); }
            }
            if slice {
                self.run_len = 0;
                if cand.is_empty() {
                    // alone and spinning: let time pass
                    let next = self.next_deadline();
                    self.now = match next { Some(d) => d, None => self.now + 10_000_000 };
                    cand.push(me);
                } else {
                    self.now += 10_000_000;
                }
            }
            if cand.is_empty() {
                // only spinners (or nobody) can run
                let mut ys: Vec<usize> = vec![];
                for k in 1..=n {
                    let t = (me + k) % n;
                    if self.threads[t].req.yielding && self.enabled(t) { ys.push(t); }
                }
                if ys.is_empty() {
                    match self.next_deadline() {
                        Some(d) => { self.now = d; continue; }
                        None => {
                            let d = self.describe();
                            self.fail(format!("deadlock: nothing can run:{}", d));
                            return None;
                        }
                    }
                }
                self.spin += 1;
                if self.spin > 4 * n as u64 + 8 {
                    match self.next_deadline() {
                        Some(d) => { self.now = d; self.spin = 0; continue; }
                        None => if self.spin > 4000 {
                            let d = self.describe();
                            self.fail(format!("livelock: only spinning threads can run:{}", d));
                            return None;
                        }
                    }
                }
                cand = vec![ys[0]];
            } else {
                self.spin = 0;
            }
            // alternatives: free ones first, then those that cost a deviation
            let mut cost_from = cand.len();
            if me_first {
                cost_from = 1;
                if !self.cfg.preempt { cand.truncate(1); }
            } else if self.cfg.switch_cost > 0 {
                cost_from = 1;
            }
            if self.cfg.quiet { cand.truncate(1); cost_from = 1; }
            let mut timers: Vec<usize> = vec![];
            if self.cfg.timer_dev && !self.cfg.quiet {
                if let Some(d) = self.next_deadline() {
                    for t in 0..n {
                        if self.threads[t].req.deadline == Some(d) && d > self.now && !self.threads[t].finished && self.threads[t].req.code != "quiesce" && !cand.contains(&t) { timers.push(t); }
                    }
                }
            }
            let total = cand.len() + timers.len();
            let obj = if me_first && timers.is_empty() && !self.threads[me].req.always {
                (self.objs[self.threads[me].req.obj as usize].canon as u32) | 1
            } else { 0 };
            self.fps = self.fps.wrapping_add(1);
            let salt = mix(mix(self.threads[me].canon, me_first as u64), 5);
            let c = self.choice(total, cost_from, obj, salt);
            if self.diverged.is_some() { return None; }
            let t = if c < cand.len() { cand[c] } else {
                let t = timers[c - cand.len()];
                self.now = self.threads[t].req.deadline.unwrap();
                t
            };
            if self.cfg.verbose && (t != me || !me_first) {
                let l = format!("-- switch to t{} (now {}ms){}", t, self.now / 1_000_000, if me_first { " [preempt]" } else { "" });
                self.log.push(l);
            }
            return Some(t);
        }
    }
    fn next_deadline(&self) -> Option<u64> {
        self.threads.iter().filter(|t| !t.finished).filter_map(|t| t.req.deadline).filter(|d| *d > self.now).min()
    }
    pub fn deadline(&self, d: ::std::time::Duration) -> Option<u64> {
        let ns = d.as_nanos();
        if ns > (u64::MAX / 4) as u128 { None } else { Some(self.now + ns as u64) }
    }
    pub fn live_threads(&self) -> usize { self.threads.iter().filter(|t| !t.finished).count() }
}

fn id(epoch: u32, t: usize) -> u64 { (epoch as u64) << 32 | t as u64 }

fn sleep_forever() -> ! {
    LEAKED.fetch_add(1, Relaxed);
    loop { ::std::thread::park(); }
}

fn finish_execution(mut w: WGuard) {
    w.done = true;
    CUR.store(u64::MAX, Release);
    let m = w.main.clone();
    drop(w);
    m.unpark();
}

fn wait_turn(ep: u32, me: usize) {
    while CUR.load(Acquire) != id(ep, me) { ::std::thread::park(); }
}

fn hand_over(w: WGuard, t: usize) {
    CUR.store(id(w.epoch, t), Release);
    let os = w.threads[t].os.clone();
    drop(w);
    if let Some(os) = os { os.unpark(); }
}

/// A scheduling point: announce the next step, let the scheduler decide, return (with the world locked)
/// when this thread may perform it.
/// Set (in the environment, for all of an exploration) once the code was seen to try for a lock.
pub fn try_points() -> bool {
    static ON: ::std::sync::OnceLock<bool> = ::std::sync::OnceLock::new();
    *ON.get_or_init(|| ::std::env::var_os("MC_TRY").is_some())
}
pub const TRIES: &str = "tries for a lock";
pub fn point(req: Req) -> WGuard {
    let me = tid().expect("point outside a virtual thread");
    let ep = TEPOCH.with(|c| c.get());
    let mut w = lock();
    if w.epoch != ep || w.done { drop(w); sleep_forever(); }
    w.threads[me].req = req;
    let next = w.pick(me);
    match next {
        None => { finish_execution(w); sleep_forever(); }
        Some(t) => {
            if t != me {
                w.run_len = 0;
                hand_over(w, t);
                wait_turn(ep, me);
                w = lock();
            } else {
                w.run_len += 1;
            }
        }
    }
    w.steps += 1;
    PROGRESS.fetch_add(1, Relaxed);
    let (code, obj, ro) = { let r = &w.threads[me].req; (r.code, r.obj, r.ro) };
    w.touch(me, code, obj, ro);
    if w.cfg.verbose {
        let k = if obj == NOOBJ { String::new() } else { format!("{}#{}", w.objs[obj as usize].kind, obj) };
        let l = format!("t{} {} {}", me, code, k);
        w.log.push(l);
    }
    w
}

pub fn new_thread(w: &mut World, parent: Option<usize>, name: Option<String>) -> usize {
    let (canon, hist) = match parent {
        None => (1, 1),
        Some(p) => {
            w.threads[p].nspawn += 1;
            let t = &w.threads[p];
            (mix(t.canon, t.nspawn), mix(t.hist, 3))
        }
    };
    let t = w.threads.len();
    w.threads.push(Th {
        req: Req::new("start", NOOBJ), os: None, name, finished: false, hist, canon, contrib: 0, nspawn: 0, nops: 0,
        park_token: false, obj: 0, park_obj: 0, harness: false,
    });
    for k in 0..2 {
        w.objs.push(Obj { kind: if k == 0 { "thread" } else { "park" }, canon: mix(canon, 90 + k), hist: 0, first: NONE, shared: false, data: ObjData::Plain });
        let i = (w.objs.len() - 1) as u32;
        if k == 0 { w.threads[t].obj = i } else { w.threads[t].park_obj = i }
    }
    w.refresh(t);
    t
}

/// Body run by the OS thread that carries virtual thread `t`.
pub fn thread_main(ep: u32, t: usize, body: impl FnOnce()) {
    TID.with(|c| c.set(t));
    TEPOCH.with(|c| c.set(ep));
    wait_turn(ep, t);
    {
        let mut w = lock();
        w.steps += 1;
        w.touch(t, "start", NOOBJ, false);
    }
    body();
    let mut w = lock();
    if w.epoch != ep || w.done { drop(w); return; }
    let o = w.threads[t].obj;
    w.touch(t, "exit", o, false);
    w.threads[t].finished = true;
    w.threads[t].req = Req::new("exit", NOOBJ);
    if w.cfg.verbose { w.log.push(format!("t{} exits", t)); }
    if t == 0 { w.refresh(0); finish_execution(w); TID.with(|c| c.set(NONE)); return; }
    match w.pick(t) {
        None => finish_execution(w),
        Some(n) => { w.run_len = 0; hand_over(w, n) }
    }
    TID.with(|c| c.set(NONE));
}

/// End the execution with a violation; the calling thread stops here.
pub fn fail(msg: String) -> ! {
    let mut w = lock();
    w.fail(msg);
    finish_execution(w);
    sleep_forever()
}
/// End the execution normally from any virtual thread.
pub fn end() -> ! {
    let w = lock();
    finish_execution(w);
    sleep_forever()
}

pub struct Outcome {
    pub trace: Vec<Point>,
    pub violation: Option<String>,
    pub diverged: Option<String>,
    pub shared: Vec<u32>,
    pub outcomes: Vec<String>,
    pub log: Vec<String>,
    pub steps: u64,
    pub fps: u64,
    pub exit_code: Option<i32>,
    pub tags: Vec<(String, u64)>,
    pub time: u64,
}

fn install_hook() {
    static ONCE: ::std::sync::Once = ::std::sync::Once::new();
    ONCE.call_once(|| {
        let old = ::std::panic::take_hook();
        ::std::panic::set_hook(Box::new(move |info| {
            if tid().is_some() {
                let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                    else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
                    // what a test panics with when it is no text
                    else if let Some(n) = info.payload().downcast_ref::<u64>() { format!("expected panic with {}", n) }
                    else { "?".to_string() };
                let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                if let Ok(mut g) = WORLD.try_lock() {
                    if let Some(w) = g.as_mut() {
                        let quiet = msg.starts_with(w.cfg.expect_panic);
                        if w.cfg.verbose { w.log.push(format!("t{} panics: {} at {}", tid().unwrap(), msg, loc)); }
                        if !quiet { w.panics.push(format!("{} at {}", msg, loc)); }
                    }
                } else {
                    eprintln!("panic while the world is locked: {} at {}", msg, loc);
                }
            } else {
                old(info);
            }
        }));
    });
}

/// Run one execution: `body` is virtual thread 0.
pub fn run(cfg: Config, prefix: &[u8], expect_key: u64, body: impl FnOnce() + Send + 'static) -> Outcome {
    install_hook();
    let ep = NEXT_EPOCH.fetch_add(1, Relaxed);
    EPOCH.store(ep, Release);
    crate::heapcount::DEPTH.with(|d| d.set(d.get() + 1));
    {
        let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
        let mut w = Box::new(World {
            epoch: ep, cfg: cfg.clone(), threads: vec![], now: 1_000_000_000_000, steps: 0, run_len: 0, spin: 0, sum: 0,
            prefix: prefix.to_vec(), expect_key, trace: vec![], objs: vec![], net: Net::new(cfg.sock_cap),
            violation: None, diverged: None, panics: vec![], outcomes: vec![], log: vec![], exit_code: None, done: false, fps: 0,
            fault_used: Default::default(), plan: None, ferr: None, tags: Default::default(), main: ::std::thread::current(),
        });
        w.cfg.max_time = w.now + cfg.max_time;
        new_thread(&mut w, None, Some("main".into()));
        *g = Some(w);
    }
    crate::heapcount::DEPTH.with(|d| d.set(d.get() - 1));
    let h = ::std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        thread_main(ep, 0, move || {
            let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(body));
            if r.is_err() {
                let mut w = lock();
                let p = w.panics.last().cloned().unwrap_or_default();
                w.fail(format!("panic in the harness main thread: {}", p));
            }
        });
    }).expect("spawn");
    {
        let mut w = lock();
        w.threads[0].os = Some(h.thread().clone());
        w.threads[0].harness = true;
        CUR.store(id(ep, 0), Release);
        h.thread().unpark();
    }
    loop {
        {
            let w = lock();
            if w.done { break; }
        }
        ::std::thread::park();
    }
    let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    let mut w = g.take().unwrap();
    EPOCH.store(0, Release);
    drop(g);
    if w.violation.is_none() && !w.panics.is_empty() {
        w.violation = Some(format!("panic: {}", w.panics[0]));
    }
    let leaked = w.threads.iter().filter(|t| !t.finished).count();
    LEAKED.fetch_add(leaked, Relaxed);
    let shared = w.objs.iter().filter(|o| o.shared).map(|o| (o.canon as u32) | 1).collect();
    Outcome {
        trace: ::std::mem::take(&mut w.trace), violation: w.violation.take(), diverged: w.diverged.take(), shared,
        outcomes: ::std::mem::take(&mut w.outcomes), log: ::std::mem::take(&mut w.log), steps: w.steps, fps: w.fps,
        exit_code: w.exit_code, tags: w.tags.iter().map(|(k, v)| (k.to_string(), *v)).collect(), time: w.now - 1_000_000_000_000,
    }
}
