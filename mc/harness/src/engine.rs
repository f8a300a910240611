//! Exhaustive exploration: a coordinator hands choice prefixes to worker processes, each of which forks
//! children that execute the real code under the controlled scheduler.
use mcstd::rt::{self, Config, Outcome, Point};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, RawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

pub type Body = Arc<dyn Fn() + Send + Sync>;
pub type CaseFn = Arc<dyn Fn(u64) -> Result<String, String> + Send + Sync>;
pub enum Kind {
    /// all schedules / environment answers within the deviation bound
    Sched(Body),
    /// all inputs 0..total
    Enum { total: u64, chunk: u64, f: CaseFn },
}
pub struct Scen {
    pub name: String,
    pub cfg: Config,
    pub bound: u32,
    pub kind: Kind,
    pub skip: bool,
}
impl Scen {
    pub fn sched(name: impl Into<String>, bound: u32, cfg: Config, f: impl Fn() + Send + Sync + 'static) -> Scen {
        Scen { name: name.into(), cfg, bound, kind: Kind::Sched(Arc::new(f)), skip: false }
    }
    pub fn cases(name: impl Into<String>, total: u64, chunk: u64, f: impl Fn(u64) -> Result<String, String> + Send + Sync + 'static) -> Scen {
        let cfg = Config { max_steps: u64::MAX, max_time: 1 << 60, preempt: false, ..Default::default() };
        Scen { name: name.into(), cfg, bound: 0, kind: Kind::Enum { total, chunk, f: Arc::new(f) }, skip: false }
    }
}

// ------------------------------------------------------------------ wire format
fn put32(v: &mut Vec<u8>, x: u32) { v.extend(x.to_le_bytes()) }
fn put64(v: &mut Vec<u8>, x: u64) { v.extend(x.to_le_bytes()) }
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] { let (a, b) = self.0.split_at(n); self.0 = b; a }
    fn u8(&mut self) -> u8 { self.take(1)[0] }
    fn u32(&mut self) -> u32 { u32::from_le_bytes(self.take(4).try_into().unwrap()) }
    fn u64(&mut self) -> u64 { u64::from_le_bytes(self.take(8).try_into().unwrap()) }
    fn str(&mut self) -> String { let n = self.u32() as usize; String::from_utf8_lossy(self.take(n)).into_owned() }
}
fn put_str(v: &mut Vec<u8>, s: &str) { put32(v, s.len() as u32); v.extend(s.as_bytes()) }
fn read_frame(r: &mut impl Read) -> std::io::Result<Vec<u8>> {
    let mut l = [0u8; 4];
    r.read_exact(&mut l)?;
    let mut b = vec![0u8; u32::from_le_bytes(l) as usize];
    r.read_exact(&mut b)?;
    Ok(b)
}
fn write_all_fd(fd: RawFd, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const libc::c_void, b.len()) };
        if n <= 0 { unsafe { libc::_exit(98) } }
        b = &b[n as usize..];
    }
}
fn send_frame(fd: RawFd, payload: &[u8]) {
    let mut v = Vec::with_capacity(payload.len() + 4);
    put32(&mut v, payload.len() as u32);
    v.extend(payload);
    write_all_fd(fd, &v);
}

#[derive(Clone, Debug, Default)]
pub struct RunRes {
    pub job: u32,
    pub steps: u64,
    pub time: u64,
    pub points: Vec<Point>,
    pub shared: Vec<u32>,
    pub violation: Option<String>,
    pub diverged: Option<String>,
    pub outcomes: Vec<String>,
    pub log: Vec<String>,
    pub tags: Vec<(String, u64)>,
    pub exit_code: Option<i32>,
}
fn enc_opt(v: &mut Vec<u8>, s: &Option<String>) {
    match s { None => v.push(0), Some(s) => { v.push(1); put_str(v, s) } }
}
fn encode(job: u32, from: usize, o: &Outcome) -> Vec<u8> {
    let mut v = vec![1u8];
    put32(&mut v, job);
    put64(&mut v, o.steps);
    put64(&mut v, o.time);
    let pts = &o.trace[from.min(o.trace.len())..];
    put32(&mut v, pts.len() as u32);
    for p in pts {
        v.push(p.n);
        v.push(p.choice);
        v.push(p.cost_from);
        put32(&mut v, p.obj);
        put64(&mut v, p.key);
    }
    put32(&mut v, o.shared.len() as u32);
    for s in &o.shared { put32(&mut v, *s); }
    enc_opt(&mut v, &o.violation);
    enc_opt(&mut v, &o.diverged);
    put32(&mut v, o.outcomes.len() as u32);
    for s in &o.outcomes { put_str(&mut v, s); }
    put32(&mut v, o.log.len() as u32);
    for s in &o.log { put_str(&mut v, s); }
    put32(&mut v, o.tags.len() as u32);
    for (k, n) in &o.tags { put_str(&mut v, k); put64(&mut v, *n); }
    match o.exit_code { None => v.push(0), Some(c) => { v.push(1); put32(&mut v, c as u32) } }
    v
}
fn decode(r: &mut Rd) -> RunRes {
    let mut x = RunRes { job: r.u32(), steps: r.u64(), time: r.u64(), ..Default::default() };
    for _ in 0..r.u32() {
        x.points.push(Point { n: r.u8(), choice: r.u8(), cost_from: r.u8(), obj: r.u32(), key: r.u64() });
    }
    for _ in 0..r.u32() { x.shared.push(r.u32()); }
    if r.u8() == 1 { x.violation = Some(r.str()); }
    if r.u8() == 1 { x.diverged = Some(r.str()); }
    for _ in 0..r.u32() { x.outcomes.push(r.str()); }
    for _ in 0..r.u32() { x.log.push(r.str()); }
    for _ in 0..r.u32() { let k = r.str(); x.tags.push((k, r.u64())); }
    if r.u8() == 1 { x.exit_code = Some(r.u32() as i32); }
    x
}

// ------------------------------------------------------------------ executing one job
fn run_cases(sc: &Scen, start: u64, count: u64) -> Outcome {
    let (f, total) = match &sc.kind { Kind::Enum { f, total, .. } => (f.clone(), *total), _ => unreachable!() };
    rt::run(sc.cfg.clone(), &[], 0, move || {
        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
        for i in start..(start + count).min(total) {
            rt::PROGRESS.fetch_add(1, Relaxed);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i)));
            let r = match r {
                Ok(r) => r,
                Err(_) => Err(format!("panic: {}", rt::lock().panics.pop().unwrap_or_default())),
            };
            rt::lock().panics.clear();
            match r {
                Ok(c) => *classes.entry(c).or_insert(0) += 1,
                Err(e) => {
                    let mut w = rt::lock();
                    w.outcomes.push(format!("{}", i));
                    w.fail(format!("case {}: {}", i, e));
                    break;
                }
            }
        }
        let mut w = rt::lock();
        for (k, n) in classes { w.outcomes.push(format!("{}\t{}", n, k)); }
    })
}
pub fn run_one(sc: &Scen, prefix: &[u8], key: u64, verbose: bool) -> Outcome {
    match &sc.kind {
        Kind::Sched(b) => {
            let b = b.clone();
            let mut cfg = sc.cfg.clone();
            cfg.verbose = verbose;
            rt::run(cfg, prefix, key, move || b())
        }
        Kind::Enum { .. } => {
            let mut r = Rd(prefix);
            let s = r.u64();
            let n = r.u64();
            run_cases(sc, s, n)
        }
    }
}

fn cpu_ms() -> u64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

/// Whether every other thread of the process is in an interruptible sleep.
fn all_asleep() -> bool {
    let me = unsafe { libc::syscall(libc::SYS_gettid) }.to_string();
    let Ok(d) = std::fs::read_dir("/proc/self/task") else { return false };
    for t in d.flatten() {
        if t.file_name().to_string_lossy() == me { continue; }
        let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { return false };
        match s.rfind(')').and_then(|i| s[i + 1..].trim_start().chars().next()) { Some('S') => {} _ => return false }
    }
    true
}
/// Worker process: reads batches from stdin, forks a child per batch.
pub fn worker_main(scens: Vec<Scen>) -> ! {
    unsafe {
        libc::mallopt(libc::M_ARENA_MAX, 1);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    let out: RawFd = std::env::var("MC_FD").unwrap().parse().unwrap();
    if let Ok(c) = std::env::var("MC_CPU") {
        let c: usize = c.parse().unwrap();
        unsafe {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(c, &mut set);
            libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
        }
    }
    let mut stdin = unsafe { std::fs::File::from_raw_fd(0) };
    loop {
        let f = match read_frame(&mut stdin) { Ok(f) => f, Err(_) => std::process::exit(0) };
        let mut r = Rd(&f);
        let batch = r.u32();
        let si = r.u32() as usize;
        let verbose = r.u8() == 1;
        let n = r.u32();
        let jobs: Vec<(Vec<u8>, u64)> = (0..n).map(|_| { let l = r.u32() as usize; let p = r.take(l).to_vec(); (p, r.u64()) }).collect();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
            child(&scens[si], &jobs, verbose, out);
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let mut v = vec![2u8];
        put32(&mut v, batch);
        put32(&mut v, st as u32);
        send_frame(out, &v);
    }
}
fn child(sc: &Scen, jobs: &[(Vec<u8>, u64)], verbose: bool, out: RawFd) -> ! {
    static CURJOB: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    static RUNNING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0u32);
        let mut cpu0 = 0;
        let mut t0 = Instant::now();
        let mut asleep = 0;
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let cur = (rt::PROGRESS.load(Relaxed), CURJOB.load(Relaxed));
            if cur != last || !RUNNING.load(Relaxed) { last = cur; cpu0 = cpu_ms(); t0 = Instant::now(); asleep = 0; continue; }
            // nothing runs and nothing waits for the processor or a disk: the code waits for something real
            asleep = if all_asleep() { asleep + 1 } else { 0 };
            if cpu_ms() - cpu0 > 4000 || asleep > 40 || t0.elapsed() > Duration::from_secs(100) {
                let mut v = vec![3u8];
                put32(&mut v, cur.1);
                send_frame(out, &v);
                unsafe { libc::_exit(99) }
            }
        }
    });
    for (i, (p, k)) in jobs.iter().enumerate() {
        CURJOB.store(i as u32, Relaxed);
        RUNNING.store(true, Relaxed);
        let o = run_one(sc, p, *k, verbose);
        RUNNING.store(false, Relaxed);
        let from = if matches!(sc.kind, Kind::Sched(_)) && !verbose { p.len() } else { 0 };
        send_frame(out, &encode(i as u32, from, &o));
        if o.diverged.is_some() || o.violation.is_some() { break; }
        if rt::LEAKED.load(Relaxed) > 400 { break; }
    }
    unsafe { libc::_exit(0) }
}

// ------------------------------------------------------------------ coordinator
#[derive(Debug)]
enum Msg { Frame(usize, Vec<u8>), Gone(usize) }

pub struct Env { pub prop: String, pub tier: String, pub argv: Option<Vec<String>>, pub scratch: String, pub group: String }

struct Worker { child: Child, inp: std::process::ChildStdin }
fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set);
        (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect()
    }
}
fn spawn_worker(env: &Env, i: usize, cpu: Option<usize>, tx: mpsc::Sender<Msg>) -> Worker {
    let mut fds = [0i32; 2];
    unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) };
    let exe = std::env::current_exe().expect("exe");
    let mut c = Command::new(exe);
    if let Some(a) = &env.argv {
        c.arg0(&a[0]);
        c.args(&a[1..]);
    }
    c.env("MC_WORKER", format!("{}:{}:{}", env.prop, env.tier, env.group)).env("MC_SCRATCH", &env.scratch).env("MC_FD", fds[1].to_string());
    if let Some(cpu) = cpu { c.env("MC_CPU", cpu.to_string()); }
    c.stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null());
    if std::env::var_os("MC_STDERR").is_some() { c.stderr(Stdio::inherit()); }
    let wfd = fds[1];
    unsafe {
        c.pre_exec(move || {
            libc::fcntl(wfd, libc::F_SETFD, 0);
            Ok(())
        });
    }
    let mut child = c.spawn().expect("worker");
    unsafe { libc::close(fds[1]) };
    let inp = child.stdin.take().unwrap();
    let mut rd = std::io::BufReader::with_capacity(1 << 16, unsafe { std::fs::File::from_raw_fd(fds[0]) });
    std::thread::spawn(move || loop {
        match read_frame(&mut rd) {
            Ok(f) => if tx.send(Msg::Frame(i, f)).is_err() { return },
            Err(_) => { let _ = tx.send(Msg::Gone(i)); return }
        }
    });
    Worker { child, inp }
}

#[derive(Clone)]
struct Job { prefix: Vec<u8>, key: u64, cost: u32 }

#[derive(Default)]
struct ScSt {
    visited: HashMap<u64, u32>,
    shared: HashSet<u32>,
    suppressed: HashMap<u32, Vec<Job>>,
    queue: Vec<Vec<Job>>,
    next_case: u64,
    extra: Vec<(u64, u64)>,
    execs: u64,
    steps: u64,
    cases: u64,
    max_time: u64,
    maxlen: usize,
    outcomes: BTreeMap<String, u64>,
    tags: BTreeMap<String, u64>,
    by_level: Vec<u64>,
    isolate: bool,
    inflight: usize,
    completed: i64,
    sample: Option<String>,
    fails: u32,
    done_early: bool,
}

pub struct Violation { pub scen: String, pub msg: String, pub choices: Vec<u8>, pub log: Vec<String>, pub confirmed: bool, pub case: Option<u64> }
#[derive(Default)]
pub struct Report {
    pub execs: u64,
    pub states: u64,
    pub steps: u64,
    pub cases: u64,
    pub outcomes: u64,
    pub scens: Vec<serde_json::Value>,
    pub samples: Vec<serde_json::Value>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub errors: Vec<String>,
    pub capped: bool,
    /// the code tries for locks: to be explored again with possession as a point
    pub again: bool,
    pub classes: BTreeMap<String, u64>,
}

fn frame_batch(batch: u32, si: usize, verbose: bool, jobs: &[Job]) -> Vec<u8> {
    let mut v = vec![];
    put32(&mut v, batch);
    put32(&mut v, si as u32);
    v.push(verbose as u8);
    put32(&mut v, jobs.len() as u32);
    for j in jobs {
        put32(&mut v, j.prefix.len() as u32);
        v.extend(&j.prefix);
        put64(&mut v, j.key);
    }
    let mut f = vec![];
    put32(&mut f, v.len() as u32);
    f.extend(v);
    f
}

/// Run one job in a fresh worker process; Err: how the process ended.
pub fn run_fresh(env: &Env, si: usize, prefix: &[u8], verbose: bool) -> Result<RunRes, String> {
    let (tx, rx) = mpsc::channel();
    let mut w = spawn_worker(env, 0, cpus().first().copied(), tx);
    let _ = w.inp.write_all(&frame_batch(0, si, verbose, &[Job { prefix: prefix.to_vec(), key: 0, cost: 0 }]));
    let _ = w.inp.flush();
    let mut res = Err("no answer".to_string());
    let t0 = Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_secs(200)) {
            Ok(Msg::Frame(_, f)) => {
                let mut r = Rd(&f);
                match r.u8() {
                    1 => { res = Ok(decode(&mut r)); break; }
                    2 => { let _ = r.u32(); let st = r.u32() as i32; if res.is_err() { res = Err(format!("the process died with wait status {:#x}", st)); } break; }
                    3 => { res = Err("hang: the code runs on without ever reaching another operation".to_string()); break; }
                    _ => {}
                }
            }
            _ => { if t0.elapsed() > Duration::from_secs(190) { res = Err("no answer in 190 s".into()); } break; }
        }
    }
    let _ = w.child.kill();
    let _ = w.child.wait();
    res
}

fn is_known(known: &[(String, String)], scen: &str, msg: &str) -> Option<usize> {
    known.iter().position(|(s, m)| (s.is_empty() || scen.contains(s.as_str())) && msg.contains(m.as_str()))
}

/// Explore all scenarios level by level of deviations.
pub fn explore(env: &Env, scens: &[Scen], budget: Duration, known: &[(String, String)]) -> Report {
    let t0 = Instant::now();
    let cp = cpus();
    let nw = std::env::var("MC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(cp.len().clamp(1, 16));
    let mut rep = Report::default();
    let (tx, rx) = mpsc::channel();
    let mut workers: Vec<Worker> = (0..nw).map(|i| spawn_worker(env, i, Some(cp[i % cp.len()]), tx.clone())).collect();
    let maxb = scens.iter().map(|s| s.bound).max().unwrap_or(0);
    let mut st: Vec<ScSt> = scens.iter().map(|s| {
        let mut x = ScSt { completed: -1, ..Default::default() };
        x.queue = vec![vec![]; s.bound as usize + 1];
        x.by_level = vec![0; s.bound as usize + 1];
        x.done_early = s.skip;
        if matches!(s.kind, Kind::Sched(_)) { x.queue[0].push(Job { prefix: vec![], key: 0, cost: 0 }); }
        x
    }).collect();
    let mut level = 0u32;
    let mut busy: Vec<Option<(u32, usize, Vec<Job>, usize, bool)>> = (0..nw).map(|_| None).collect(); // batch, scen, jobs, received, hang
    let mut batch_no = 1u32;
    let mut cursor = 0usize;
    let mut stop = false;
    let mut deaths = 0;
    let debug = std::env::var_os("MC_DEBUG").is_some();
    let mut last_dbg = Instant::now();
    loop {
        if t0.elapsed() > budget && !stop { rep.capped = true; stop = true; }
        // dispatch
        if !stop {
            for wi in 0..nw {
                if busy[wi].is_some() { continue; }
                let ns = scens.len();
                let mut given = false;
                for k in 0..ns {
                    let si = (cursor + k) % ns;
                    let s = &mut st[si];
                    if s.done_early { continue; }
                    let mut jobs: Vec<Job> = vec![];
                    match &scens[si].kind {
                        Kind::Enum { total, chunk, .. } => {
                            if let Some((a, n)) = s.extra.pop() {
                                let mut p = vec![];
                                put64(&mut p, a);
                                put64(&mut p, n);
                                jobs.push(Job { prefix: p, key: 0, cost: 0 });
                            } else if s.next_case < *total {
                                let mut p = vec![];
                                put64(&mut p, s.next_case);
                                let c = (*chunk).max(1).min(*total - s.next_case);
                                put64(&mut p, c);
                                s.next_case += c;
                                jobs.push(Job { prefix: p, key: 0, cost: 0 });
                            }
                        }
                        Kind::Sched(_) => {
                            let top = (level as usize).min(s.queue.len() - 1);
                            if let Some(l) = (0..=top).find(|l| !s.queue[*l].is_empty()) {
                                let q = &mut s.queue[l];
                                let n = if s.isolate { 1 } else { (q.len() / (2 * nw)).clamp(1, 24).min(q.len()) };
                                for _ in 0..n { jobs.push(q.pop().unwrap()); }
                            }
                        }
                    }
                    if jobs.is_empty() { continue; }
                    cursor = (si + 1) % ns;
                    s.inflight += jobs.len();
                    let f = frame_batch(batch_no, si, false, &jobs);
                    if workers[wi].inp.write_all(&f).and_then(|_| workers[wi].inp.flush()).is_err() {
                        rep.errors.push("worker pipe broken".into());
                    }
                    busy[wi] = Some((batch_no, si, jobs, 0, false));
                    batch_no += 1;
                    given = true;
                    break;
                }
                if !given { break; }
            }
        }
        if busy.iter().all(|b| b.is_none()) {
            if stop { break; }
            // level complete
            for (i, s) in st.iter_mut().enumerate() {
                let top = (level as usize).min(s.queue.len() - 1);
                if s.queue[..=top].iter().all(|q| q.is_empty()) && !s.done_early { s.completed = top as i64; }
                if matches!(scens[i].kind, Kind::Enum { .. }) { s.completed = 0; }
            }
            level += 1;
            if level > maxb { break; }
            continue;
        }
        let m = match rx.recv_timeout(Duration::from_secs(5)) { Ok(m) => m, Err(_) => continue };
        if debug && last_dbg.elapsed() > Duration::from_secs(2) {
            last_dbg = Instant::now();
            let ex: u64 = st.iter().map(|s| s.execs).sum();
            let q: usize = st.iter().map(|s| s.queue.iter().map(|q| q.len()).sum::<usize>()).sum();
            eprintln!("[{:.0}s] level {} execs {} queued {} states {}", t0.elapsed().as_secs_f32(), level, ex, q, st.iter().map(|s| s.visited.len()).sum::<usize>());
        }
        match m {
            Msg::Gone(wi) => {
                deaths += 1;
                if let Some((_, si, jobs, got, _)) = busy[wi].take() {
                    st[si].inflight -= jobs.len() - got;
                    for j in jobs.into_iter().skip(got) { let c = j.cost as usize; if matches!(scens[si].kind, Kind::Sched(_)) { st[si].queue[c].push(j) } else { rep.errors.push("worker lost during a case chunk".into()); } }
                }
                if deaths > 20 { rep.errors.push("workers keep dying".into()); stop = true; continue; }
                workers[wi] = spawn_worker(env, wi, Some(cp[wi % cp.len()]), tx.clone());
            }
            Msg::Frame(wi, f) => {
                let mut r = Rd(&f);
                match r.u8() {
                    3 => { if let Some(b) = busy[wi].as_mut() { b.4 = true; } }
                    2 => {
                        let _ = r.u32();
                        let status = r.u32() as i32;
                        let Some((_, si, jobs, got, hang)) = busy[wi].take() else { continue };
                        st[si].inflight -= jobs.len() - got;
                        let left = &jobs[got..];
                        if left.is_empty() { continue; }
                        let bad = hang || status != 0;
                        if bad {
                            // the first job without an answer is the culprit: confirm in a fresh process
                            let j = &left[0];
                            match run_fresh(env, si, &j.prefix, false) {
                                Err(e) => {
                                    let v = Violation { scen: scens[si].name.clone(), msg: e.clone(), choices: j.prefix.clone(), log: vec![], confirmed: true, case: None };
                                    add_violation(&mut rep, known, v, &mut stop);
                                }
                                Ok(_) => {
                                    st[si].fails += 1;
                                    if st[si].fails > 5 { rep.errors.push(format!("{}: worker child died (status {:#x}), not reproducible", scens[si].name, status)); st[si].done_early = true; }
                                    else { st[si].isolate = true; requeue(&mut st[si], scens, si, j.clone(), &mut rep); }
                                }
                            }
                            for j in &left[1..] { requeue(&mut st[si], scens, si, j.clone(), &mut rep); }
                        } else {
                            for j in left { requeue(&mut st[si], scens, si, j.clone(), &mut rep); }
                        }
                    }
                    1 => {
                        let res = decode(&mut r);
                        let (si, job) = {
                            let b = busy[wi].as_mut().unwrap();
                            b.3 += 1;
                            (b.1, b.2[res.job as usize].clone())
                        };
                        st[si].inflight -= 1;
                        if res.tags.iter().any(|t| t.0 == rt::TRIES) { rep.again = true; stop = true; continue; }
                        if matches!(scens[si].kind, Kind::Enum { .. }) {
                            let mut rd = Rd(&job.prefix);
                            let (start, n) = (rd.u64(), rd.u64());
                            if let Some(v) = res.violation {
                                let case: Option<u64> = res.outcomes.first().and_then(|s| s.parse().ok());
                                let mut p = vec![];
                                put64(&mut p, case.unwrap_or(start));
                                put64(&mut p, 1);
                                let again = run_fresh(env, si, &p, true);
                                let ok = matches!(&again, Ok(r) if r.violation.is_some()) || again.is_err();
                                if ok {
                                    add_violation(&mut rep, known, Violation { scen: scens[si].name.clone(), msg: v, choices: p, log: vec![], confirmed: true, case }, &mut stop);
                                } else {
                                    // depends on earlier cases of the same chunk: confirm the whole chunk
                                    let again = run_fresh(env, si, &job.prefix, true);
                                    if matches!(&again, Ok(r) if r.violation.is_some()) {
                                        add_violation(&mut rep, known, Violation { scen: scens[si].name.clone(), msg: v, choices: job.prefix.clone(), log: vec![], confirmed: true, case }, &mut stop);
                                    } else { rep.errors.push(format!("{}: {} (not reproducible)", scens[si].name, v)); }
                                }
                                // go on after the failing case
                                if let Some(c) = case { if c + 1 < start + n && !stop {
                                    let s = &mut st[si];
                                    s.cases += c - start;
                                    s.fails += 1;
                                    if s.fails < 2000 { s.extra.push((c + 1, start + n - c - 1)); }
                                } }
                            } else {
                                st[si].cases += n;
                                st[si].execs += 1;
                                for o in &res.outcomes {
                                    if let Some((n, k)) = o.split_once('\t') { *st[si].outcomes.entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0); }
                                }
                            }
                            continue;
                        }
                        handle(env, scens, si, &mut st[si], &mut rep, known, job, res, &mut stop);
                    }
                    _ => {}
                }
            }
        }
    }
    for w in workers.iter_mut() { let _ = w.child.kill(); }
    for w in workers.iter_mut() { let _ = w.child.wait(); }
    for (i, s) in st.iter().enumerate() {
        rep.execs += s.execs;
        rep.states += s.visited.len() as u64;
        rep.steps += s.steps;
        rep.cases += s.cases;
        rep.outcomes += s.outcomes.len() as u64;
        for (k, n) in &s.outcomes { *rep.classes.entry(k.chars().take(120).collect()).or_insert(0) += n; }
        let sc = &scens[i];
        rep.scens.push(match &sc.kind {
            Kind::Sched(_) => serde_json::json!({"scenario": sc.name, "deviation_bound": sc.bound, "bound_completed": s.completed,
                "executions": s.execs, "executions_by_deviations": s.by_level, "states": s.visited.len(), "steps": s.steps,
                "longest_choice_sequence": s.maxlen, "max_virtual_ms": s.max_time / 1_000_000,
                "distinct_outcomes": s.outcomes.len(), "outcomes": s.outcomes.iter().take(12).map(|(k, v)| format!("{} x{}", k, v)).collect::<Vec<_>>(), "tags": s.tags}),
            Kind::Enum { total, .. } => serde_json::json!({"scenario": sc.name, "inputs": total, "checked": s.cases,
                "classes": s.outcomes.iter().take(40).map(|(k, v)| format!("{} x{}", k, v)).collect::<Vec<_>>()}),
        });
        if let Some(x) = &s.sample { if rep.samples.len() < 6 { rep.samples.push(serde_json::json!({"scenario": sc.name, "execution": x})); } }
    }
    rep
}
fn requeue(s: &mut ScSt, scens: &[Scen], si: usize, j: Job, rep: &mut Report) {
    match &scens[si].kind {
        Kind::Sched(_) => { let c = j.cost as usize; s.queue[c].push(j) }
        Kind::Enum { .. } => rep.errors.push(format!("{}: a chunk was lost", scens[si].name)),
    }
}
fn add_violation(rep: &mut Report, known: &[(String, String)], v: Violation, stop: &mut bool) {
    if let Some(k) = is_known(known, &v.scen, &v.msg) {
        let m = format!("{}: {}", known[k].0, known[k].1);
        if !rep.known.contains(&m) { rep.known.push(m); }
        return;
    }
    rep.violations.push(v);
    *stop = true;
}

#[allow(clippy::too_many_arguments)]
fn handle(env: &Env, scens: &[Scen], si: usize, s: &mut ScSt, rep: &mut Report, known: &[(String, String)], job: Job, res: RunRes, stop: &mut bool) {
    let bound = scens[si].bound;
    if let Some(d) = &res.diverged {
        s.fails += 1;
        if !s.isolate { s.isolate = true; s.queue[job.cost as usize].push(job); return; }
        if s.fails > 30 { rep.errors.push(format!("{}: replay diverged: {}", scens[si].name, d)); s.done_early = true; return; }
        rep.errors.push(format!("{}: replay diverged: {}", scens[si].name, d));
        return;
    }
    if res.tags.iter().any(|t| t.0 == rt::TRIES) { rep.again = true; *stop = true; return; }
    s.execs += 1;
    s.steps += res.steps;
    s.by_level[job.cost as usize] += 1;
    s.max_time = s.max_time.max(res.time);
    let mut choices = job.prefix.clone();
    choices.extend(res.points.iter().map(|p| p.choice));
    s.maxlen = s.maxlen.max(choices.len());
    for (k, n) in &res.tags { *s.tags.entry(k.clone()).or_insert(0) += n; }
    if s.sample.is_none() || s.execs == 37 {
        s.sample = Some(format!("choices {:?} ({} steps, {} ms virtual) -> {}", choices, res.steps, res.time / 1_000_000, res.outcomes.join("; ")));
    }
    if let Some(v) = res.violation {
        if is_known(known, &scens[si].name, &v).is_some() {
            add_violation(rep, known, Violation { scen: scens[si].name.clone(), msg: v, choices, log: vec![], confirmed: true, case: None }, stop);
            return;
        }
        match run_fresh(env, si, &choices, true) {
            Ok(r) if r.violation.is_some() => {
                let msg = r.violation.clone().unwrap();
                add_violation(rep, known, Violation { scen: scens[si].name.clone(), msg, choices, log: r.log, confirmed: true, case: None }, stop);
            }
            Err(e) => add_violation(rep, known, Violation { scen: scens[si].name.clone(), msg: format!("{} ({})", v, e), choices, log: vec![], confirmed: true, case: None }, stop),
            Ok(_) => {
                s.fails += 1;
                if !s.isolate { s.isolate = true; s.queue[job.cost as usize].push(job); return; }
                rep.errors.push(format!("{}: {} (not reproducible)", scens[si].name, v));
                if s.fails > 5 { s.done_early = true; }
            }
        }
        return;
    }
    let oc = if res.outcomes.is_empty() { String::new() } else { res.outcomes.join(" | ") };
    *s.outcomes.entry(oc).or_insert(0) += 1;
    let mut newly: Vec<u32> = vec![];
    for o in &res.shared { if s.shared.insert(*o) { newly.push(*o); } }
    for o in newly {
        if let Some(js) = s.suppressed.remove(&o) { for j in js { s.queue[j.cost as usize].push(j); } }
    }
    let mut pre = job.prefix.clone();
    for p in &res.points {
        match s.visited.get_mut(&p.key) {
            Some(c) if *c <= job.cost => break,
            Some(c) => *c = job.cost,
            None => { s.visited.insert(p.key, job.cost); }
        }
        for alt in 0..p.n {
            if alt == p.choice { continue; }
            let paid = alt >= p.cost_from;
            let cost = job.cost + paid as u32;
            if cost > bound { continue; }
            let mut np = pre.clone();
            np.push(alt);
            let j = Job { prefix: np, key: p.key, cost };
            if paid && p.obj != 0 && !s.shared.contains(&p.obj) {
                s.suppressed.entry(p.obj).or_default().push(j);
            } else {
                s.queue[cost as usize].push(j);
            }
        }
        pre.push(p.choice);
    }
}
