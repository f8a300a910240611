//! API for the harness programs that run inside an execution.
use crate::rt::{self, Cond, Fault, Req};
use ::std::time::Duration;

/// Enumerated choice of the environment (free).
pub fn choose(n: usize, label: &str) -> usize {
    let t = rt::tid().expect("choose outside an execution");
    rt::lock().env_choice(t, n, 0, label)
}
/// Enumerated choice whose alternatives to 0 count as a deviation.
pub fn deviate(n: usize, label: &str) -> usize {
    let t = rt::tid().expect("deviate outside an execution");
    rt::lock().env_choice(t, n, 1, label)
}
pub fn fail(msg: impl Into<String>) -> ! { rt::fail(msg.into()) }
/// record a violation without stopping
pub fn flag(msg: impl Into<String>) { rt::lock().fail(msg.into()); }
pub fn log(msg: impl Into<String>) {
    if !rt::active() { return; }
    let mut w = rt::lock();
    if w.cfg.verbose { let m = format!("t{} ## {}", rt::tid().unwrap(), msg.into()); w.log.push(m); }
}
pub fn outcome(s: impl Into<String>) { rt::lock().outcomes.push(s.into()); }
pub fn tag(k: &'static str) { *rt::lock().tags.entry(k).or_insert(0) += 1; }
pub fn now_ms() -> u64 { rt::lock().now / 1_000_000 }
pub fn now_ns() -> u64 { rt::lock().now }
pub fn open_fds() -> usize { rt::lock().net.open_fds() }
pub fn describe_fds() -> String { rt::lock().net.describe() }
pub fn live_threads() -> usize { rt::lock().live_threads() }
pub fn describe() -> String { rt::lock().describe() }
pub fn set_faults(f: &[Fault]) { rt::lock().cfg.faults = f.to_vec(); }
/// Takes the chance number n (from 0) of a fault.
pub fn plan_fault(f: Fault, n: usize) { plan_faults(f, n, 1); }
/// The first n chances of the fault pass, the next k are taken.
pub fn plan_faults(f: Fault, n: usize, k: usize) { rt::lock().plan = if k == 0 { None } else { Some((f, n, k)) }; }
/// The error (errno) failures bring from now on; None: the usual one of each.
pub fn set_fault_error(e: Option<i32>) { rt::lock().ferr = e; }
pub fn unplan_fault() { rt::lock().plan = None; }
pub fn set_short(r: bool, wr: bool) { let mut w = rt::lock(); w.cfg.short_read = r; w.cfg.short_write = wr; }
pub fn faults_used() -> u32 { rt::lock().fault_used.values().sum() }
/// Between on and off the default schedule is taken and no alternative to it.
pub fn set_quiet(on: bool) { rt::lock().cfg.quiet = on; }
pub fn set_preempt(on: bool) { rt::lock().cfg.preempt = on; }
pub fn set_timer_dev(on: bool) { rt::lock().cfg.timer_dev = on; }
pub fn panics() -> Vec<String> { rt::lock().panics.clone() }
/// Let everything else run until nothing can move without time passing.
pub fn quiesce() {
    let dl = { let w = rt::lock(); Some(w.now + 1) };
    drop(rt::point(Req::new("quiesce", rt::NOOBJ).cond(Cond::Never).deadline(dl)));
}
/// Is every other thread blocked without a timer to wake it?
pub fn sleep_ms(ms: u64) { crate::thread::sleep(Duration::from_millis(ms)) }
/// Spawn a thread of the environment: no faults are injected into it.
pub fn client<F, T>(name: &str, f: F) -> crate::thread::JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
    unsafe { crate::thread::spawn_raw(f, Some(name.to_string()), true) }
}
/// Hash used to compare executions (the order of observable events the harness logged)
pub fn note(v: u64) { let t = rt::tid().unwrap(); rt::lock().note(t, v); }
/// Live heap bytes of everything but the façade.
pub fn heap() -> i64 { crate::heapcount::live() }
/// Buffer size of the connections made from now on.
pub fn set_sock_cap(n: usize) { let mut w = rt::lock(); w.cfg.sock_cap = n; w.net.cap = n; }
