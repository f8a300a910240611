//! The worker pool (C13, C14, C15) and the client's connection pool (C27, C28).
use super::{one_group, Prop, P0};
use crate::engine::Scen;
#[cfg(feature = "hooks")]
use super::util::*;
#[cfg(feature = "hooks")]
use mcstd::{mc, rt::Config, time::Instant};
#[cfg(feature = "hooks")]
use std::sync::{Arc, Mutex};
#[cfg(feature = "hooks")]
use std::time::Duration;

const A: &[&str] = &["sequentially consistent interleavings of the façade's synchronization operations", "the façade's channels, threads and timers behave like the real ones (checked by the conformance traces)", "one thread submits, as in the server", "bounds: deviations per execution as given per scenario"];
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", scen: c13, assumptions: A, ..P0 },
        Prop { id: "C14", scen: c14, assumptions: A, ..P0 },
        Prop { id: "C15", scen: c15, assumptions: A, ..P0 },
        Prop { id: "C27", level: "exploration", scen: c27, groups: one_group, rule: "every sequence of operations (insert, get, drain, time steps) up to the bound on the real pool, from an empty and from a nearly full pool, compared with a reference map after every operation; distinct by construction; non-trivial: at least one entry is returned, evicted or expired", assumptions: &["an entry idle for between the timeout and the timeout plus one expiry cycle may or may not be there"], ..P0 },
        Prop { id: "C28", scen: c28, assumptions: A, ..P0 },
    ]
}
#[cfg(not(feature = "hooks"))]
mod without_hooks {
    use super::*;
    pub fn c13(t: &str, g: &str) -> Vec<Scen> { super::super::srv::scen_for("C01", t, g) }
    pub fn c14(t: &str, g: &str) -> Vec<Scen> { super::super::load::scen_for("C19", t, g) }
    pub fn c15(t: &str, g: &str) -> Vec<Scen> { super::super::life::scen_for("C18", t, g) }
    pub fn c27(t: &str, g: &str) -> Vec<Scen> { super::super::cli::scen_for("C26", t, g) }
    pub fn c28(t: &str, g: &str) -> Vec<Scen> { super::super::cli::scen_for("C26", t, g) }
}
#[cfg(not(feature = "hooks"))]
use without_hooks::*;

// ------------------------------------------------------------------ the worker pool
#[cfg(feature = "hooks")]
#[derive(Default, Clone)]
struct Stat { started: u32, finished: u32, thread: Option<String> }
/// What the tasks have done.
#[cfg(feature = "hooks")]
#[derive(Clone)]
struct Tasks { st: Arc<Mutex<Vec<Stat>>>, max: Arc<Mutex<usize>> }
#[cfg(feature = "hooks")]
impl Tasks {
    fn new() -> Tasks { Tasks { st: Default::default(), max: Default::default() } }
    fn running(&self) -> usize { self.st.lock().unwrap().iter().map(|s| (s.started - s.finished) as usize).sum() }
    fn make(&self, gate: Option<Arc<Gate>>, sleep: u64, boom: bool) -> (usize, Box<dyn FnOnce() + Send + 'static>) {
        let k = { let mut s = self.st.lock().unwrap(); s.push(Stat::default()); s.len() - 1 };
        let t = self.clone();
        (k, Box::new(move || {
            t.st.lock().unwrap()[k].started += 1;
            let n = t.running();
            { let mut m = t.max.lock().unwrap(); *m = n.max(*m); }
            t.st.lock().unwrap()[k].thread = Some(format!("{:?}", mcstd::thread::current().id()));
            if let Some(g) = gate { g.pass(); }
            if sleep > 0 { mc::sleep_ms(sleep); }
            t.st.lock().unwrap()[k].finished += 1;
            // with every kind of payload
            if boom { match k % 3 { 0 => panic!("expected panic"), 1 => std::panic::panic_any(k as u64), _ => panic!("expected panic {}", k) } }
        }))
    }
    fn get(&self) -> Vec<Stat> { self.st.lock().unwrap().clone() }
}
#[cfg(feature = "hooks")]
#[derive(Clone, Copy, PartialEq)]
enum Op { Submit, Gated, Sleeper, Boom, Release, Quiesce, Wait(u64) }
#[cfg(feature = "hooks")]
use Op::*;
/// Submit to a pool that has nothing to do but expire workers: a refusal while one of them is going away is tried again.
#[cfg(feature = "hooks")]
fn run_quiet(pool: &mut wruster::mc_hooks::ThreadPool, mut a: Box<dyn FnOnce() + Send + 'static>) -> bool {
    loop {
        let n = mc::live_threads();
        match pool.run(a) {
            Ok(()) => return true,
            Err(e) => { mc::quiesce(); if mc::live_threads() >= n { return false; } a = e.action; }
        }
    }
}
/// Histories over `ops` of length up to `depth`, then everything is released and the pool is dropped.
#[cfg(feature = "hooks")]
fn histories(shapes: &'static [(usize, usize)], ops: &'static [Op], depth: usize, check_capacity: bool) -> impl Fn() + Send + Sync + 'static {
    use wruster::mc_hooks::ThreadPool;
    move || {
        let (min, max) = shapes[mc::choose(shapes.len(), "pool")];
        let cap = min.max(max);
        let me = mc::live_threads();
        let mut pool = ThreadPool::new(min, max);
        let t = Tasks::new();
        let mut gates: Vec<Arc<Gate>> = vec![];
        let mut accepted: Vec<usize> = vec![];
        let mut refused: Vec<usize> = vec![];
        let mut hist = format!("({},{})", min, max);
        let mut done = false;
        for _ in 0..depth {
            if done { break; }
            let k = mc::choose(ops.len() + 1, "operation");
            if k == 0 { done = true; continue; }
            let op = ops[k - 1];
            match op {
                Submit | Gated | Sleeper | Boom => {
                    let g = if op == Gated { let g = Gate::new(false); gates.push(Arc::clone(&g)); Some(g) } else { None };
                    let (id, a) = t.make(g, if op == Sleeper { 3000 } else { 0 }, op == Boom);
                    let unfinished = accepted.iter().filter(|i| t.get()[**i].finished == 0).count();
                    match pool.run(a) {
                        Ok(()) => { accepted.push(id); hist += match op { Gated => " gated", Sleeper => " sleeper", Boom => " panics", _ => " task" }; }
                        Err(e) => {
                            if t.get()[id].started > 0 { mc::fail(format!("{}: a refused task was run", hist)); }
                            if op == Gated { gates.pop(); }
                            if unfinished == 0 && check_capacity && hist.ends_with("quiet") { mc::fail(format!("{}: an idle pool refuses a task", hist)); }
                            refused.push(id);
                            // what is handed back is the task itself
                            if op != Gated && op != Sleeper && op != Boom {
                                (e.action)();
                                if t.get()[id].started != 1 { mc::fail(format!("{}: the refused task is not what was handed back", hist)); }
                            } else { drop(e); }
                            hist += " refused";
                        }
                    }
                }
                Release => { if let Some(g) = gates.first() { g.open(); gates.remove(0); hist += " release"; } else { done = true; } }
                Quiesce => { mc::quiesce(); hist += " quiet"; }
                Wait(ms) => { mc::sleep_ms(ms); hist += &format!(" +{}ms", ms); }
            }
            if check_capacity && op == Quiesce {
                let s = t.get();
                let un: Vec<usize> = accepted.iter().copied().filter(|i| s[*i].finished == 0).collect();
                if let Some(i) = un.iter().find(|i| s[**i].started == 0) { mc::fail(format!("{}: task {} was accepted but waits for another one", hist, i)); }
                if un.len() < cap {
                    let (id, a) = t.make(None, 0, false);
                    if !run_quiet(&mut pool, a) { mc::fail(format!("{}: refused with {} of {} busy", hist, un.len(), cap)); }
                    accepted.push(id);
                    hist += " probe";
                }
            }
        }
        let m = *t.max.lock().unwrap();
        // refused tasks run by the submitter do not count
        if check_capacity && m > cap + 1 - refused.is_empty() as usize { mc::fail(format!("{}: {} tasks at the same time", hist, m)); }
        for g in gates.drain(..) { g.open(); }
        if check_capacity {
            // everything ends, then all of the capacity is there, and no more
            mc::sleep_ms(4000);
            mc::quiesce();
            let g = Gate::new(false);
            for i in 0..cap {
                let (id, a) = t.make(Some(Arc::clone(&g)), 0, false);
                if !run_quiet(&mut pool, a) { mc::fail(format!("{}: in the end only {} of {} tasks are accepted", hist, i, cap)); }
                accepted.push(id);
                mc::quiesce();
                if t.running() != i + 1 { mc::fail(format!("{}: in the end {} of {} accepted tasks run", hist, t.running(), i + 1)); }
            }
            let (_, a) = t.make(None, 0, false);
            if pool.run(a).is_ok() { mc::fail(format!("{}: one task more than the capacity is accepted", hist)); }
            g.open();
        }
        drop(pool);
        let s = t.get();
        for i in &accepted {
            if s[*i].started != 1 || s[*i].finished != 1 { mc::fail(format!("{}: task {} started {} times, ended {} times when drop returned", hist, i, s[*i].started, s[*i].finished)); }
            if s[*i].thread.as_deref() == Some(&format!("{:?}", mcstd::thread::current().id())) { mc::fail(format!("{}: a task ran on the submitting thread", hist)); }
        }
        if mc::live_threads() != me { mc::fail(format!("{}: threads are left: {}", hist, mc::describe())); }
        mc::outcome(format!("accepted {} refused {} threads {}", accepted.len(), refused.len(), accepted.iter().map(|i| s[*i].thread.clone()).collect::<std::collections::BTreeSet<_>>().len()));
    }
}
/// Large pools: each of the running tasks is the one that ends, its place is taken again; then the pool is dropped with all of them running.
#[cfg(feature = "hooks")]
fn large(shapes: &'static [(usize, usize)]) -> impl Fn() + Send + Sync + 'static {
    use wruster::mc_hooks::ThreadPool;
    move || {
        let (min, max) = shapes[mc::choose(shapes.len(), "pool")];
        let cap = min.max(max);
        let me = mc::live_threads();
        let t = Tasks::new();
        let mut pool = ThreadPool::new(min, max);
        let mut busy: Vec<(usize, Arc<Gate>)> = vec![];
        let fill = |pool: &mut ThreadPool, busy: &mut Vec<(usize, Arc<Gate>)>, h: &str| while busy.len() < cap {
            let g = Gate::new(false);
            let (id, a) = t.make(Some(Arc::clone(&g)), 0, false);
            if !run_quiet(pool, a) { mc::fail(format!("({},{}) {}: refused with {} of {} busy", min, max, h, busy.len(), cap)); }
            busy.push((id, g));
            mc::quiesce();
            if t.running() != busy.len() { mc::fail(format!("({},{}) {}: {} tasks run, {} are accepted", min, max, h, t.running(), busy.len())); }
        };
        fill(&mut pool, &mut busy, "at first");
        let i = mc::choose(cap, "which one ends");
        let with = [0usize, 1, 63, 99][mc::choose(4, "and one more")] % cap;
        let wait = mc::choose(2, "wait") == 1;
        let h = format!("after the end of task {} and {} others{}", i, with.min(1), if wait { ", long ago" } else { "" });
        let mut out: Vec<usize> = vec![i];
        if with > 0 { out.push((i + with) % cap); }
        for k in &out { busy[*k].1.open(); }
        let ended: Vec<usize> = out.iter().map(|k| busy[*k].0).collect();
        busy.retain(|(id, _)| !ended.contains(id));
        mc::quiesce();
        if t.running() != busy.len() { mc::fail(format!("({},{}) {}: {} tasks run", min, max, h, t.running())); }
        if wait { mc::sleep_ms(11_000); }
        fill(&mut pool, &mut busy, &h);
        let (id, a) = t.make(None, 0, false);
        if pool.run(a).is_ok() { mc::fail(format!("({},{}) {}: a task beyond the capacity is accepted", min, max, h)); }
        // one of the last and one of the first go on for longer than the others
        let gates: Vec<Arc<Gate>> = busy.iter().map(|(_, g)| Arc::clone(g)).collect();
        let late = [0, i, cap - 1];
        let opener = mc::client("opener", move || {
            for (k, g) in gates.iter().enumerate() { if !late.contains(&k) { g.open(); } }
            for k in late { mc::sleep_ms(700); gates[k].open(); }
        });
        drop(pool);
        for (k, s) in t.get().iter().enumerate() { let n = (k != id) as u32; if s.started != n || s.finished != n { mc::fail(format!("({},{}) {}: drop returned with task {} started {} times, ended {} times", min, max, h, k, s.started, s.finished)); } }
        opener.join().unwrap();
        if mc::live_threads() != me { mc::fail(format!("({},{}) {}: threads are left", min, max, h)); }
        mc::outcome(format!("({},{}) {} {}", min, max, with.min(1), wait));
    }
}
#[cfg(feature = "hooks")]
const BIG: &[(usize, usize)] = &[(8, 100), (100, 100), (1, 100), (0, 130), (66, 2)];
#[cfg(feature = "hooks")]
fn large_scen() -> Scen { Scen::sched("large pools", 0, Config { preempt: false, switch_cost: 1, max_steps: 2_000_000, ..Config::default() }, large(BIG)) }
/// The same few tasks again and again: nothing wears out, every task runs once, the capacity stays what it is.
#[cfg(feature = "hooks")]
fn over_and_over(shapes: &'static [(usize, usize)], rounds: &'static [usize]) -> impl Fn() + Send + Sync + 'static {
    use wruster::mc_hooks::ThreadPool;
    move || {
        let (min, max) = shapes[mc::choose(shapes.len(), "pool")];
        let cap = min.max(max);
        let me = mc::live_threads();
        let n = rounds[mc::choose(rounds.len(), "rounds")];
        let kind = mc::choose(4, "kind of task");
        let at_once = 1 + mc::choose(cap, "tasks at once");
        let wait = [0u64, 1, 10_000, 4000][mc::choose(4, "wait")];
        let mut pool = ThreadPool::new(min, max);
        let t = Tasks::new();
        let mut accepted = vec![];
        for r in 0..n {
            let gate = Gate::new(false);
            for _ in 0..at_once {
                let boom = match kind { 0 => false, 1 => true, 2 => r % 2 == 0, _ => false };
                let (id, a) = t.make((kind != 3).then(|| Arc::clone(&gate)), 0, boom);
                if !run_quiet(&mut pool, a) { mc::fail(format!("({},{}): refused in round {} with fewer than {} busy", min, max, r, at_once)); }
                accepted.push(id);
                mc::quiesce();
            }
            if kind != 3 && t.running() != at_once { mc::fail(format!("({},{}): {} of {} accepted tasks run in round {}", min, max, t.running(), at_once, r)); }
            gate.open();
            mc::quiesce();
            match wait { 0 => {} 1 => if r % 10 == 9 { mc::sleep_ms(11_000); }, 4000 => if r % 3 == 2 { mc::sleep_ms(4000); }, x => mc::sleep_ms(x) }
        }
        mc::quiesce();
        let g = Gate::new(false);
        for i in 0..cap {
            let (id, a) = t.make(Some(Arc::clone(&g)), 0, false);
            if !run_quiet(&mut pool, a) { mc::fail(format!("({},{}) after {} rounds: only {} of {} tasks are accepted", min, max, n, i, cap)); }
            accepted.push(id);
            mc::quiesce();
            if t.running() != i + 1 { mc::fail(format!("({},{}) after {} rounds: {} of {} accepted tasks run", min, max, n, t.running(), i + 1)); }
        }
        let (_, a) = t.make(None, 0, false);
        if pool.run(a).is_ok() { mc::fail(format!("({},{}) after {} rounds: one task more than the capacity is accepted", min, max, n)); }
        let t0 = mc::now_ms();
        g.open();
        drop(pool);
        if mc::now_ms() > t0 + 10 { mc::fail(format!("({},{}) after {} rounds: drop takes {} ms", min, max, n, mc::now_ms() - t0)); }
        let s = t.get();
        for i in &accepted { if s[*i].started != 1 || s[*i].finished != 1 { mc::fail(format!("({},{}): task {} started {} times, ended {} times when drop returned", min, max, i, s[*i].started, s[*i].finished)); } }
        if mc::live_threads() != me { mc::fail(format!("({},{}): threads are left: {}", min, max, mc::describe())); }
        mc::outcome(format!("({},{}) kind {} by {} wait {}", min, max, kind, at_once, wait));
    }
}
#[cfg(feature = "hooks")]
const SHAPES: &[(usize, usize)] = &[(1, 1), (1, 2), (0, 1), (2, 2), (0, 2), (2, 1), (1, 3), (2, 3)];
#[cfg(feature = "hooks")]
const SMALL: &[(usize, usize)] = &[(1, 1), (1, 2), (0, 1), (0, 2), (2, 2)];
#[cfg(feature = "hooks")]
const TINY: &[(usize, usize)] = &[(1, 2), (0, 1)];
#[cfg(feature = "hooks")]
const ALL: &[Op] = &[Submit, Gated, Release, Sleeper, Wait(10_000), Wait(3000), Wait(13_000)];
#[cfg(feature = "hooks")]
const RACY: &[Op] = &[Submit, Gated, Release, Wait(10_000)];
#[cfg(feature = "hooks")]
fn c13(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let b = Config::default();
    let one = Config { switch_cost: 1, ..b.clone() };
    vec![
        Scen::sched("long histories", 0, one.clone(), histories(SHAPES, ALL, if th { 6 } else { 5 }, false)),
        large_scen(),
        Scen::sched("histories under preemption", 1, one.clone(), histories(SHAPES, RACY, if th { 5 } else { 4 }, false)),
        Scen::sched("short histories under preemption", if th { 4 } else { 3 }, b.clone(), histories(if th { SMALL } else { TINY }, &[Submit, Gated, Release], 3, false)),
        Scen::sched("over and over", 0, Config { preempt: false, switch_cost: 1, max_steps: 2_000_000, ..Config::default() }, over_and_over(SHAPES, if th { &[3, 6, 20, 70, 140, 300, 600] } else { &[3, 6, 20, 70, 140] })),
        Scen::sched("idle expiry under preemption", if th { 4 } else { 3 }, Config { timer_dev: true, ..b }, histories(&[(0, 1), (1, 2)], &[Submit, Wait(10_000)], if th { 4 } else { 3 }, false)),
    ]
}
/// Which of the tasks end, out of a full pool, is chosen in every way, several times: as many new ones are accepted and run, and not one more.
#[cfg(feature = "hooks")]
fn occupancy(shapes: &'static [(usize, usize)], rounds: usize) -> impl Fn() + Send + Sync + 'static {
    use wruster::mc_hooks::ThreadPool;
    move || {
        let (min, max) = shapes[mc::choose(shapes.len(), "pool")];
        let cap = min.max(max);
        let me = mc::live_threads();
        let t = Tasks::new();
        let mut pool = ThreadPool::new(min, max);
        let before = mc::choose(cap + 1, "tasks before");
        let mut hist = format!("({},{}) after {} tasks:", min, max, before);
        for _ in 0..before { if pool.run(t.make(None, 0, false).1).is_err() { mc::fail(format!("{} an idle pool refuses a task", hist)); } mc::quiesce(); }
        let mut busy: Vec<(usize, Arc<Gate>)> = vec![];
        let mut total = 0;
        for r in 0..rounds + 1 {
            while busy.len() < cap {
                let g = Gate::new(false);
                let (id, a) = t.make(Some(Arc::clone(&g)), 0, false);
                if !run_quiet(&mut pool, a) { mc::fail(format!("{} refused with {} of {} busy", hist, busy.len(), cap)); }
                busy.push((id, g));
                total += 1;
                mc::quiesce();
                if t.running() != busy.len() { mc::fail(format!("{} {} tasks run, {} are accepted", hist, t.running(), busy.len())); }
            }
            let (id, a) = t.make(None, 0, false);
            if pool.run(a).is_ok() || t.get()[id].started > 0 { mc::fail(format!("{} a task beyond the capacity is accepted", hist)); }
            if r == rounds { break; }
            let set = mc::choose(1 << cap, "which ones end");
            hist += &format!(" {:b}", set);
            let mut k = 0;
            busy.retain(|(_, g)| { let out = set >> k & 1 == 1; k += 1; if out { g.open(); } !out });
            mc::quiesce();
            if mc::choose(2, "wait") == 1 { mc::sleep_ms(11_000); hist += " wait"; }
        }
        for (_, g) in &busy { g.open(); }
        drop(pool);
        let done: u32 = t.get().iter().map(|s| s.finished).sum();
        if done as usize != total + before { mc::fail(format!("{} {} of {} tasks ended", hist, done, total + before)); }
        if mc::live_threads() != me { mc::fail(format!("{} threads are left: {}", hist, mc::describe())); }
        mc::outcome(format!("({},{}) {}", min, max, total));
    }
}
#[cfg(feature = "hooks")]
const WIDE: &[(usize, usize)] = &[(3, 3), (4, 4), (4, 0), (2, 4), (0, 4), (1, 3)];
#[cfg(feature = "hooks")]
const WIDER: &[(usize, usize)] = &[(3, 3), (4, 4), (4, 0), (2, 4), (0, 4), (1, 3), (5, 5), (1, 5), (5, 2)];
#[cfg(feature = "hooks")]
fn c14(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let b = Config::default();
    let one = Config { switch_cost: 1, ..b.clone() };
    vec![
        Scen::sched("long histories", 0, one.clone(), histories(SHAPES, &[Gated, Release, Submit, Quiesce, Wait(10_000), Wait(13_000), Sleeper], if th { 6 } else { 5 }, true)),
        Scen::sched("histories with panics", 0, one.clone(), histories(SHAPES, &[Gated, Release, Boom, Quiesce, Wait(10_000)], if th { 6 } else { 5 }, true)),
        large_scen(),
        Scen::sched("histories under preemption", 1, one.clone(), histories(SMALL, &[Gated, Release, Submit, Quiesce, Wait(10_000)], if th { 4 } else { 3 }, true)),
        Scen::sched("short histories under preemption", 2, if th { b.clone() } else { one.clone() }, histories(SMALL, &[Gated, Release, Submit, Wait(10_000)], if th { 3 } else { 2 }, true)),
        Scen::sched("panics under preemption", 1, one, histories(SMALL, &[Gated, Boom, Quiesce, Wait(10_000)], 3, true)),
        Scen::sched("idle expiry under preemption", if th { 3 } else { 2 }, Config { timer_dev: true, ..b }, histories(&[(0, 1), (0, 2)], &[Submit, Wait(10_000)], 3, true)),
        Scen::sched("over and over", 0, Config { preempt: false, switch_cost: 1, max_steps: 2_000_000, ..Config::default() }, over_and_over(SHAPES, if th { &[3, 6, 20, 70, 140, 300, 600] } else { &[3, 6, 20, 70, 140] })),
        Scen::sched("every subset of the running tasks ends", 0, Config { switch_cost: 1, ..Config::default() }, occupancy(if th { WIDER } else { WIDE }, if th { 3 } else { 2 })),
    ]
}
#[cfg(feature = "hooks")]
fn c15(tier: &str, _: &str) -> Vec<Scen> {
    use wruster::mc_hooks::ThreadPool;
    let th = tier == "thorough";
    let b = Config::default();
    let drops = |shapes: &'static [(usize, usize)], n: usize| move || {
        let (min, max) = shapes[mc::choose(shapes.len(), "pool")];
        let me = mc::live_threads();
        let t = Tasks::new();
        let mut pool = ThreadPool::new(min, max);
        let gate = Gate::new(false);
        let mut accepted = vec![];
        let mut gated = false;
        let mut sleeping = 0;
        for _ in 0..n {
            let k = mc::choose(5, "task");
            if k == 0 { break; }
            let (id, a) = match k { 1 => t.make(None, 0, false), 2 => t.make(Some(Arc::clone(&gate)), 0, false), 3 => t.make(None, 3000, false), _ => t.make(None, 0, true) };
            if pool.run(a).is_ok() { accepted.push(id); gated |= k == 2; if k == 3 { sleeping += 1; } }
        }
        let age = [0u64, 1, 3000, 10_000, 13_000][mc::choose(5, "age")];
        if age == 1 { mc::quiesce(); } else if age > 0 { mc::sleep_ms(age); }
        let t0 = mc::now_ms();
        // the gate opens before, while or after drop starts
        let delay = if gated { [0u64, 2000][mc::choose(2, "gate")] } else { 0 };
        let g2 = Arc::clone(&gate);
        let opener = mc::client("opener", move || { if delay > 0 { mc::sleep_ms(delay); } g2.open(); });
        drop(pool);
        let dt = mc::now_ms() - t0;
        let s = t.get();
        for i in &accepted { if s[*i].started != 1 || s[*i].finished != 1 { mc::fail(format!("pool ({},{}): drop returned with task {} started {} times, ended {} times", min, max, i, s[*i].started, s[*i].finished)); } }
        let bound = delay + if sleeping > 0 { 3000 } else { 0 } + 10;
        if dt > bound { mc::fail(format!("pool ({},{}) age {}: drop took {} ms, the tasks took {} ms", min, max, age, dt, bound)); }
        opener.join().unwrap();
        if mc::live_threads() != me { mc::fail(format!("threads left: {}", mc::describe())); }
        mc::outcome(format!("({},{}) {} tasks, {} ms", min, max, accepted.len(), dt));
    };
    vec![
        Scen::sched("over and over", 0, Config { preempt: false, switch_cost: 1, max_steps: 2_000_000, ..Config::default() }, over_and_over(SHAPES, if th { &[3, 6, 20, 70, 140, 300, 600] } else { &[3, 6, 20, 70, 140] })),
        large_scen(),
        Scen::sched("drop, all histories", 0, Config { switch_cost: 1, ..b.clone() }, drops(SHAPES, if th { 4 } else { 3 })),
        Scen::sched("drop under preemption", 2, Config { switch_cost: 1, ..b.clone() }, drops(SMALL, 2)),
        Scen::sched("drop of small pools under preemption", if th { 5 } else { 4 }, b.clone(), drops(&[(1, 2), (0, 1)], 1)),
        Scen::sched("drop racing with idle expiry", if th { 5 } else { 4 }, Config { timer_dev: true, ..b }, || {
            let me = mc::live_threads();
            let t = Tasks::new();
            let shape = [(0, 1), (1, 2), (0, 2)][mc::choose(3, "pool")];
            let mut pool = ThreadPool::new(shape.0, shape.1);
            let n = 1 + mc::choose(2, "tasks");
            let mut acc = 0;
            for _ in 0..n { if pool.run(t.make(None, 0, false).1).is_ok() { acc += 1; } }
            mc::sleep_ms(10_000);
            let t0 = mc::now_ms();
            drop(pool);
            let _ = t0; // here time passes by itself
            let f: u32 = t.get().iter().map(|s| s.finished).sum();
            if f != acc { mc::fail(format!("{} of {} tasks ended", f, acc)); }
            if mc::live_threads() != me { mc::fail(format!("threads left: {}", mc::describe())); }
            mc::outcome(format!("{:?} {}", shape, acc));
        }),
    ]
}

// ------------------------------------------------------------------ the connection pool
#[cfg(feature = "hooks")]
struct Conn { id: u64, dropped: Arc<Mutex<Vec<u64>>> }
#[cfg(feature = "hooks")]
impl Drop for Conn { fn drop(&mut self) { self.dropped.lock().unwrap().push(self.id); } }
#[cfg(feature = "hooks")]
const CAP: usize = 100;
#[cfg(feature = "hooks")]
const CYCLE: u64 = 15_000;
#[cfg(feature = "hooks")]
type CPool = wruster::mc_hooks::ConnectionPool<Conn>;
#[cfg(feature = "hooks")]
fn res(id: u64, d: &Arc<Mutex<Vec<u64>>>) -> wruster::mc_hooks::PoolResource<Conn> { wruster::mc_hooks::PoolResource::new(Conn { id, dropped: Arc::clone(d) }) }

#[cfg(feature = "hooks")]
fn c27(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    // prefill: entries p0..pn of increasing age order, then operations over keys k0,k1,p0,p1
    let run = |fill: usize, timeout: Option<u64>, idle: u64, depth: u32, ops: u64| {
        move |i: u64| -> Result<String, String> {
            let mut d = Dig(i);
            let dropped = Arc::new(Mutex::new(vec![]));
            let pool = CPool::new(timeout.map(Duration::from_millis));
            // (key, id, time)
            let mut m: Vec<(String, u64, u64)> = vec![];
            let mut next = 0u64;
            let mut hist = String::new();
            let mut notable = false;
            for k in 0..fill { pool.insert(&format!("p{}", k), res(next, &dropped)); m.push((format!("p{}", k), next, mc::now_ms())); next += 1; mc::sleep_ms(1); }
            let mut held = vec![];
            for _ in 0..depth {
                let k = d.n(ops);
                let now = mc::now_ms();
                let age = |t: u64| now - t;
                let fail = |h: &str, w: String| Err(format!("{} entries, timeout {:?}, {}: {}", fill, timeout, h, w));
                match k {
                    0 | 1 | 7 => { // insert
                        let key = ["k0", "k1", "", "", "", "", "", "p1"][k as usize].to_string();
                        pool.insert(&key, res(next, &dropped));
                        hist += &format!(" insert({})", key);
                        if !m.iter().any(|e| e.0 == key) && m.len() == CAP {
                            let j = (0..m.len()).min_by_key(|j| m[*j].2).unwrap();
                            m.remove(j);
                            notable = true;
                        }
                        m.retain(|e| e.0 != key);
                        m.push((key, next, now));
                        next += 1;
                    }
                    2 | 3 | 8 => { // get
                        let key = ["", "", "k0", if fill > 0 { "p0" } else { "k1" }, "", "", "", "", "p1"][k as usize].to_string();
                        let r = pool.get(&key).map(|r| r.resource());
                        hist += &format!(" get({})", key);
                        let e = m.iter().position(|e| e.0 == key);
                        match (r, e) {
                            (None, None) => {}
                            (Some(c), Some(j)) if c.id == m[j].1 => {
                                if age(m[j].2) > idle + CYCLE + 10 { return fail(&hist, format!("returned an entry idle for {} ms", age(m[j].2))); }
                                m.remove(j);
                                held.push(c);
                                notable = true;
                            }
                            (None, Some(j)) => {
                                if age(m[j].2) < idle { return fail(&hist, format!("the entry used {} ms ago is gone", age(m[j].2))); }
                                m.remove(j);
                                notable = true;
                            }
                            (Some(c), None) => return fail(&hist, format!("returned {} which is not in the pool", c.id)),
                            (Some(c), Some(j)) => return fail(&hist, format!("returned {} instead of {}", c.id, m[j].1)),
                        }
                    }
                    4 => { mc::sleep_ms(7_000); hist += " +7s"; }
                    5 => { mc::sleep_ms(idle - 7_001.min(idle - 1)); hist += &format!(" +{}ms", idle - 7_001.min(idle - 1)); }
                    _ => { // drain
                        let mut got: Vec<u64> = pool.drain().into_iter().map(|r| { let c = r.resource(); let id = c.id; held.push(c); id }).collect();
                        got.sort();
                        hist += " drain";
                        for e in &m {
                            if got.contains(&e.1) { if age(e.2) > idle + CYCLE + 10 { return fail(&hist, format!("returned an entry idle for {} ms", age(e.2))); } }
                            else if age(e.2) < idle { return fail(&hist, format!("entry {} used {} ms ago is lost", e.0, age(e.2))); }
                        }
                        let n = got.len();
                        got.dedup();
                        if got.len() != n || got.iter().any(|g| !m.iter().any(|e| e.1 == *g)) { return fail(&hist, format!("drained {:?}", got)); }
                        notable |= n > 0;
                        m.clear();
                    }
                }
            }
            // in the end the pool holds what the model says
            let now = mc::now_ms();
            let got: Vec<u64> = pool.drain().into_iter().map(|r| { let c = r.resource(); let id = c.id; held.push(c); id }).collect();
            if got.len() > CAP { return Err(format!("{} entries in the pool after{}", got.len(), hist)); }
            for e in &m { if !got.contains(&e.1) && now - e.2 < idle { return Err(format!("{} entries, timeout {:?}, {}: entry {} is lost", fill, timeout, hist, e.0)); } }
            for g in &got { if !m.iter().any(|e| e.1 == *g && now - e.2 <= idle + CYCLE + 10) { return Err(format!("{} entries, timeout {:?}, {}: entry {} is still there", fill, timeout, hist, g)); } }
            // handed out entries are alive, the others are dropped exactly once
            let dr = dropped.lock().unwrap().clone();
            for c in &held { if dr.contains(&c.id) { return Err(format!("{}: an entry handed out was dropped", hist)); } }
            if dr.len() + held.len() != next as usize { return Err(format!("{}: {} entries dropped and {} handed out of {}", hist, dr.len(), held.len(), next)); }
            let t0 = mc::now_ms();
            drop(pool);
            if mc::now_ms() > t0 + 10 { return Err(format!("drop took {} ms", mc::now_ms() - t0)); }
            if mc::live_threads() != 1 { return Err(format!("threads left: {}", mc::describe())); }
            Ok(if notable { "entries returned, evicted or expired".into() } else { "-nothing returned".into() })
        }
    };
    let mut v = vec![];
    let dp = if th { 7 } else { 5 };
    for (t, idle) in [(None, 30_000u64), (Some(10_000), 10_000), (Some(20_000), 20_000)] {
        v.push(Scen::cases(format!("empty pool, timeout {:?}", t), 7u64.pow(dp), 50, run(0, t, idle, dp, 7)));
    }
    let dp = if th { 5 } else { 4 };
    for fill in [CAP - 2, CAP - 1, CAP] {
        v.push(Scen::cases(format!("{} entries", fill), 9u64.pow(dp), 50, run(fill, Some(3_600_000), 3_600_000, dp, 9)));
        v.push(Scen::cases(format!("{} entries that expire", fill), 7u64.pow(3), 50, run_expiring(fill)));
    }
    v
}
/// Nearly full pools whose entries all expire: the pool is usable afterwards.
#[cfg(feature = "hooks")]
fn run_expiring(fill: usize) -> impl Fn(u64) -> Result<String, String> + Send + Sync {
    move |i| {
        let mut d = Dig(i);
        let dropped = Arc::new(Mutex::new(vec![]));
        let pool = CPool::new(Some(Duration::from_millis(10_000)));
        for k in 0..fill as u64 { pool.insert(&format!("p{}", k), res(k, &dropped)); mc::sleep_ms(1); }
        let wait = [0u64, 5_000, 9_000, 11_000, 24_000, 26_000, 60_000][d.n(7) as usize];
        mc::sleep_ms(wait);
        let n = d.n(7);
        for k in 0..n { pool.insert(&format!("n{}", k), res(1000 + k, &dropped)); mc::sleep_ms(1); }
        let _ = d.n(7);
        let got: Vec<u64> = pool.drain().into_iter().map(|r| r.id).collect();
        for k in 0..n { if !got.contains(&(1000 + k)) { return Err(format!("{} entries, {} ms, {} new: the new entry {} is not there", fill, wait, n, k)); } }
        if got.len() > CAP { return Err(format!("{} entries", got.len())); }
        let old = got.iter().filter(|g| **g < 1000).count();
        if wait > 26_000 && old > 0 { return Err(format!("{} entries idle for {} ms are still there", old, wait)); }
        // as many of the old ones as fit, and of those the most recently used
        if wait < 9_500 {
            let keep = fill.min(CAP - n as usize);
            for k in fill - keep..fill { if !got.contains(&(k as u64)) { return Err(format!("{} entries, {} ms, {} new: entry p{} is lost", fill, wait, n, k)); } }
        }
        Ok("expired or evicted".into())
    }
}
#[cfg(feature = "hooks")]
fn c28(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let b = Config::default();
    // two users and the expiry thread
    let users = |depth: usize, timeout: u64, keys: usize| move || {
        let dropped = Arc::new(Mutex::new(vec![]));
        let pool = Arc::new(CPool::new(Some(Duration::from_millis(timeout))));
        let taken: Arc<Mutex<Vec<u64>>> = Default::default();
        let ins: Arc<Mutex<Vec<u64>>> = Default::default();
        let held: Arc<Mutex<Vec<Conn>>> = Default::default();
        let plan: Vec<Vec<usize>> = (0..2).map(|_| (0..depth).map(|_| mc::choose(3 + keys, "operation")).collect()).collect();
        let start = Instant::now();
        let hs: Vec<_> = plan.into_iter().enumerate().map(|(u, ops)| {
            let (pool, dropped, taken, ins, held) = (pool.clone(), dropped.clone(), taken.clone(), ins.clone(), held.clone());
            mc::client(&format!("user{}", u), move || {
                let take = |c: Conn| { if taken.lock().unwrap().contains(&c.id) { mc::fail(format!("{} is handed out twice", c.id)); } taken.lock().unwrap().push(c.id); held.lock().unwrap().push(c); };
                for (n, op) in ops.into_iter().enumerate() {
                    match op {
                        0 => if let Some(r) = pool.get("k0") { take(r.resource()); },
                        1 => for r in pool.drain() { take(r.resource()); },
                        2 => mc::sleep_ms(CYCLE),
                        k => { let id = (u * 10 + n) as u64; ins.lock().unwrap().push(id); pool.insert(&format!("k{}", k - 3), res(id, &dropped)); }
                    }
                }
            })
        }).collect();
        for x in hs { x.join().unwrap(); }
        let idle_possible = start.elapsed() >= Duration::from_millis(timeout);
        for r in pool.drain() { let c = r.resource(); if taken.lock().unwrap().contains(&c.id) { mc::fail(format!("{} is handed out twice", c.id)); } taken.lock().unwrap().push(c.id); held.lock().unwrap().push(c); }
        let (ins, taken, dr) = (ins.lock().unwrap().clone(), taken.lock().unwrap().clone(), dropped.lock().unwrap().clone());
        for i in &taken { if dr.contains(i) { mc::fail(format!("{} was handed out and dropped", i)); } }
        for i in &ins { if !taken.contains(i) && !dr.contains(i) { mc::fail(format!("{} is neither handed out nor dropped", i)); } }
        // without expiry an entry is dropped only when another one replaces it: the last one of a key survives
        if !idle_possible && keys == 1 && dr.len() >= ins.len().max(1) { mc::fail(format!("inserted {:?}, all of them dropped", ins)); }
        if !idle_possible && keys == 2 && ins.len() == 1 && taken.len() != 1 { mc::fail(format!("inserted {:?}, handed out {:?}", ins, taken)); }
        mc::outcome(format!("{} in, {} out", ins.len(), taken.len()));
        let t0 = mc::now_ms();
        drop(Arc::try_unwrap(pool).map_err(|_| ()).unwrap());
        if mc::now_ms() > t0 + 10 { mc::fail(format!("drop took {} ms", mc::now_ms() - t0)); }
        if mc::live_threads() > 1 { mc::fail(format!("threads left: {}", mc::describe())); }
    };
    let drops = |timed: bool| move || {
        let dropped = Arc::new(Mutex::new(vec![]));
        let n = mc::choose(3, "entries");
        let pool = CPool::new(Some(Duration::from_millis(10_000)));
        for k in 0..n { pool.insert(&format!("k{}", k), res(k as u64, &dropped)); }
        let w = [0u64, 1, 15_000, 14_999, 30_000][mc::choose(5, "age")];
        if w == 1 { mc::quiesce(); } else if w > 0 { mc::sleep_ms(w); }
        let t0 = mc::now_ms();
        drop(pool);
        if timed && mc::now_ms() > t0 + 10 { mc::fail(format!("drop took {} ms", mc::now_ms() - t0)); }
        if mc::live_threads() > 1 { mc::fail(format!("threads left: {}", mc::describe())); }
        if dropped.lock().unwrap().len() != n { mc::fail(format!("{} of {} entries dropped with the pool", dropped.lock().unwrap().len(), n)); }
        mc::outcome(format!("{} {}", n, w));
    };
    vec![
        Scen::sched("two users", if th { 3 } else { 2 }, b.clone(), users(2, 10_000, 1)),
        Scen::sched("two users, two keys", if th { 2 } else { 1 }, b.clone(), users(if th { 3 } else { 2 }, 3_600_000, 2)),
        Scen::sched("two users, longer", if th { 2 } else { 1 }, Config { switch_cost: 1, ..b.clone() }, users(3, 20_000, 1)),
        Scen::sched("drop against the expiry thread", if th { 6 } else { 5 }, b.clone(), drops(true)),
        Scen::sched("drop against the expiry thread, timers racing", if th { 5 } else { 4 }, Config { timer_dev: true, ..b.clone() }, drops(false)),
    ]
}
