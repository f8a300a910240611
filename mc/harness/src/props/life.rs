//! Panics, shutdown and the life cycle of a server: C16, C17, C18, C20, C33.
use super::srv::*;
use super::util::*;
use super::{Prop, P0};
use crate::engine::Scen;
use crate::net::*;
use mcstd::rt::Fault;
use mcstd::{mc, rt::Config, thread as ft};
use std::io::{self, Cursor, Read};
use std::sync::{Arc, Mutex};
use wruster::http::{Body, HttpMethod, Response, StatusCode};
use wruster::router::Router;
use wruster::Server;

const A: &[&str] = &["sequentially consistent interleavings of the façade's synchronization and socket operations", "the façade's sockets, poller, timers and channels behave like the real ones (checked by the conformance traces)", "handlers themselves end (when their gate is opened)", "bounds: deviations (preemptions, faults, early timers) per execution as given per scenario"];
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C16", scen: c16, assumptions: A, ..P0 },
        Prop { id: "C17", scen: c17, assumptions: A, ..P0 },
        Prop { id: "C18", scen: c18, assumptions: A, ..P0 },
        Prop { id: "C20", scen: c20, assumptions: A, ..P0 },
        Prop { id: "C33", scen: c33, assumptions: A, ..P0 },
    ]
}
#[cfg(not(feature = "hooks"))]
pub fn scen_for(id: &str, tier: &str, group: &str) -> Vec<Scen> { match id { "C18" => c18(tier, group), _ => vec![] } }

/// Calls shutdown in a thread of its own and keeps its result and the time it took.
#[derive(Clone, Default)]
pub struct Stop(Arc<Mutex<Option<(Result<(), String>, u64)>>>);
impl Stop {
    pub fn call(s: Server, before: impl FnOnce() + Send + 'static) -> (Stop, ft::JoinHandle<()>) {
        let st = Stop::default();
        let st2 = st.clone();
        let h = mc::client("stopper", move || {
            before();
            let t = mc::now_ms();
            let r = s.shutdown().map_err(|e| e.to_string());
            *st2.0.lock().unwrap() = Some((r, mc::now_ms() - t));
        });
        (st, h)
    }
    pub fn get(&self) -> Option<(Result<(), String>, u64)> { self.0.lock().unwrap().clone() }
}
pub struct Boom { pub left: usize }
impl Read for Boom {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.left == 0 { panic!("expected panic in a body"); }
        let n = self.left.min(b.len());
        b[..n].fill(b'x');
        self.left -= n;
        Ok(n)
    }
}
pub fn big(n: usize) -> Vec<u8> { (0..n).map(|i| b'a' + (i % 23) as u8).collect() }
pub fn raw(b: Vec<u8>) -> Response { let n = b.len() as u64; Response::from_content(Cursor::new(b), n, text()) }
/// `/boom`, `/late`, `/body<k>` panic; `/gate...` waits, `/gboom` waits and panics; everything else echoes.
pub fn boom_routes(rec: &Rec, gate: &Arc<Gate>) -> Router {
    let mk = || {
        let (rec, gate) = (rec.clone(), Arc::clone(gate));
        h(move |r| {
            let u = r.uri.clone();
            if u == "/boom" { rec.push(u); panic!("expected panic"); }
            if u == "/boomtext" { rec.push(u); let n = r.headers.iter().count(); panic!("expected panic {}", n); }
            if u == "/boomany" { rec.push(u); std::panic::panic_any(7u64); }
            if u == "/boomagain" { rec.push(u); std::panic::resume_unwind(Box::new(vec![1u8])); }
            if u == "/boomhalf" { rec.push(u); let _ = r.body.as_mut().map(|b| b.read(&mut [0; 4])); panic!("expected panic"); }
            if let Some(k) = u.strip_prefix("/body") {
                rec.push(&u);
                return Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(None, 100, Box::new(Boom { left: k.parse().unwrap() }))) };
            }
            if u.starts_with("/g") { rec.push(u.clone()); gate.pass(); }
            if u == "/gboom" { panic!("expected panic"); }
            let d = describe_req(r);
            if u == "/late" { rec.push(u); panic!("expected panic"); }
            if !u.starts_with("/g") { rec.push(d.clone()); }
            reply(&d)
        })
    };
    routes(vec![("/", HttpMethod::GET, mk()), ("/", HttpMethod::POST, mk())])
}
fn boom_req(k: usize) -> Vec<u8> {
    match k {
        0 => get("/boom"),
        1 => post("/late", "some body"),
        2 => post("/boom", "some body"),
        3 => get("/body0"),
        4 => get("/body7"),
        5 => get("/boomany"),
        6 => get("/boomtext"),
        7 => post("/boomhalf", "some body"),
        _ => get("/boomagain"),
    }
}
const BOOMS: usize = 9;
/// The connection of a handler that panicked is closed or answered with an error.
fn after_panic(c: &mut Client) -> String {
    match c.resp() {
        Ok(r) if r.status >= 400 => format!("{}", r.status),
        Ok(r) => mc::fail(format!("a handler panicked and its client got {} {:?}", r.status, r.text())),
        Err(RErr::Bad(e)) => mc::fail(format!("a handler panicked and its client got {}", e)),
        Err(RErr::Io(io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut)) => mc::fail("a handler panicked and its connection stays open without an answer"),
        Err(RErr::Cut(_)) => "cut".into(),
        Err(_) => "closed".into(),
    }
}
/// As many handlers as the server can have run at the same time.
pub fn full_house(n: usize, gate: &Arc<Gate>, rec: &Rec, path: &str) -> Vec<Client> {
    mc::set_preempt(false);
    mc::set_quiet(true);
    let mut v = vec![];
    let base = rec.get().iter().filter(|x| x.starts_with(path)).count();
    for i in 0..n {
        let mut c = Client::connect();
        must_send(&mut c, &get(path));
        v.push(c);
        mc::quiesce();
        let k = rec.get().iter().filter(|x| x.starts_with(path)).count() - base;
        if k != i + 1 { mc::fail(format!("with {} handlers running only {} run after one more connection", i, k)); }
    }
    let _ = gate;
    mc::set_quiet(false);
    v
}
pub const CAPACITY: usize = 100;

// ------------------------------------------------------------------ C16
fn c16(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let mut v = vec![];
    let b = Config::default();
    for ncpu in if th { vec![1usize, 2] } else { vec![1] } {
        for (bound, switch_cost) in if th { [(2, 0), (3, 1)] } else { [(1, 0), (2, 1)] } {
            v.push(Scen::sched(format!("a panic beside another connection on {} units, switch cost {}", ncpu, switch_cost), bound, Config { ncpu, switch_cost, ..b.clone() }, move || {
                let rec = Rec::default();
                let gate = Gate::new(true);
                let s = start(boom_routes(&rec, &gate));
                let k = mc::choose(if bound > 1 && !th { 6 } else { BOOMS }, "kind of panic");
                let a = mc::client("panicking", move || {
                    let mut c = Client::connect();
                    c.timeout(600_000);
                    must_send(&mut c, &boom_req(k));
                    let r = after_panic(&mut c);
                    mc::outcome(format!("{} {}", k, r));
                });
                let n = mc::client("normal", || {
                    let mut c = Client::connect();
                    must_send(&mut c, &get("/1"));
                    expect_text(&mut c, "GET /1");
                    must_send(&mut c, &post("/2", "abc"));
                    expect_text(&mut c, "POST /2 abc");
                });
                a.join().unwrap();
                n.join().unwrap();
                served("/after");
                finish(s);
            }));
        }
    }
    // histories, then everything the server can handle at once
    let depth = if th { 4 } else { 2 };
    for ncpu in [1usize, 2, 4] {
        let depth = if ncpu == 1 { depth } else { depth.min(3) - 1 };
        v.push(Scen::sched(format!("histories of panics, then {} concurrent requests on {} units", CAPACITY, ncpu), 0, Config { ncpu, switch_cost: 1, max_steps: 400_000, ..b.clone() }, move || {
            let rec = Rec::default();
            let gate = Gate::new(false);
            let s = start(boom_routes(&rec, &gate));
            mc::set_preempt(false);
            let mut hist = vec![];
            for _ in 0..depth {
                let k = mc::choose(BOOMS + 2, "request");
                hist.push(k);
                if k == BOOMS + 1 { mc::sleep_ms(11_000); continue; }
                let mut c = Client::connect();
                c.timeout(600_000);
                if k == BOOMS { must_send(&mut c, &get("/fine")); expect_text(&mut c, "GET /fine"); continue; }
                must_send(&mut c, &boom_req(k));
                after_panic(&mut c);
                drop(c);
                mc::quiesce();
            }
            let mut all = full_house(CAPACITY, &gate, &rec, "/g");
            gate.open();
            for c in all.iter_mut() { expect_text(c, "GET /g"); }
            drop(all);
            mc::outcome(format!("{:?}", hist));
            finish(s);
        }));
    }
    // the same panics over and over: nothing may wear out
    for ncpu in [1usize, 2] {
        v.push(Scen::sched(format!("panics over and over on {} units", ncpu), 0, Config { ncpu, preempt: false, switch_cost: 1, max_steps: 2_000_000, ..b.clone() }, || {
            let rec = Rec::default();
            let gate = Gate::new(false);
            let s = start(boom_routes(&rec, &gate));
            let n = [3, 10, 40, 120, 260][mc::choose(5, "panics")];
            let kind = mc::choose(BOOMS + 2, "kind of panic");
            let between = mc::choose(2, "a request between");
            for i in 0..n {
                let mut c = Client::connect();
                c.timeout(600_000);
                must_send(&mut c, &boom_req(if kind < BOOMS { kind } else { i % BOOMS }));
                after_panic(&mut c);
                drop(c);
                // the last kind: in bursts, without waiting for the worker
                if kind <= BOOMS || i % 7 == 0 { mc::quiesce(); }
                if between == 1 { served("/fine"); mc::quiesce(); }
            }
            mc::quiesce();
            let mut all = full_house(CAPACITY, &gate, &rec, "/g");
            gate.open();
            for c in all.iter_mut() { expect_text(c, "GET /g"); }
            drop(all);
            mc::outcome(format!("{} {} {}", n, kind, between));
            finish(s);
        }));
    }
    v.push(Scen::sched("all handlers panic at once", 0, Config { switch_cost: 1, max_steps: 800_000, ..b.clone() }, || {
        let rec = Rec::default();
        let gate = Gate::new(false);
        let s = start(boom_routes(&rec, &gate));
        let n = [1, 3, CAPACITY][mc::choose(3, "panics")];
        let mut all = full_house(n, &gate, &rec, "/gboom");
        gate.open();
        for c in all.iter_mut() { c.timeout(600_000); after_panic(c); }
        drop(all);
        mc::quiesce();
        if mc::choose(2, "wait") == 1 { mc::sleep_ms(11_000); }
        for round in 0..2 {
            let g2 = Gate::new(false);
            let _ = g2;
            let mut cs: Vec<Client> = (0..CAPACITY).map(|i| { let mut c = Client::connect(); must_send(&mut c, &get(&format!("/r{}/{}", round, i))); c }).collect();
            for (i, c) in cs.iter_mut().enumerate() { expect_text(c, &format!("GET /r{}/{}", round, i)); }
            // all of them keep their connection, one more would be refused
            drop(cs);
            mc::quiesce();
        }
        finish(s);
    }));
    // a panic while the server shuts down
    v.push(Scen::sched("a panic during shutdown", if th { 2 } else { 1 }, Config { switch_cost: 1, ..b.clone() }, || {
        let rec = Rec::default();
        let gate = Gate::new(false);
        let s = start(boom_routes(&rec, &gate));
        let mut a = Client::connect();
        must_send(&mut a, &get("/gboom"));
        let mut n = Client::connect();
        must_send(&mut n, &get("/g"));
        mc::quiesce();
        let (st, h) = Stop::call(s, || {});
        gate.open();
        a.timeout(600_000);
        after_panic(&mut a);
        expect_text(&mut n, "GET /g");
        h.join().unwrap();
        match st.get() { Some((Ok(()), _)) => {} x => mc::fail(format!("shutdown after a panic: {:?}", x)) }
        drop((a, n));
        leftovers();
    }));
    v.push(Scen::sched("a panic racing with shutdown", if th { 3 } else { 2 }, Config { switch_cost: 1, ..b.clone() }, || {
        let rec = Rec::default();
        let gate = Gate::new(true);
        let s = start(boom_routes(&rec, &gate));
        let mut a = Client::connect();
        let k = mc::choose(5, "kind of panic");
        let _ = a.send(&boom_req(k));
        let (st, h) = Stop::call(s, || {});
        a.timeout(600_000);
        after_panic(&mut a);
        h.join().unwrap();
        match st.get() { Some((Ok(()), _)) => {} x => mc::fail(format!("shutdown after a panic: {:?}", x)) }
        drop(a);
        leftovers();
    }));
    v
}

// ------------------------------------------------------------------ C17
const BIG: usize = 9000;
/// `/g`: waits for the gate, then reads its body; `/G`: the same with a large answer; `/L`: large answer at once.
fn phase_routes(rec: &Rec, gate: &Arc<Gate>) -> Router {
    let mk = || {
        let (rec, gate) = (rec.clone(), Arc::clone(gate));
        h(move |r| {
            let u = r.uri.clone();
            rec.push(&u);
            if u.starts_with("/g") || u.starts_with("/G") { gate.pass(); }
            let d = describe_req(r);
            if u.starts_with("/G") || u.starts_with("/L") { return raw(big(BIG)); }
            raw(d.into_bytes())
        })
    };
    routes(vec![("/", HttpMethod::GET, mk()), ("/", HttpMethod::POST, mk())])
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ph { Fresh, Idle, PartHead, PartBody, Running, RunningBody, RunningLarge, Writing, WritingKeep, Pipelined, PipelinedBody, ClosedByClient, HalfClosed }
use Ph::*;
const PHASES: [Ph; 13] = [Fresh, Idle, PartHead, PartBody, Running, RunningBody, RunningLarge, Writing, WritingKeep, Pipelined, PipelinedBody, ClosedByClient, HalfClosed];
const UPLOAD: usize = 2500;
fn enter(i: usize, p: Ph) -> Client {
    let mut c = Client::connect();
    let pth = |x: &str| format!("/{}{}", x, i);
    match p {
        Fresh => {}
        Idle => { must_send(&mut c, &get(&pth("k"))); expect_text(&mut c, &format!("GET /k{}", i)); }
        PartHead => must_send(&mut c, format!("GET {} HTTP/1.1\r\nHost: x\r\n", pth("p")).as_bytes()),
        PartBody => must_send(&mut c, format!("POST {} HTTP/1.1\r\nContent-Length: 10\r\n\r\nabc", pth("p")).as_bytes()),
        Running => must_send(&mut c, &get(&pth("g"))),
        RunningBody => must_send(&mut c, &post(&pth("g"), std::str::from_utf8(&big(UPLOAD)).unwrap())),
        RunningLarge => must_send(&mut c, &get(&pth("G"))),
        Writing => must_send(&mut c, format!("GET {} HTTP/1.1\r\nConnection: close\r\n\r\n", pth("L")).as_bytes()),
        WritingKeep => must_send(&mut c, &get(&pth("L"))),
        Pipelined => { let mut b = get(&pth("g")); b.extend(get(&pth("second"))); must_send(&mut c, &b); }
        PipelinedBody => { let mut b = post(&pth("g"), "hello"); b.extend(post(&pth("second"), "xyz")); must_send(&mut c, &b); }
        ClosedByClient => { must_send(&mut c, &get(&pth("k"))); expect_text(&mut c, &format!("GET /k{}", i)); c.fin(); }
        HalfClosed => { must_send(&mut c, &get(&pth("g"))); c.fin(); }
    }
    mc::quiesce();
    c
}
/// Is a handler waiting for its gate in this phase?
fn gated(p: Ph) -> bool { matches!(p, Running | RunningBody | RunningLarge | Pipelined | PipelinedBody | HalfClosed) }
/// does the server need the client's cooperation to finish?
fn writing(p: Ph) -> bool { matches!(p, Writing | WritingKeep) }
fn expect_answer(i: usize, p: Ph, c: &mut Client) {
    let want = match p {
        Running | Pipelined | HalfClosed => format!("GET /g{}", i).into_bytes(),
        PipelinedBody => format!("POST /g{} hello", i).into_bytes(),
        RunningBody => format!("POST /g{} {}", i, esc(&big(UPLOAD))).into_bytes(),
        RunningLarge | Writing | WritingKeep => big(BIG),
        _ => return,
    };
    match c.resp() {
        Ok(r) if r.status == 200 && r.body == want => {}
        Ok(r) => mc::fail(format!("{:?}: wrong answer {} \"{}\"", p, r.status, esc(&r.body))),
        Err(RErr::Cut(b)) => mc::fail(format!("{:?}: the answer to the request in progress is cut after {} bytes", p, b.len())),
        Err(e) => mc::fail(format!("{:?}: the request in progress is not answered: {:?}", p, e)),
    }
}
/// Whatever may still come on a connection after the server was stopped: complete answers to requests sent before, then the end.
fn expect_end(i: usize, p: Ph, c: &mut Client) {
    let mut n = 0;
    loop {
        match c.resp() {
            Ok(r) if matches!(p, Pipelined | PipelinedBody) && n == 0 && r.text().contains(&format!("/second{}", i)) => n += 1,
            Ok(r) if matches!(p, PartHead | PartBody) && n == 0 && r.status >= 400 => n += 1,
            // an answer of a handler whose request body ended early
            Ok(_) if p == PartBody && n == 0 => n += 1,
            Ok(r) => mc::fail(format!("{:?}: one answer more than expected: {} {:?}", p, r.status, esc(&r.body))),
            Err(RErr::Eof) | Err(RErr::Io(io::ErrorKind::ConnectionReset | io::ErrorKind::BrokenPipe)) => return,
            Err(RErr::Cut(b)) => mc::fail(format!("{:?}: an answer cut after {} bytes", p, b.len())),
            Err(e) => mc::fail(format!("{:?}: the connection does not end: {:?}", p, e)),
        }
    }
}
fn c17_quiet(n: usize) -> impl Fn() + Send + Sync {
    move || {
        let rec = Rec::default();
        let gate = Gate::new(false);
        let s = start(phase_routes(&rec, &gate));
        let ph: Vec<Ph> = (0..n).map(|_| PHASES[mc::choose(PHASES.len(), "phase")]).collect();
        let mut cs: Vec<Client> = ph.iter().enumerate().map(|(i, p)| enter(i, *p)).collect();
        for (i, p) in ph.iter().enumerate() {
            if gated(*p) && !rec.get().iter().any(|x| x.to_ascii_lowercase() == format!("/g{}", i)) { mc::fail(format!("the handler of {:?} does not run", p)); }
        }
        let t0 = mc::now_ms();
        let (st, hd) = Stop::call(s, || {});
        mc::quiesce();
        let wait = ph.iter().any(|p| gated(*p)) || ph.iter().any(|p| writing(*p));
        if wait && st.get().is_some() { mc::fail("shutdown returns while a request is in progress"); }
        if !wait && st.get().is_none() { mc::fail("shutdown of a server without any request in progress does not return at once"); }
        // idle connections are closed at once
        for (c, p) in cs.iter_mut().zip(&ph) {
            if matches!(p, Fresh | Idle) {
                c.timeout(1);
                if !c.at_eof() { mc::fail("an idle connection is sent something at shutdown"); }
                if mc::now_ms() != t0 { mc::fail("an idle connection is not closed at once"); }
            }
        }
        // nothing that is sent now is handled
        let before = rec.len();
        for (c, p) in cs.iter_mut().zip(&ph) {
            let _ = match p {
                PartHead => c.send(b"\r\nGET /late HTTP/1.1\r\n\r\n"),
                PartBody => Ok(()),
                ClosedByClient | HalfClosed => Ok(()),
                _ => c.send(&get("/late")),
            };
        }
        if let Ok(mut x) = Client::try_to(ADDR) { let _ = x.send(&get("/late")); mc::quiesce(); }
        mc::quiesce();
        if rec.len() != before { mc::fail(format!("started after shutdown: {:?}", &rec.get()[before..])); }
        gate.open();
        for (i, c) in cs.iter_mut().enumerate() {
            c.timeout(100_000);
            expect_answer(i, ph[i], c);
            expect_end(i, ph[i], c);
        }
        hd.join().unwrap();
        match st.get() { Some((Ok(()), 0)) => {} x => mc::fail(format!("shutdown: {:?}", x)) }
        if rec.get().iter().any(|x| x.contains("late")) { mc::fail(format!("started after shutdown: {:?}", rec.get())); }
        mc::outcome(format!("{:?} {}", ph, rec.len()));
        drop(cs);
        leftovers();
    }
}
/// Connections that come, are used and go, in every order, and then shutdown: whatever is idle is closed at once.
fn c17_history(len: usize) -> impl Fn() + Send + Sync {
    move || {
        let rec = Rec::default();
        let gate = Gate::new(true);
        let s = start(phase_routes(&rec, &gate));
        let mut cs: Vec<Client> = vec![];
        let mut hist = String::new();
        for _ in 0..len {
            let k = mc::choose(2 + 2 * cs.len(), "step");
            if k == 0 { break; }
            if k == 1 { hist.push('o'); cs.push(Client::connect()); mc::quiesce(); continue; }
            let (i, close) = ((k - 2) / 2, k % 2 == 0);
            hist.push_str(&format!("{}{}", if close { 'c' } else { 'r' }, i));
            if close { drop(cs.remove(i)); mc::quiesce(); continue; }
            must_send(&mut cs[i], &get("/k1"));
            expect_text(&mut cs[i], "GET /k1");
            mc::quiesce();
        }
        let t0 = mc::now_ms();
        let (st, hd) = Stop::call(s, || {});
        mc::quiesce();
        match st.get() { Some((Ok(()), 0)) => {} x => mc::fail(format!("{}: shutdown of a server with only idle connections: {:?}", hist, x)) }
        for (i, c) in cs.iter_mut().enumerate() {
            c.timeout(1);
            if !c.at_eof() { mc::fail(format!("{}: idle connection {} is sent something at shutdown", hist, i)); }
            if mc::now_ms() != t0 { mc::fail(format!("{}: idle connection {} is not closed at once", hist, i)); }
        }
        hd.join().unwrap();
        mc::outcome(format!("{} open", cs.len()));
        drop(cs);
        leftovers();
    }
}
/// As many idle connections as the server can have, used before or not, one of them or none in the middle of a request.
fn c17_many() {
    let rec = Rec::default();
    let gate = Gate::new(false);
    let s = start(phase_routes(&rec, &gate));
    let n = [9, 17, 40, 99, 100][mc::choose(5, "connections")];
    let used = mc::choose(3, "used before");
    let busy = [n, 0, n / 2, n - 1][mc::choose(4, "busy")];
    let mut cs: Vec<Client> = (0..n).map(|i| {
        let mut c = Client::connect();
        if i == busy { must_send(&mut c, &get(&format!("/g{}", i))); }
        else if used == 1 || used == 2 && i % 2 == 0 { must_send(&mut c, &get("/k1")); expect_text(&mut c, "GET /k1"); }
        mc::quiesce();
        c
    }).collect();
    let t0 = mc::now_ms();
    let (st, hd) = Stop::call(s, || {});
    mc::quiesce();
    if st.get().is_some() != (busy == n) { mc::fail(format!("{} connections, {} busy: shutdown {:?}", n, busy, st.get())); }
    for (i, c) in cs.iter_mut().enumerate() {
        if i == busy { continue; }
        c.timeout(1);
        if !c.at_eof() { mc::fail(format!("idle connection {} of {} is sent something at shutdown", i, n)); }
        if mc::now_ms() != t0 { mc::fail(format!("idle connection {} of {} is not closed at once", i, n)); }
    }
    gate.open();
    if busy < n { expect_text(&mut cs[busy], &format!("GET /g{}", busy)); }
    hd.join().unwrap();
    match st.get() { Some((Ok(()), 0)) => {} x => mc::fail(format!("shutdown: {:?}", x)) }
    mc::outcome(format!("{} used {} busy {}", n, used, busy < n));
    drop(cs);
    leftovers();
}
/// Bodies of every size, received before shutdown and read by their handlers after it; answers of every size.
fn c17_sizes(lens: &'static [usize]) -> impl Fn() + Send + Sync {
    move || {
        let len = lens[mc::choose(lens.len(), "body")];
        let answer = [0, 1, 8100, 8192, 40_000][mc::choose(5, "answer")];
        let early = [0, 1, 8192][mc::choose(3, "read before")].min(len);
        let keep = mc::choose(2, "keep-alive") == 1;
        let gate = Gate::new(false);
        let g = Arc::clone(&gate);
        let s = start(routes(vec![("/", HttpMethod::POST, h(move |r| {
            let b = r.body.as_mut().unwrap();
            let mut v = vec![0; early];
            let mut e = b.content.read_exact(&mut v).err();
            g.pass();
            if e.is_none() { e = b.content.read_to_end(&mut v).err(); }
            let mut out = match e { None => v, Some(e) => format!("{}", e).into_bytes() };
            out.extend(big(answer));
            raw(out)
        }))]));
        let body = big(len);
        let mut c = Client::connect();
        let mut m = format!("POST /x HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n", if keep { "" } else { "Connection: close\r\n" }, len).into_bytes();
        m.extend(&body);
        must_send(&mut c, &m);
        mc::quiesce();
        let (st, hd) = Stop::call(s, || {});
        mc::quiesce();
        if st.get().is_some() { mc::fail("shutdown returns while a request is in progress"); }
        gate.open();
        let mut want = body;
        want.extend(big(answer));
        match c.resp() {
            Ok(r) if r.status == 200 && r.body == want => {}
            x => mc::fail(format!("a body of {} bytes, {} read before shutdown, an answer of {}: {:?}", len, early, want.len(), x.map(|r| (r.status, r.body.len(), esc(&r.body[..r.body.len().min(60)]))))),
        }
        if !c.at_eof() { mc::fail("something after the answer"); }
        hd.join().unwrap();
        match st.get() { Some((Ok(()), 0)) => {} x => mc::fail(format!("shutdown: {:?}", x)) }
        mc::outcome(format!("{}", len / 8192));
        drop(c);
        leftovers();
    }
}
fn c17(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let b = Config { sock_cap: 3000, ..Config::default() };
    let one = Config { switch_cost: 1, ..b.clone() };
    let mut v = vec![
        Scen::sched("two connections in every phase", 0, one.clone(), c17_quiet(2)),
        Scen::sched("connections that come and go before shutdown", 0, one.clone(), c17_history(if th { 7 } else { 6 })),
        Scen::sched("many idle connections at shutdown", 0, one.clone(), c17_many),
        Scen::sched("bodies and answers of every size", 0, Config { sock_cap: 1 << 20, ..one.clone() }, c17_sizes(if th { &[1, 100, 2500, 8000, 8100, 8150, 8191, 8192, 8193, 9000, 16_383, 16_384, 16_385, 20_000, 24_577, 65_536, 65_537, 200_000] } else { &[1, 2500, 8100, 8192, 8193, 16_385, 20_000, 65_537] })),
                Scen::sched("one connection in every phase, under preemption", if th { 2 } else { 1 }, Config { max_steps: 20_000, ..one.clone() }, c17_quiet(1)),
        Scen::sched("one connection in every phase, free switches", 0, b.clone(), c17_quiet(1)),
        super::tls::c17_tls(th),
    ];
    if th {
        v.push(Scen::sched("three connections in every phase", 0, one.clone(), c17_quiet(3)));
        v.push(Scen::sched("two connections in every phase, under preemption", 1, one.clone(), c17_quiet(2)));
    }
    for (ncpu, bound, switch_cost) in if th { vec![(1usize, 3u32, 1u8), (1, 2, 0), (2, 3, 1)] } else { vec![(1, 2, 1), (1, 1, 0)] } {
        v.push(Scen::sched(format!("requests racing with shutdown on {} units, switch cost {}", ncpu, switch_cost), bound, Config { ncpu, switch_cost, ..b.clone() }, move || {
            let rec = Rec::default();
            let gate = Gate::new(true);
            let s = start(phase_routes(&rec, &gate));
            let kind = mc::choose(4, "request");
            let mut c = Client::connect();
            if kind == 3 { must_send(&mut c, &get("/k0")); expect_text(&mut c, "GET /k0"); }
            let r2 = rec.clone();
            let cl = mc::client("client", move || {
                let x = match kind { 0 | 3 => get("/x"), 1 => get("/Lx"), _ => post("/x", "abcdef") };
                let sent = c.send(&x).is_ok();
                let want = match kind { 0 | 3 => b"GET /x".to_vec(), 1 => big(BIG), _ => b"POST /x abcdef".to_vec() };
                c.timeout(100_000);
                let r = c.resp();
                let ok = match &r {
                    Ok(r) if r.status == 200 && r.body == want => true,
                    Ok(r) => mc::fail(format!("wrong answer {} {:?}", r.status, esc(&r.body))),
                    Err(RErr::Io(io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut)) => mc::fail("the connection stays open after shutdown"),
                    Err(_) => false,
                };
                (sent, ok, r.err())
            });
            let started = Arc::new(Mutex::new(false));
            let st2 = Arc::clone(&started);
            let r3 = r2.clone();
            let (st, hd) = Stop::call(s, move || { *st2.lock().unwrap() = r3.get().iter().any(|x| x.contains('x')); });
            let (sent, ok, err) = cl.join().unwrap();
            hd.join().unwrap();
            match st.get() { Some((Ok(()), 0)) => {} x => mc::fail(format!("shutdown: {:?}", x)) }
            let began = *started.lock().unwrap();
            if began && !ok { mc::fail(format!("the handler ran when shutdown was called, but the client got {:?}", err)); }
            if rec.len() > 1 + (kind == 3) as usize { mc::fail(format!("handled {:?}", rec.get())); }
            mc::outcome(format!("{} sent {} began {} answered {}", kind, sent, began, ok));
            leftovers();
        }));
    }
    v
}

// ------------------------------------------------------------------ C18
const RT: u64 = 2000;
const WT: u64 = 3000;
fn rebind(rec: &Rec, gate: &Arc<Gate>) {
    let s = start_t(phase_routes(rec, gate), RT, WT);
    served("/again");
    finish(s);
}
fn c18(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let b = Config { sock_cap: 3000, ..Config::default() };
    let one = Config { switch_cost: 1, ..b.clone() };
    let mut v = vec![];
    // connections in every phase whose clients do nothing any more
    let still = |n: usize| move || {
        let rec = Rec::default();
        let gate = Gate::new(true);
        let s = start_t(phase_routes(&rec, &gate), RT, WT);
        let ph: Vec<Ph> = (0..n).map(|_| PHASES[mc::choose(PHASES.len(), "phase")]).collect();
        let cs: Vec<Client> = ph.iter().enumerate().map(|(i, p)| enter(i, *p)).collect();
        let wait = [0, 500][mc::choose(2, "delay")];
        mc::sleep_ms(wait);
        let (st, hd) = Stop::call(s, || {});
        hd.join().unwrap();
        let (r, ms) = st.get().unwrap();
        if let Err(e) = r { mc::fail(format!("{:?}: shutdown: {}", ph, e)); }
        if ms > RT + WT + 20 { mc::fail(format!("{:?}: shutdown takes {} ms", ph, ms)); }
        let threads = mc::live_threads();
        if threads > 1 { mc::fail(format!("{:?}: threads left: {}", ph, mc::describe())); }
        if mc::open_fds() != cs.len() { mc::fail(format!("{:?}: descriptors left: {}", ph, mc::describe_fds())); }
        drop(cs);
        mc::outcome(format!("{:?} {}", ph, ms));
        rebind(&rec, &gate);
    };
    v.push(Scen::sched("two silent connections in every phase", 0, one.clone(), still(2)));
    v.push(Scen::sched("one silent connection in every phase, under preemption", 2, one.clone(), still(1)));
    v.push(Scen::sched("two silent connections, one preemption", 1, one.clone(), still(2)));
    if th {
        v.push(Scen::sched("three silent connections in every phase", 0, one.clone(), still(3)));
        v.push(Scen::sched("two silent connections, under preemption", 2, one.clone(), still(2)));
    }
    // everything at once
    let race = |clients: usize| move || {
        let rec = Rec::default();
        let gate = Gate::new(true);
        let s = start_t(phase_routes(&rec, &gate), RT, WT);
        let hs: Vec<_> = (0..clients).map(|k| {
            let kind = mc::choose(6, "client");
            mc::client(&format!("client {}", k), move || {
                let Ok(mut c) = Client::try_to(ADDR) else { return "refused" };
                c.timeout(100_000);
                match kind {
                    0 => { drop(c); "closed" }
                    1 => { if c.at_eof() { "idle" } else { mc::fail("bytes without a request") } }
                    2 => { let _ = c.send(&get("/a")); match c.resp() { Ok(_) => "served", Err(RErr::Io(io::ErrorKind::WouldBlock)) => mc::fail("neither served nor closed"), Err(_) => "lost" } }
                    3 => { let _ = c.send(&get("/a")); drop(c); "gone" }
                    4 => { let _ = c.send(b"GET /a HT"); if c.at_eof() { "cut" } else { "answered" } }
                    _ => { let _ = c.send(b"bad\r\n\r\n"); let _ = c.resp(); "bad" }
                }
            })
        }).collect();
        let (st, hd) = Stop::call(s, || {});
        let out: Vec<&str> = hs.into_iter().map(|x| x.join().unwrap()).collect();
        hd.join().unwrap();
        match st.get() { Some((Ok(()), ms)) if ms <= RT + WT + 20 => {} x => mc::fail(format!("shutdown: {:?}", x)) }
        leftovers();
        mc::outcome(format!("{:?}", out));
        rebind(&rec, &gate);
    };
    for (ncpu, bound, cost, clients) in if th { vec![(1usize, 4u32, 1u8, 1usize), (2, 3, 1, 1), (1, 2, 0, 1), (1, 2, 1, 2)] } else { vec![(1, 3, 1, 1), (2, 2, 1, 1), (1, 1, 0, 1), (1, 1, 1, 2)] } {
        v.push(Scen::sched(format!("{} clients racing with shutdown on {} units, switch cost {}", clients, ncpu, cost), bound, Config { ncpu, switch_cost: cost, ..b.clone() }, race(clients)));
    }
    // workers that are just expiring, and shutdown immediately after start
    v.push(Scen::sched("shutdown while workers expire", if th { 3 } else { 2 }, Config { timer_dev: true, switch_cost: 1, ..b.clone() }, || {
        let rec = Rec::default();
        let gate = Gate::new(true);
        let s = start_t(phase_routes(&rec, &gate), 20_000, 20_000);
        let hs: Vec<_> = (0..2).map(|k| { let mut c = Client::connect(); must_send(&mut c, &get(&format!("/{}", k))); c }).collect();
        for mut c in hs { let _ = c.resp(); }
        mc::sleep_ms(9_999);
        let (st, hd) = Stop::call(s, || {});
        hd.join().unwrap();
        match st.get() { Some((Ok(()), _)) => {} x => mc::fail(format!("shutdown: {:?}", x)) }
        leftovers();
    }));
    v.push(Scen::sched("start and shutdown in a row", if th { 3 } else { 2 }, b.clone(), || {
        let rec = Rec::default();
        let gate = Gate::new(true);
        for _ in 0..2 {
            let s = start_t(phase_routes(&rec, &gate), RT, WT);
            let (st, hd) = Stop::call(s, || {});
            hd.join().unwrap();
            match st.get() { Some((Ok(()), 0)) => {} x => mc::fail(format!("shutdown: {:?}", x)) }
            leftovers();
        }
    }));
    // whatever happened before
    v.push(Scen::sched("shutdown after refusals and failures", 0, Config { max_steps: 400_000, preempt: false, ..one.clone() }, || {
        let rec = Rec::default();
        let gate = Gate::new(true);
        let s = start_t(phase_routes(&rec, &gate), RT, WT);
        let mut hist = String::new();
        for _ in 0..2 {
            let k = mc::choose(ACCEPT_FAULTS.len() + 3, "event");
            if k < ACCEPT_FAULTS.len() {
                mc::plan_fault(ACCEPT_FAULTS[k], 0);
                hist += &format!("{:?} ", ACCEPT_FAULTS[k]);
            }
            if k == ACCEPT_FAULTS.len() {
                hist += "full ";
                let cs: Vec<Client> = (0..CAPACITY).map(|i| { let mut c = Client::connect(); must_send(&mut c, &get(&format!("/{}", i))); expect_text(&mut c, &format!("GET /{}", i)); c }).collect();
                let mut x = Client::connect();
                x.timeout(100_000);
                match x.resp() { Ok(r) if r.status == 503 => {} y => mc::fail(format!("one too many: {:?}", y)) }
                drop(cs);
                mc::quiesce();
                continue;
            }
            if k == ACCEPT_FAULTS.len() + 1 { hist += "pause "; mc::sleep_ms(11_000); continue; }
            if k == ACCEPT_FAULTS.len() + 2 { hist += "served "; }
            let Ok(mut c) = Client::try_to(ADDR) else { mc::fail("the server does not listen") };
            let _ = c.send(b"GET /a HTTP/1.1\r\nConnection: close\r\n\r\n");
            mc::quiesce();
            mc::unplan_fault();
        }
        mc::set_preempt(true);
        let (st, hd) = Stop::call(s, || {});
        hd.join().unwrap();
        match st.get() { Some((Ok(()), ms)) if ms <= RT + WT + 20 => {} x => mc::fail(format!("after {}shutdown: {:?}", hist, x)) }
        leftovers();
        mc::outcome(hist);
        rebind(&rec, &gate);
    }));
    v.push(Scen::sched("a full server and refused connections", if th { 1 } else { 0 }, Config { max_steps: 400_000, ..one.clone() }, || {
        let rec = Rec::default();
        let gate = Gate::new(true);
        let s = start_t(phase_routes(&rec, &gate), RT, WT);
        mc::set_preempt(false);
        let k = mc::choose(4, "state of the connections");
        let cs: Vec<Client> = (0..CAPACITY).map(|i| { let c = match k { 0 => Client::connect(), 1 => { let mut c = Client::connect(); must_send(&mut c, &get("/L")); c } 2 => { let mut c = Client::connect(); must_send(&mut c, b"POST / HTTP/1.1\r\nContent-Length: 5\r\n\r\na"); c } _ => { let mut c = Client::connect(); must_send(&mut c, &get(&format!("/{}", i))); expect_text(&mut c, &format!("GET /{}", i)); c } }; c }).collect();
        mc::quiesce();
        mc::set_preempt(true);
        let x = mc::client("one more", || { let Ok(mut c) = Client::try_to(ADDR) else { return }; c.timeout(100_000); match c.resp() { Ok(r) if r.status == 503 => {} Ok(r) => mc::fail(format!("answered {}", r.status)), Err(RErr::Io(io::ErrorKind::WouldBlock)) => mc::fail("the refused connection stays open"), Err(_) => {} } });
        let (st, hd) = Stop::call(s, || {});
        x.join().unwrap();
        hd.join().unwrap();
        match st.get() { Some((Ok(()), ms)) if ms <= RT + WT + 20 => {} x => mc::fail(format!("shutdown: {:?}", x)) }
        drop(cs);
        leftovers();
        rebind(&rec, &gate);
    }));
    v
}

// ------------------------------------------------------------------ C20
const ACCEPT_FAULTS: &[Fault] = &[Fault::AcceptAborted, Fault::AcceptEmfile, Fault::AcceptWouldBlock, Fault::AcceptIntr, Fault::PollerNew, Fault::PollerAdd, Fault::PollWaitIntr, Fault::SetNonblock, Fault::Dup];
fn c20(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let b = Config::default();
    let body = |sent: usize, open: bool| move || {
        let (s, rec) = start_log();
        let mut c = if open { let mut c = Client::connect(); must_send(&mut c, &get("/open")); expect_text(&mut c, "GET /open"); Some(c) } else { None };
        mc::set_faults(ACCEPT_FAULTS);
        let mut out = vec![];
        for k in 0..sent {
            let Ok(mut x) = Client::try_to(ADDR) else { mc::fail("the server does not listen any more") };
            x.timeout(100_000);
            let _ = x.send(&get(&format!("/{}", k)));
            match x.resp() {
                Ok(r) if r.status == 200 && r.text() == format!("GET /{}", k) => out.push("served"),
                Ok(r) => mc::fail(format!("wrong answer {} {:?}", r.status, r.text())),
                Err(RErr::Cut(_)) => mc::fail("half an answer"),
                Err(RErr::Io(io::ErrorKind::WouldBlock)) => mc::fail("a connection that could not be prepared stays open"),
                Err(_) => { if mc::faults_used() == 0 { mc::fail("a connection is lost without any failure"); } out.push("lost") }
            }
        }
        mc::quiesce();
        mc::set_faults(&[]);
        if let Some(c) = c.as_mut() { must_send(c, &post("/open2", "x")); expect_text(c, "POST /open2 x"); }
        served("/later");
        drop(c);
        mc::outcome(format!("{:?} {}", out, mc::faults_used()));
        let _ = rec;
        finish(s);
    };
    let mut v = vec![];
    let nop = Config { preempt: false, switch_cost: 1, ..b.clone() };
    v.push(Scen::sched("failures in the accept path", if th { 4 } else { 3 }, nop.clone(), body(2, true)));
    v.push(Scen::sched("failures in the accept path, three connections", if th { 3 } else { 2 }, nop.clone(), body(3, false)));
    v.push(Scen::sched("failures in the accept path and preemptions", if th { 3 } else { 2 }, Config { switch_cost: 1, ..b.clone() }, body(1, true)));
    v.push(Scen::sched("errors of every kind in the accept path", if th { 2 } else { 1 }, Config { fault_errors: super::util::ERRORS, ..nop.clone() }, body(2, true)));
    v.push(Scen::sched("errors of every kind in the accept path, no other connection", if th { 2 } else { 1 }, Config { fault_errors: super::util::ERRORS, ..nop.clone() }, body(2, false)));
    v.extend(super::tls::c20_tls(th, ACCEPT_FAULTS));
    // two clients connecting at the same time
    v.push(Scen::sched("failures with concurrent connections", if th { 3 } else { 2 }, Config { switch_cost: 1, ..b.clone() }, || {
        let (s, _) = start_log();
        mc::set_faults(ACCEPT_FAULTS);
        let hs: Vec<_> = (0..2).map(|k| mc::client(&format!("c{}", k), move || {
            let Ok(mut x) = Client::try_to(ADDR) else { mc::fail("the server does not listen any more") };
            x.timeout(100_000);
            let _ = x.send(&get(&format!("/{}", k)));
            match x.resp() {
                Ok(r) if r.status == 200 && r.text() == format!("GET /{}", k) => true,
                Ok(r) => mc::fail(format!("wrong answer {} {:?}", r.status, r.text())),
                Err(RErr::Cut(_)) => mc::fail("half an answer"),
                Err(RErr::Io(io::ErrorKind::WouldBlock)) => mc::fail("a connection that could not be prepared stays open"),
                Err(_) => false,
            }
        })).collect();
        let ok: Vec<bool> = hs.into_iter().map(|x| x.join().unwrap()).collect();
        if ok.iter().filter(|x| !**x).count() > mc::faults_used() as usize { mc::fail(format!("{} failures, connections {:?}", mc::faults_used(), ok)); }
        mc::quiesce();
        mc::set_faults(&[]);
        served("/later");
        finish(s);
    }));
    // the same failure many times, one right after the other or with connections served in between
    v.push(Scen::sched("failures over and over", 0, Config { preempt: false, switch_cost: 1, max_steps: 2_000_000, ..b.clone() }, || {
        let (s, _) = start_log();
        let mut old = Client::connect();
        must_send(&mut old, &get("/open"));
        expect_text(&mut old, "GET /open");
        let f = ACCEPT_FAULTS[mc::choose(ACCEPT_FAULTS.len(), "failure")];
        let n = [2, 5, 10, 20, 70, 150][mc::choose(6, "times")];
        let mode = mc::choose(4, "when");
        let before = mc::faults_used();
        let mut lost = 0;
        // what became of a connection: it may be lost when a failure struck, but never hang
        let fate = |x: &mut Client, k: usize| -> bool {
            x.timeout(100_000);
            match x.resp() {
                Ok(r) if r.status == 200 && r.text() == format!("GET /{}", k) => true,
                Ok(r) => mc::fail(format!("wrong answer {} {:?}", r.status, r.text())),
                Err(RErr::Cut(_)) => mc::fail("half an answer"),
                Err(RErr::Io(io::ErrorKind::WouldBlock)) => mc::fail(format!("{} times {:?}: a connection that could not be prepared stays open", n, f)),
                Err(_) => false,
            }
        };
        match mode {
            // the failures strike one connection after the other
            0 | 1 => for k in 0..n {
                if mode == 0 { if k == 0 { mc::plan_faults(f, 0, n); } } else { mc::plan_fault(f, 0); }
                let Ok(mut x) = Client::try_to(ADDR) else { mc::fail(format!("{} times {:?}: the server does not listen any more", k, f)) };
                let _ = x.send(&get(&format!("/{}", k)));
                lost += !fate(&mut x, k) as u32;
                mc::quiesce();
                if mode == 1 { mc::unplan_fault(); served("/between"); mc::quiesce(); }
            },
            // all connections are there when the first failure strikes
            2 => {
                mc::plan_faults(f, 0, n);
                let mut xs: Vec<Client> = (0..n.min(60)).map(|k| { let mut x = Client::try_to(ADDR).unwrap_or_else(|_| mc::fail("the server does not listen")); let _ = x.send(&get(&format!("/{}", k))); x }).collect();
                for (k, x) in xs.iter_mut().enumerate() { lost += !fate(x, k) as u32; }
            }
            // some time between them
            _ => for k in 0..n {
                mc::plan_fault(f, 0);
                let Ok(mut x) = Client::try_to(ADDR) else { mc::fail(format!("{} times {:?}: the server does not listen any more", k, f)) };
                let _ = x.send(&get(&format!("/{}", k)));
                lost += !fate(&mut x, k) as u32;
                drop(x);
                mc::quiesce();
                mc::unplan_fault();
                mc::sleep_ms(1000);
                must_send(&mut old, &get("/still"));
                expect_text(&mut old, "GET /still");
            },
        }
        mc::quiesce();
        mc::unplan_fault();
        let used = mc::faults_used() - before;
        if lost > used { mc::fail(format!("{} connections are lost by {} failures", lost, used)); }
        must_send(&mut old, &post("/open2", "x"));
        expect_text(&mut old, "POST /open2 x");
        for _ in 0..3 { served("/later"); }
        // and as many at once as before
        let mut all: Vec<Client> = (0..CAPACITY - 1).map(|i| { let mut c = Client::connect(); must_send(&mut c, &get(&format!("/r{}", i))); c }).collect();
        for (i, c) in all.iter_mut().enumerate() { expect_text(c, &format!("GET /r{}", i)); }
        drop((all, old));
        mc::outcome(format!("{:?} {} lost {} of {}", f, mode, lost, n));
        finish(s);
    }));
    // failures while the server is being stopped
    v.push(Scen::sched("failures while shutting down", if th { 3 } else { 2 }, Config { switch_cost: 1, ..b.clone() }, || {
        let (s, _) = start_log();
        mc::set_faults(ACCEPT_FAULTS);
        let c = mc::client("c", || { if let Ok(mut c) = Client::try_to(ADDR) { c.timeout(100_000); let _ = c.send(&get("/")); let _ = c.resp(); } });
        let (st, h) = Stop::call(s, || {});
        c.join().unwrap();
        h.join().unwrap();
        match st.get() { Some((Ok(()), _)) => {} x => mc::fail(format!("shutdown: {:?}", x)) }
        leftovers();
    }));
    v
}

// ------------------------------------------------------------------ C33
const ADDRS: [&str; 4] = ["127.0.0.1:8082", "127.0.0.1:8083", "256.1.1.1:80", "127.0.0.1"];
fn served_at(a: &str) {
    let mut c = Client::try_to(a).unwrap_or_else(|e| mc::fail(format!("the server does not listen on {}: {}", a, e)));
    must_send(&mut c, b"GET /x HTTP/1.1\r\nConnection: close\r\n\r\n");
    expect_text(&mut c, "GET /x");
}
#[derive(Default)]
struct Slot { s: Option<Server>, at: Option<usize> }
fn life_run(depth: usize, servers: usize, ops: &'static [u8]) -> impl Fn() + Send + Sync {
    move || {
        let rec = Rec::default();
        let mut slots: Vec<Slot> = (0..servers).map(|_| Slot { s: Some(Server::new()), at: None }).collect();
        // servers that nobody can stop any more: (address, has waiting returned?)
        let mut waited: Vec<(usize, Arc<Mutex<bool>>)> = vec![];
        let mut hist = String::new();
        for _ in 0..depth {
            let k = mc::choose(servers * ops.len() + 1, "call");
            if k == 0 { break; }
            let (i, op) = ((k - 1) / ops.len(), ops[(k - 1) % ops.len()]);
            hist += &format!(" {}{}", (b'a' + op) as char, i);
            let fds = mc::open_fds();
            match op {
                0..=3 => {
                    let a = op as usize;
                    let taken = slots.iter().any(|x| x.at == Some(a)) || waited.iter().any(|x| x.0 == a);
                    let ok = slots[i].at.is_none() && !taken && a < 2;
                    let r = slots[i].s.as_mut().unwrap().run(ADDRS[a], echo_routes(&rec));
                    match r {
                        Ok(()) if ok => { slots[i].at = Some(a); }
                        Ok(()) => mc::fail(format!("{}: start succeeds on {}", hist, if slots[i].at.is_some() { "a server already started" } else if taken { "an address in use" } else { "an unusable address" })),
                        Err(e) if ok => mc::fail(format!("{}: start fails: {}", hist, e)),
                        Err(_) => if mc::open_fds() != fds { mc::fail(format!("{}: a failed start leaves descriptors: {}", hist, mc::describe_fds())); }
                    }
                }
                4 => {
                    let s = slots[i].s.take().unwrap();
                    match (s.shutdown(), slots[i].at) {
                        (Ok(()), Some(_)) | (Err(_), None) => {}
                        (Ok(()), None) => mc::fail(format!("{}: shutdown of a server that was not started succeeds", hist)),
                        (Err(e), Some(_)) => mc::fail(format!("{}: shutdown fails: {}", hist, e)),
                    }
                    slots[i] = Slot { s: Some(Server::new()), at: None };
                }
                _ => {
                    let s = slots[i].s.take().unwrap();
                    match slots[i].at {
                        None => if s.wait().is_ok() { mc::fail(format!("{}: waiting for a server that was not started succeeds", hist)); },
                        Some(a) => {
                            let d = Arc::new(Mutex::new(false));
                            let d2 = Arc::clone(&d);
                            mc::client("waiter", move || { let _ = s.wait(); *d2.lock().unwrap() = true; });
                            waited.push((a, d));
                        }
                    }
                    slots[i] = Slot { s: Some(Server::new()), at: None };
                }
            }
            mc::quiesce();
            for (a, d) in &waited { if *d.lock().unwrap() { mc::fail(format!("{}: waiting returned while the server runs", hist)); } served_at(ADDRS[*a]); }
            for x in &slots { if let Some(a) = x.at { served_at(ADDRS[a]); } }
            for a in 0..2 {
                let used = slots.iter().any(|x| x.at == Some(a)) || waited.iter().any(|x| x.0 == a);
                if !used && Client::try_to(ADDRS[a]).is_ok() { mc::fail(format!("{}: something still listens on {}", hist, ADDRS[a])); }
            }
        }
        let running = waited.len();
        for mut x in slots {
            let s = x.s.take().unwrap();
            if x.at.is_some() { if let Err(e) = s.shutdown() { mc::fail(format!("{}: shutdown fails: {}", hist, e)); } }
        }
        if running == 0 { leftovers(); }
        mc::outcome(hist);
    }
}
fn c33(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let one = Config { switch_cost: 1, max_steps: 200_000, ..Config::default() };
    let mut v = vec![
        Scen::sched("call sequences of one server", 0, one.clone(), life_run(if th { 6 } else { 5 }, 1, &[0, 1, 2, 3, 4, 5])),
        Scen::sched("call sequences of two servers", 0, one.clone(), life_run(if th { 5 } else { 4 }, 2, &[0, 1, 2, 4, 5])),
        Scen::sched("call sequences under preemption", if th { 2 } else { 1 }, one.clone(), life_run(if th { 4 } else { 3 }, 1, &[0, 1, 4, 5])),
    ];
    const F: &[Fault] = &[Fault::Bind, Fault::PollerNew, Fault::PollerAdd, Fault::SetNonblock, Fault::Dup];
    v.push(Scen::sched("failures while starting", if th { 4 } else { 3 }, Config { switch_cost: 1, ..Config::default() }, || {
        // not a thread of the harness, so that failures are injected
        let t = ft::spawn(|| {
            let rec = Rec::default();
            let mut s = Server::new();
            let mut hist = String::new();
            for _ in 0..3 {
                let before = mc::faults_used();
                mc::set_faults(F);
                let r = s.run(ADDR, echo_routes(&rec)).map_err(|e| e.to_string());
                mc::set_faults(&[]);
                match (r, mc::faults_used() > before) {
                    (Ok(()), false) => { hist += " started"; break; }
                    (Ok(()), true) => {}
                    (Err(e), false) => mc::fail(format!("{}: start fails without a cause: {}", hist, e)),
                    (Err(_), true) => {
                        hist += " failed";
                        if mc::open_fds() != 0 { mc::fail(format!("{}: a failed start leaves {}", hist, mc::describe_fds())); }
                        if mc::live_threads() > 2 { mc::fail(format!("{}: a failed start leaves threads: {}", hist, mc::describe())); }
                        if mc::choose(2, "then") == 1 { s = Server::new(); hist += " new"; }
                        continue;
                    }
                }
                break;
            }
            if !hist.ends_with("started") {
                if let Err(e) = s.run(ADDR, echo_routes(&rec)) { mc::fail(format!("{}: the next start fails: {}", hist, e)); }
            }
            hist
        });
        // the server lives in the other thread: it cannot be stopped from here, only used
        let hist = t.join().unwrap();
        served("/x");
        mc::outcome(hist);
    }));
    // waiting ends when the server ends, shutdown and wait of a server in use
    v.push(Scen::sched("wait and shutdown with connections", if th { 2 } else { 1 }, Config { switch_cost: 1, ..Config::default() }, || {
        let rec = Rec::default();
        let s = start(echo_routes(&rec));
        let mut c = Client::connect();
        must_send(&mut c, &get("/1"));
        expect_text(&mut c, "GET /1");
        let d = Arc::new(Mutex::new(false));
        let d2 = Arc::clone(&d);
        let wait = mc::choose(2, "wait or shutdown") == 0;
        if wait {
            mc::client("waiter", move || { let _ = s.wait(); *d2.lock().unwrap() = true; });
            for k in 0..2 { must_send(&mut c, &get(&format!("/{}", k))); expect_text(&mut c, &format!("GET /{}", k)); served("/y"); mc::sleep_ms(40_000); if k == 0 { drop(c); c = Client::connect(); } }
            if *d.lock().unwrap() { mc::fail("waiting returned while the server runs"); }
        } else {
            finish_with(s, c);
        }
    }));
    v
}
fn finish_with(s: Server, c: Client) {
    if let Err(e) = s.shutdown() { mc::fail(format!("shutdown: {}", e)); }
    drop(c);
    leftovers();
}
