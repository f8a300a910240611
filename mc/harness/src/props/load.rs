//! Load, deadlines and lost connections: C19, C21, C22, C23, C34, C35.
use super::life::{big, boom_routes, full_house, raw, Boom, CAPACITY};
use super::srv::*;
use super::util::*;
use super::{Prop, P0};
use crate::engine::Scen;
use crate::net::*;
use mcstd::{mc, rt::{Config, Fault}};
use std::io::{self, Cursor, Read, Write};
use std::sync::Arc;
use std::time::Duration;
use wruster::http::{Body, HttpMethod, Response, StatusCode};
use wruster::router::Router;
use wruster::{Server, Timeouts};

const A: &[&str] = &["sequentially consistent interleavings of the façade's synchronization and socket operations", "the façade's sockets, poller, timers and channels behave like the real ones (checked by the conformance traces)", "computation takes no virtual time: a delay is a wait of the code", "bounds: deviations per execution as given per scenario"];
const AT: &[&str] = &["computation takes no virtual time: a delay is a wait of the code", "arrivals within 20 ms of a deadline may be decided either way", "façade network and timers (conformance-checked)"];
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C19", scen: c19, assumptions: A, ..P0 },
        Prop { id: "C21", level: "exploration", scen: c21, rule: "arrival patterns: cuts of a request x gaps on a grid of virtual time x timeout values x phase of the connection, distinct by construction; non-trivial: the pattern is clearly before or after the deadline", assumptions: AT, ..P0 },
        Prop { id: "C22", level: "exploration", scen: c22, rule: "drain patterns: amounts x gaps on a grid of virtual time x timeout values x response sizes, distinct by construction; non-trivial: the pattern is clearly before or after the deadline", assumptions: AT, ..P0 },
        Prop { id: "C23", scen: c23, assumptions: A, ..P0 },
        Prop { id: "C34", scen: c34, assumptions: A, ..P0 },
        Prop { id: "C35", scen: c35, assumptions: A, ..P0 },
    ]
}
#[cfg(not(feature = "hooks"))]
pub fn scen_for(id: &str, tier: &str, group: &str) -> Vec<Scen> { match id { "C19" => c19(tier, group), _ => vec![] } }

// ------------------------------------------------------------------ C19
fn gate_routes(rec: &Rec, gate: &Arc<Gate>, first: &Arc<Gate>) -> Router {
    let (rec, gate, first) = (rec.clone(), Arc::clone(gate), Arc::clone(first));
    let f = h(move |r| {
        let u = r.uri.clone();
        rec.push(&u);
        if u == "/first" { first.pass(); } else if u.starts_with("/g") { gate.pass(); }
        reply(&format!("GET {}", u))
    });
    routes(vec![("/", HttpMethod::GET, f)])
}
/// A complete 503 and then the end of the connection.
fn expect_busy(c: &mut Client, what: &str) {
    c.timeout(200_000);
    match c.resp() {
        Ok(r) if r.status == 503 => {}
        Ok(r) => mc::fail(format!("{}: a full server answers {} {:?}", what, r.status, r.text())),
        Err(RErr::Cut(b)) => mc::fail(format!("{}: the 503 response is cut: {:?}", what, esc(&b))),
        Err(e) => mc::fail(format!("{}: a full server does not answer 503: {:?}", what, e)),
    }
    match c.resp() {
        Err(RErr::Eof) | Err(RErr::Io(io::ErrorKind::ConnectionReset | io::ErrorKind::BrokenPipe)) => {}
        x => mc::fail(format!("{}: the refused connection is not closed: {:?}", what, x)),
    }
}
fn c19(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let big_run = Config { switch_cost: 1, max_steps: 400_000, ..Config::default() };
    let mut v = vec![];
    for ncpu in [0usize, 1, 2, 4] {
        let cfg = Config { ncpu, ..big_run.clone() };
        v.push(Scen::sched(format!("more connections than the server can handle, {} units", if ncpu == 0 { "an unknown number of".into() } else { ncpu.to_string() }), 0, cfg.clone(), move || {
            let (rec, gate, first) = (Rec::default(), Gate::new(false), Gate::new(false));
            let s = start(gate_routes(&rec, &gate, &first));
            // which of the connections is the one that ends early
            let pos = [0, 1, 50, CAPACITY - 1][mc::choose(4, "position")];
            let mut all = vec![];
            all.extend(full_house(pos, &gate, &rec, "/g"));
            let mut one = full_house(1, &gate, &rec, "/first").pop().unwrap();
            all.extend(full_house(CAPACITY - 1 - pos, &gate, &rec, "/g"));
            let n = rec.len();
            let late = mc::choose(5, "the refused client");
            for _ in 0..1 + mc::choose(2, "refused clients") {
                let mut x = Client::connect();
                match late {
                    0 => {}
                    1 => must_send(&mut x, &get("/x")),
                    2 => must_send(&mut x, b"POST /x HTTP/1.1\r\nContent-Length: 100\r\n\r\nabc"),
                    3 => { mc::quiesce(); let _ = x.send(&get("/x")); }
                    _ => { drop(x); mc::quiesce(); continue; }
                }
                expect_busy(&mut x, "one too many");
            }
            mc::quiesce();
            if rec.len() != n { mc::fail(format!("a handler ran for a refused connection: {:?}", &rec.get()[n..])); }
            // one becomes free
            first.open();
            expect_text(&mut one, "GET /first");
            match mc::choose(3, "how the worker becomes free") {
                0 => drop(one),
                1 => { must_send(&mut one, b"GET /again HTTP/1.1\r\nConnection: close\r\n\r\n"); expect_text(&mut one, "GET /again"); if !one.at_eof() { mc::fail("not closed"); } drop(one); }
                _ => { must_send(&mut one, b"bad request\r\n\r\n"); match one.resp() { Ok(r) if r.status == 400 => {} x => mc::fail(format!("bad request answered with {:?}", x)) } drop(one); }
            }
            mc::quiesce();
            if mc::choose(2, "wait") == 1 { mc::sleep_ms(11_000); }
            served("/then");
            mc::quiesce();
            served("/oncemore");
            mc::quiesce();
            let mut keep = Client::connect();
            must_send(&mut keep, &get("/keep"));
            expect_text(&mut keep, "GET /keep");
            let mut x = Client::connect();
            expect_busy(&mut x, "full again");
            gate.open();
            for c in all.iter_mut() { expect_text(c, "GET /g"); }
            must_send(&mut keep, &get("/keep2"));
            expect_text(&mut keep, "GET /keep2");
            drop((all, keep, x));
            mc::quiesce();
            served("/end");
            finish(s);
        }));
    }
    // everybody leaves, the workers expire, and it fills up again
    v.push(Scen::sched("filling up twice", 0, Config { max_steps: 800_000, ..big_run.clone() }, || {
        let (rec, gate, first) = (Rec::default(), Gate::new(true), Gate::new(false));
        let s = start(gate_routes(&rec, &gate, &first));
        let wait = [0, 5_000, 11_000][mc::choose(3, "pause")];
        for round in 0..2 {
            let all = full_house(CAPACITY, &gate, &rec, "/g");
            let mut x = Client::connect();
            must_send(&mut x, &get("/x"));
            expect_busy(&mut x, &format!("round {}", round));
            drop(all);
            mc::quiesce();
            mc::sleep_ms(wait);
        }
        if rec.get().iter().any(|x| x == "/x") { mc::fail("a handler ran for a refused connection"); }
        finish(s);
    }));
    // a worker becomes free at the same time
    v.push(Scen::sched("a worker becomes free as a connection arrives", if th { 2 } else { 1 }, big_run.clone(), || {
        let (rec, gate, first) = (Rec::default(), Gate::new(false), Gate::new(false));
        let s = start(gate_routes(&rec, &gate, &first));
        let last = mc::choose(2, "which") == 1;
        let mut one = if last { None } else { full_house(1, &gate, &rec, "/first").pop() };
        let all = full_house(CAPACITY - 1, &gate, &rec, "/g");
        if last { one = full_house(1, &gate, &rec, "/first").pop(); }
        let mut one = one.unwrap();
        mc::set_preempt(true);
        let sent = mc::choose(2, "with a request") == 1;
        let x = mc::client("newcomer", move || {
            let mut x = Client::connect();
            x.timeout(200_000);
            if sent { must_send(&mut x, &get("/x")); }
            match x.resp() {
                Ok(r) if r.status == 503 => { match x.resp() { Err(RErr::Eof | RErr::Io(_)) => {} y => mc::fail(format!("after the 503: {:?}", y)) } "busy" }
                Ok(r) if sent && r.status == 200 && r.text() == "GET /x" => "served",
                Err(RErr::Eof) if !sent => "idle",
                y => mc::fail(format!("the newcomer gets {:?}", y)),
            }
        });
        first.open();
        expect_text(&mut one, "GET /first");
        drop(one);
        let out = x.join().unwrap();
        let ran = rec.get().iter().any(|x| x == "/x");
        if ran != (out == "served") { mc::fail(format!("the newcomer was {}, its handler ran: {}", out, ran)); }
        mc::set_quiet(true);
        mc::quiesce();
        served("/later");
        gate.open();
        drop(all);
        mc::quiesce();
        mc::outcome(format!("{} {}", sent, out));
        finish(s);
    }));
    v
}

// ------------------------------------------------------------------ C21
const TOL: u64 = 20;
fn deadline_server(rec: &Rec, rt: Duration, wt: Duration) -> Server {
    let (r1, r2, r3, r4) = (rec.clone(), rec.clone(), rec.clone(), rec.clone());
    let slow = h(move |r| { mc::sleep_ms(4000); let d = describe_req(r); r3.push(d.clone()); reply(&d) });
    let r = routes(vec![
        ("/", HttpMethod::GET, echo(rec)), ("/", HttpMethod::POST, echo(rec)),
        ("/ignore", HttpMethod::POST, h(move |r| { r1.push(format!("POST {}", r.uri)); reply("ignored") })),
        ("/take", HttpMethod::POST, h(move |r| { r4.push(format!("POST {}", r.uri)); drop(r.body.take()); reply("ignored") })),
        ("/slow", HttpMethod::GET, slow),
        ("/slowpost", HttpMethod::POST, h(move |r| { mc::sleep_ms(4000); let d = describe_req(r); r2.push(d.clone()); reply(&d) })),
    ]);
    let mut s = Server::from_timeouts(Timeouts { read_request_timeout: rt, write_response_timeout: wt });
    s.run(ADDR, r).unwrap_or_else(|e| mc::fail(format!("start: {}", e)));
    s
}
struct Arrival { rt: Option<u64>, phase: u64, path: &'static str, cuts: &'static [u64], gaps: Vec<u64> }
/// Sends a request in pieces at given times and checks what the server makes of it, and when.
fn arrival_case(a: &Arrival) -> Result<String, String> {
    let rec = Rec::default();
    let s = deadline_server(&rec, a.rt.map(Duration::from_millis).unwrap_or(Duration::MAX), Duration::from_secs(60));
    let body = "hello world";
    let m = post(a.path, body);
    let head = m.len() - body.len();
    // cut positions: thousandths of the message
    let mut at: Vec<usize> = a.cuts.iter().map(|x| (*x as usize * m.len() / 1000).clamp(1, m.len() - 1)).collect();
    at.push(m.len());
    let mut c = Client::connect();
    let mut t0 = mc::now_ms();
    let mut glued = 0;
    let mut from = 0;
    match a.phase {
        0 => {}
        1 | 3 => {
            let p = if a.phase == 1 { "/one" } else { "/slow" };
            must_send(&mut c, &get(p));
            expect_text(&mut c, &format!("GET {}", p));
            t0 = mc::now_ms();
        }
        _ => {
            let mut b = get("/one");
            // an earlier request that takes most of its own time to arrive
            if a.phase >= 4 {
                let k = [3, b.len() - 1][(a.gaps.len() + a.cuts.len()) % 2];
                must_send(&mut c, &b[..k]);
                if let Some(rt) = a.rt { mc::sleep_ms(rt * 7 / 10); }
                b.drain(..k);
            }
            // the first piece comes together with an earlier request
            if a.phase != 5 {
                b.extend(&m[..at[0]]);
                from = at[0];
                glued = 1;
            }
            must_send(&mut c, &b);
            expect_text(&mut c, "GET /one");
            t0 = mc::now_ms();
        }
    }
    // what was handled but for the earlier request
    let log = || -> Vec<String> { rec.get().into_iter().filter(|x| x != "GET /one" && x != "GET /slow").collect() };
    let mut arrive = vec![t0; glued];
    let mut t = t0;
    for g in &a.gaps[glued..at.len()] { t += g; arrive.push(t); }
    let last = *arrive.last().unwrap();
    let mut w = c.s.try_clone().unwrap();
    let (m2, at2, ar2) = (m.clone(), at.clone(), arrive.clone());
    let sender = mc::client("sender", move || {
        let mut p = from;
        for i in glued..at2.len() {
            let n = mc::now_ms();
            if ar2[i] > n { mc::sleep_ms(ar2[i] - n); }
            if w.write_all(&m2[p..at2[i]]).is_err() { break; }
            p = at2[i];
        }
    });
    let r = c.resp();
    let tr = mc::now_ms();
    let slow = if a.path == "/slowpost" { 4000 } else { 0 };
    // this handler answers without having the body, the rest of which is dropped when it arrives
    let take = a.path == "/take";
    let dl = a.rt.map(|x| t0 + x);
    let class;
    if dl.is_none() || last + TOL < dl.unwrap() {
        let want = if a.path == "/ignore" || take { "ignored".to_string() } else { format!("POST {} {}", a.path, body) };
        match &r {
            Ok(x) if x.status == 200 && x.text() == want => {}
            x => return Err(format!("all of the request arrives {} ms after the server starts reading, the answer after {} ms is {:?}", last - t0, tr - t0, x)),
        }
        if tr > last + slow { return Err(format!("the request is complete after {} ms and answered after {}", last - t0, tr - t0)); }
        if log().len() != 1 { return Err(format!("handled {:?}", log())); }
        // then the connection is idle until the next deadline
        match a.rt {
            Some(rt) => {
                let e = c.resp();
                let te = mc::now_ms();
                if !matches!(e, Err(RErr::Eof)) && !matches!(&e, Ok(x) if x.status == 408) { return Err(format!("an idle connection gets {:?}", e)); }
                let from = if take { tr.max(last) } else { tr };
                if te.abs_diff(from + rt) > TOL { return Err(format!("an idle connection is closed after {} ms instead of {}", te - tr, rt)); }
            }
            None => {
                c.timeout(3_000_000);
                match c.resp() { Err(RErr::Io(io::ErrorKind::WouldBlock)) => {} x => return Err(format!("an idle connection without a limit gets {:?}", x)) }
            }
        }
        class = "in time".to_string();
    } else if slow > 0 && last <= dl.unwrap() + slow + TOL && arrive[(0..at.len()).find(|i| at[*i] >= head).unwrap()] < dl.unwrap() + TOL {
        // the handler runs while the rest arrives: its time may count or not
        match &r {
            Ok(x) if x.status == 200 && x.text() == format!("POST {} {}", a.path, body) => {}
            Ok(x) if x.status < 400 && !x.text().contains('!') => return Err(format!("answered with {:?}", x)),
            _ => {}
        }
        class = "-the handler was not reading".to_string();
    } else if last > dl.unwrap() + TOL {
        let dl = dl.unwrap();
        let mut end = tr;
        match &r {
            Err(RErr::Eof | RErr::Io(io::ErrorKind::ConnectionReset)) => {}
            Ok(x) if x.status >= 400 => { let _ = c.drain(); end = mc::now_ms(); }
            Ok(x) if take && x.status == 200 && x.text() == "ignored" => {
                match c.resp() { Err(RErr::Eof | RErr::Io(io::ErrorKind::ConnectionReset)) => {} Ok(x) if x.status >= 400 => { let _ = c.drain(); } x => return Err(format!("a request that is not complete gets a second answer {:?}", x)) }
                end = mc::now_ms();
            }
            x => return Err(format!("the request is not complete at the deadline of {} ms (but at {}), after {} ms the client gets {:?}", dl - t0, last - t0, tr - t0, x)),
        }
        // a handler that sleeps is not reading
        let extra = if slow > 0 && log().len() > 0 { slow } else { 0 };
        if end + TOL < dl || end > dl + extra + TOL { return Err(format!("the connection ends after {} ms instead of at the deadline of {} ms", end - t0, dl - t0)); }
        mc::quiesce();
        // listener, its poller and both descriptors of the client
        let open = mc::open_fds();
        let mine = 1 + !sender.is_finished() as usize;
        if open != 2 + mine { return Err(format!("descriptors at the deadline: {}", mc::describe_fds())); }
        let got: usize = (0..at.len()).filter(|i| arrive[*i] < dl).map(|i| at[i]).max().unwrap_or(0);
        if log().iter().any(|x| x.ends_with(body)) { return Err(format!("a handler got the whole body of a request that came too late: {:?}", log())); }
        if got < head && log().len() > 0 { return Err(format!("a handler ran for an incomplete request: {:?}", log())); }
        class = "too late".to_string();
    } else {
        class = "-on the edge".to_string();
        let _ = c.drain();
    }
    drop(c);
    sender.join().unwrap();
    mc::quiesce();
    served("/next");
    finish(s);
    Ok(format!("{}{}", class, if a.rt.is_none() { ", no limit" } else { "" }))
}
fn c21(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    const RTS: [Option<u64>; 8] = [Some(300), Some(1000), Some(1700), Some(2500), Some(999), Some(150), Some(30_000), None];
    const GR: [u64; 5] = [0, 300, 450, 800, 1300];
    // positions in thousandths; the head ends at about 816
    const CUTS: [&[u64]; 9] = [&[], &[20], &[500], &[800], &[950], &[100, 500], &[500, 900], &[400, 800, 990], &[30, 60, 900]];
    let mut v = vec![];
    for (k, cuts) in CUTS.iter().enumerate() {
        let np = cuts.len() as u32 + 1;
        let paths: &'static [&'static str] = &["/p", "/ignore", "/slowpost", "/take"];
        let rts = if th || np <= 3 { 8 } else { 3 };
        let per = rts * 6 * 4 * 5u64.pow(np);
        v.push(Scen::cases(format!("arrival patterns, cuts {}", k), per, 50, move |i| {
            let mut d = Dig(i);
            let rt = RTS[d.n(rts) as usize];
            let phase = d.n(6);
            let path = *d.of(paths);
            let gaps: Vec<u64> = (0..np).map(|_| d.of(&GR) * rt.unwrap_or(600_000) / 1000).collect();
            if matches!(phase, 2 | 4) && gaps[0] != 0 { return Ok("-same as another pattern".into()); }
            // nothing arrives together with the earlier request unless there is a cut
            if matches!(phase, 2 | 4) && np == 1 { return Ok("-same as another pattern".into()); }
            if path == "/slowpost" && rt == Some(30_000) { return Ok("-skipped".into()); }
            arrival_case(&Arrival { rt, phase, path, cuts, gaps: gaps.clone() }).map_err(|e| format!("timeout {:?}, phase {}, {} in pieces {:?} with gaps {:?}: {}", rt, phase, path, cuts, gaps, e))
        }));
    }
    // a poller may report a stream that is not ready: that is no reason to give up earlier, or later
    v.push(Scen::sched("readiness without anything to read", if th { 3 } else { 2 }, Config { preempt: false, switch_cost: 1, ..Config::default() }, || {
        let rec = Rec::default();
        let s = deadline_server(&rec, Duration::from_millis(1000), Duration::from_secs(60));
        mc::quiesce();
        let mut c = Client::connect();
        c.timeout(100_000);
        mc::set_faults(&[Fault::SpuriousReady]);
        let silent = mc::choose(2, "silent in the end") == 1;
        let mut t0 = 0;
        for i in 0..2 {
            let m = post(&format!("/{}", i), "hello");
            let cut = [m.len(), 5, m.len() - 2][mc::choose(3, "cut")];
            mc::quiesce();
            mc::sleep_ms(400);
            t0 = mc::now_ms();
            must_send(&mut c, &m[..cut]);
            mc::quiesce();
            if cut < m.len() { mc::sleep_ms(300); t0 = mc::now_ms(); must_send(&mut c, &m[cut..]); }
            expect_text(&mut c, &format!("POST /{} hello", i));
        }
        if silent {
            match c.resp() { Err(RErr::Eof) | Err(RErr::Io(io::ErrorKind::ConnectionReset)) => {} x => mc::fail(format!("a silent client gets {:?}", x.map(|r| r.status))) }
            let t = mc::now_ms() - t0;
            if !(990..1020).contains(&t) { mc::fail(format!("given up after {} ms instead of 1000", t)); }
        }
        mc::set_faults(&[]);
        drop(c);
        mc::outcome(format!("{} {}", silent, mc::faults_used()));
        finish(s);
    }));
    // interruptions in the middle of a request: they neither prolong nor shorten its time
    v.push(Scen::cases("interrupted while a request arrives", 3 * 10 * 3 * 3 * 3 * 4 * 2, 20, |i| {
        let mut d = Dig(i);
        let f = *d.of(&[Fault::PollWaitIntr, Fault::ReadIntr, Fault::SpuriousReady]);
        let (n, k, before) = (d.n(10) as usize, *d.of(&[1usize, 2, 5]), d.n(3) as usize);
        let cuts = *d.of(&[[5usize, 30], [20, 38], [40, 42]]);
        // when the pieces come, in thousandths of the timeout; the last one may never come
        let at = *d.of(&[[400u64, 800], [700, 900], [400, 5000], [600, 1200]]);
        let second = d.n(2) == 1;
        const RT: u64 = 1000;
        let rec = Rec::default();
        let s = deadline_server(&rec, Duration::from_millis(RT), Duration::from_secs(60));
        mc::quiesce();
        let mut c = Client::connect();
        if second { must_send(&mut c, &get("/one")); expect_text(&mut c, "GET /one"); rec.clear(); }
        mc::quiesce();
        let t0 = mc::now_ms();
        let m = post("/p", "hello");
        if cuts[1] >= m.len() { return Err("the request is too short".into()); }
        let mut from = 0;
        for (j, to) in [cuts[0], cuts[1], m.len()].into_iter().enumerate() {
            if j > 0 {
                let t = t0 + at[j - 1];
                if at[j - 1] > RT { break; }
                mc::sleep_ms(t - mc::now_ms());
            }
            if j == before { mc::plan_faults(f, n, k); }
            must_send(&mut c, &m[from..to]);
            mc::quiesce();
            from = to;
        }
        c.timeout(100_000);
        let r = c.resp();
        let tr = mc::now_ms() - t0;
        let used = mc::faults_used();
        mc::unplan_fault();
        if from == m.len() {
            match &r { Ok(y) if y.text() == "POST /p hello" && tr == at[1] => {} _ => return Err(format!("{:?} {} times after {}: {:?} after {} ms", f, k, n, r, tr)) }
        } else {
            match &r { Err(RErr::Eof | RErr::Io(io::ErrorKind::ConnectionReset)) => {} Ok(y) if y.status >= 400 => {} _ => return Err(format!("{:?} {} times after {}: {:?} after {} ms", f, k, n, r, tr)) }
            if tr.abs_diff(RT) > TOL { return Err(format!("{:?} {} times after {}, pieces at 0 and {}: closed after {} ms", f, k, n, at[0], tr)); }
        }
        drop(c);
        mc::quiesce();
        finish(s);
        Ok(if used == 0 { "-not reached".into() } else { format!("{:?} {}", f, from == m.len()) })
    }));
    // every byte on its own, as slowly as allowed or a little slower
    v.push(Scen::cases("byte by byte", 6 * 2 * 2, 1, |i| {
        let mut d = Dig(i);
        let rt = *d.of(&[300u64, 1000, 1700, 2500, 999, 30_000]);
        let late = d.n(2) == 1;
        let second = d.n(2) == 1;
        let rec = Rec::default();
        let s = deadline_server(&rec, Duration::from_millis(rt), Duration::from_secs(60));
        let mut c = Client::connect();
        if second { must_send(&mut c, &get("/one")); expect_text(&mut c, "GET /one"); rec.clear(); }
        let t0 = mc::now_ms();
        let m = post("/p", "hello");
        let total = if late { rt * 13 / 10 } else { rt * 9 / 10 };
        let mut w = c.s.try_clone().unwrap();
        let m2 = m.clone();
        let x = mc::client("sender", move || { for (k, b) in m2.iter().enumerate() { let t = t0 + total * (k as u64 + 1) / m2.len() as u64; let n = mc::now_ms(); if t > n { mc::sleep_ms(t - n); } if w.write_all(&[*b]).is_err() { break; } } });
        let r = c.resp();
        let tr = mc::now_ms() - t0;
        match (&r, late) {
            (Ok(y), false) if y.text() == "POST /p hello" => {}
            (Err(RErr::Eof | RErr::Io(io::ErrorKind::ConnectionReset)), true) => if tr.abs_diff(rt) > TOL { return Err(format!("timeout {}: closed after {} ms", rt, tr)); },
            _ => return Err(format!("timeout {}, bytes over {} ms: {:?} after {} ms", rt, total, r, tr)),
        }
        if late && rec.get().iter().any(|x| x.ends_with("hello")) { return Err("a handler got the whole body of a request that came too late".into()); }
        drop(c);
        x.join().unwrap();
        finish(s);
        Ok(format!("late {}", late))
    }));
    // bytes that keep coming, each a short while after the one before, and never make a request
    v.push(Scen::cases("an endless trickle", 4 * 5 * 4 * 2, 4, |i| {
        let mut d = Dig(i);
        let rt = *d.of(&[100u64, 250, 1000, 3000]);
        let gap = *d.of(&[200_000u64, 900_000, 1_000_000, 1_900_000, 7_000_000]);
        let shape = d.n(4);
        let second = d.n(2) == 1;
        let rec = Rec::default();
        let s = deadline_server(&rec, Duration::from_millis(rt), Duration::from_secs(60));
        let mut c = Client::connect();
        if second { must_send(&mut c, &get("/one")); expect_text(&mut c, "GET /one"); rec.clear(); }
        let t0 = mc::now_ms();
        let mut w = c.s.try_clone().unwrap();
        let x = mc::client("sender", move || {
            let head: &[u8] = match shape { 0 => b"GET /", 1 => b"GET / HTTP/1.1\r\nX: ", 2 => b"POST /p HTTP/1.1\r\nContent-Length: 1000000\r\n\r\n", _ => b"" };
            if w.write_all(head).is_err() { return; }
            for k in 0..rt * 1_500_000 / gap {
                mcstd::thread::sleep(Duration::from_nanos(gap));
                let b: &[u8] = if shape == 3 { if k % 2 == 0 { b"a" } else { b"b" } } else { b"y" };
                if w.write_all(b).is_err() { return; }
            }
        });
        let r = c.resp();
        let tr = mc::now_ms() - t0;
        match &r {
            Err(RErr::Eof | RErr::Io(io::ErrorKind::ConnectionReset)) => {}
            Ok(y) if y.status >= 400 => {}
            _ => return Err(format!("timeout {}, a byte every {} us, kind {}: {:?} after {} ms", rt, gap / 1000, shape, r, tr)),
        }
        if tr.abs_diff(rt) > TOL { return Err(format!("timeout {}, a byte every {} us, kind {}: closed after {} ms", rt, gap / 1000, shape, tr)); }
        if shape != 2 && rec.len() > 0 { return Err(format!("handled {:?}", rec.get())); }
        drop(c);
        x.join().unwrap();
        finish(s);
        Ok(format!("kind {}", shape))
    }));
    // the same in pieces of every size
    v.push(Scen::cases("an endless trickle of pieces", 3 * 3 * 4 * 6 * 2, 4, |i| {
        let mut d = Dig(i);
        let rt = *d.of(&[250u64, 1000, 10_000]);
        let gap = rt * *d.of(&[60u64, 143, 900]) / 1000;
        let size = *d.of(&[100usize, 1024, 8192, 70_000]);
        let shape = d.n(6);
        let second = d.n(2) == 1;
        let rec = Rec::default();
        let s = deadline_server(&rec, Duration::from_millis(rt), Duration::from_secs(60));
        let mut c = Client::connect();
        if second { must_send(&mut c, &get("/one")); expect_text(&mut c, "GET /one"); rec.clear(); }
        mc::quiesce();
        let t0 = mc::now_ms();
        let mut w = c.s.try_clone().unwrap();
        let x = mc::client("sender", move || {
            let head: &[u8] = match shape { 0 => b"GET /", 1 => b"GET / HTTP/1.1\r\nX: ", 2 => b"POST /p HTTP/1.1\r\nContent-Length: 1000000000\r\n\r\n", 3 => b"POST /ignore HTTP/1.1\r\nContent-Length: 1000000000\r\n\r\n", 4 => b"POST /take HTTP/1.1\r\nContent-Length: 1000000000\r\n\r\n", _ => b"GET / HTTP/1.1\r\n" };
            if w.write_all(head).is_err() { return; }
            let mut b = vec![b'y'; size];
            if shape == 5 { b[..3].copy_from_slice(b"X: "); b[size - 2..].copy_from_slice(b"\r\n"); }
            for _ in 0..(rt + 500) / gap {
                mcstd::thread::sleep(Duration::from_millis(gap));
                if w.write_all(&b).is_err() { return; }
            }
        });
        let mut r = c.resp();
        if shape == 4 && matches!(&r, Ok(y) if y.text() == "ignored") { r = c.resp(); }
        let tr = mc::now_ms() - t0;
        let what = format!("timeout {}, {} bytes every {} ms, kind {}", rt, size, gap, shape);
        match &r {
            Err(RErr::Eof | RErr::Io(io::ErrorKind::ConnectionReset)) => {}
            Ok(y) if y.status >= 400 => {}
            _ => return Err(format!("{}: {:?} after {} ms", what, r, tr)),
        }
        if tr.abs_diff(rt) > TOL { return Err(format!("{}: closed after {} ms", what, tr)); }
        if !(2..5).contains(&shape) && rec.len() > 0 { return Err(format!("{}: handled {:?}", what, rec.get())); }
        drop(c);
        x.join().unwrap();
        finish(s);
        Ok(format!("kind {}", shape))
    }));
    // limits far below and above the usual: what is there when the connection is accepted is in time
    v.push(Scen::cases("limits of every size", 24 * 3 * 2, 2, |i| {
        let mut d = Dig(i);
        let lim = d.n(24);
        let rt = if lim < 21 { Duration::from_nanos([1, 10, 1000, 500_000, 999_999, 1_000_000, 1_000_001, 1_500_000, 1_999_999, 2_000_000, 7_300_000, 40_000_000, 999_999_999, 1_000_000_001, 4_294_967_295, 4_294_967_297, 65_535_000_000, 65_536_000_000, 2_147_483_647_000_000, 2_147_483_648_000_000, 4_294_967_296_000_000][lim as usize]) } else { [Duration::from_millis(u64::MAX), Duration::from_secs(u64::MAX), Duration::MAX][lim as usize - 21] };
        let shape = d.n(3);
        let silent = d.n(2) == 1;
        let rec = Rec::default();
        let s = deadline_server(&rec, rt, Duration::from_secs(60));
        mc::quiesce();
        let mut c = Client::connect();
        let m = match shape { 0 => get("/a"), 1 => post("/a", "hello"), _ => post("/a", &"x".repeat(20_000)) };
        let t0 = mc::now_ms();
        if !silent {
            must_send(&mut c, &m);
            match c.resp() { Ok(r) if r.status == 200 && mc::now_ms() <= t0 + 1 => {} x => return Err(format!("limit {:?}: a request that is there at once gets {:?} after {} ms", rt, x, mc::now_ms() - t0)) }
        }
        let t1 = mc::now_ms();
        c.timeout(5_000_000);
        let r = c.resp();
        let dt = mc::now_ms() - t1;
        if rt > Duration::from_secs(5000) {
            if !matches!(r, Err(RErr::Io(io::ErrorKind::WouldBlock))) { return Err(format!("limit {:?}: an idle connection gets {:?} after {} ms", rt, r, dt)); }
        } else {
            match &r { Err(RErr::Eof | RErr::Io(io::ErrorKind::ConnectionReset)) => {} Ok(x) if x.status == 408 => {} _ => return Err(format!("limit {:?}: a silent client gets {:?}", rt, r)) }
            if dt.abs_diff(rt.as_millis() as u64) > TOL { return Err(format!("limit {:?}: a silent client is given up after {} ms", rt, dt)); }
        }
        drop(c);
        finish(s);
        Ok(format!("silent {}", silent))
    }));
    // the same under preemption
    for (bound, switch_cost) in if th { [(2, 0), (3, 1)] } else { [(1, 0), (2, 1)] } {
    v.push(Scen::sched(format!("deadline under preemption, switch cost {}", switch_cost), bound, Config { switch_cost, ..Config::default() }, move || {
        let rec = Rec::default();
        let s = deadline_server(&rec, Duration::from_millis(1500), Duration::from_secs(60));
        let mut c = Client::connect();
        let t0 = mc::now_ms();
        let m = post("/p", "hello");
        let gap = [700, 1000][mc::choose(2, "gap")];
        let cut = [5, m.len() - 3][mc::choose(2, "cut")];
        mc::sleep_ms(300);
        let _ = c.send(&m[..cut]);
        mc::sleep_ms(gap);
        let late = 300 + gap > 1500;
        let _ = c.send(&m[cut..]);
        match c.resp() {
            Ok(r) if !late && r.text() == "POST /p hello" => {}
            Err(RErr::Eof | RErr::Io(_)) if late => {}
            x => mc::fail(format!("gap {}: {:?} after {} ms", gap, x, mc::now_ms() - t0)),
        }
        let t1 = mc::now_ms();
        if !late { if !c.at_eof() { mc::fail("bytes on an idle connection"); } if (mc::now_ms() - t1).abs_diff(1500) > TOL { mc::fail(format!("an idle connection is closed after {} ms", mc::now_ms() - t1)); } }
        drop(c);
        finish(s);
    }));
    }
    v
}

// ------------------------------------------------------------------ C22
struct Drain { wt: Option<u64>, n: usize, cap: usize, second: bool, steps: Vec<(u64, usize)>, post: bool }
fn read_some(c: &mut Client, n: usize, got: &mut Vec<u8>) -> bool {
    let mut b = vec![0u8; 4096];
    let mut left = n;
    while left > 0 {
        let k = left.min(b.len());
        match c.s.read(&mut b[..k]) { Ok(0) | Err(_) => return false, Ok(m) => { got.extend(&b[..m]); left -= m; } }
    }
    true
}
fn drain_case(a: &Drain) -> Result<String, String> {
    let n = a.n;
    let mk = move || h(move |r| { let _ = describe_req(r); if r.uri == "/one" { reply("one") } else { raw(big(n)) } });
    let r = routes(vec![("/", HttpMethod::GET, mk()), ("/", HttpMethod::POST, mk())]);
    let mut s = Server::from_timeouts(Timeouts { read_request_timeout: Duration::from_secs(300), write_response_timeout: a.wt.map(Duration::from_millis).unwrap_or(Duration::MAX) });
    s.run(ADDR, r).unwrap_or_else(|e| mc::fail(format!("start: {}", e)));
    // the exact bytes of the response are whatever the server sends to a client that reads at once
    let req: Vec<u8> = if a.post { b"POST /x HTTP/1.1\r\nConnection: close\r\nContent-Length: 4\r\n\r\nabcd".to_vec() } else { b"GET /x HTTP/1.1\r\nConnection: close\r\n\r\n".to_vec() };
    let mut f = Client::connect();
    must_send(&mut f, &req);
    let (whole, e) = f.drain();
    if e.is_some() { return Err(format!("{:?}", e)); }
    match parse_resp(&whole) { Ok(Some((r, k))) if k == whole.len() && r.body == big(n) => {} x => return Err(format!("fast reader: {:?}", x.map(|x| x.map(|y| y.1)))) }
    drop(f);
    mc::quiesce();
    let total = whole.len();
    let base = mc::open_fds();
    let mut c = Client::connect();
    if a.second { must_send(&mut c, &get("/one")); expect_text(&mut c, "one"); }
    must_send(&mut c, &req);
    mc::quiesce();
    let t0 = mc::now_ms();
    let mut got = vec![];
    // when is everything written?
    let mut done_at = if total <= a.cap { Some(0) } else { None };
    let mut t = 0;
    let mut drained = 0;
    for (g, k) in &a.steps {
        t += g;
        drained += k;
        if done_at.is_none() && drained + a.cap >= total { done_at = Some(t); }
    }
    let in_time = match (done_at, a.wt) { (Some(_), None) => Some(true), (Some(d), Some(w)) => if d + TOL < w { Some(true) } else if d > w + TOL { Some(false) } else { None }, (None, Some(_)) => Some(false), (None, None) => return Ok("-never ends".into()) };
    let closed_at = |x: u64| -> Result<(), String> {
        // nothing of the server is left for this connection
        let o = mc::open_fds();
        if o != base + 1 { return Err(format!("after {} ms: {}", x, mc::describe_fds())); }
        Ok(())
    };
    let mut now = 0;
    let mut checked = false;
    let upto = |to: u64, now: &mut u64, checked: &mut bool| -> Result<(), String> {
        // look at the server just before and just after the deadline
        if let (Some(w), Some(false)) = (a.wt, in_time) {
            if !*checked && to > w + TOL {
                if *now < w - TOL { mc::sleep_ms(w - TOL - *now); *now = w - TOL; if mc::open_fds() == base + 1 { return Err(format!("given up after less than {} ms of {}", w - TOL, w)); } }
                mc::sleep_ms(w + TOL - *now);
                *now = w + TOL;
                mc::quiesce();
                closed_at(*now)?;
                *checked = true;
            }
        }
        if to > *now { mc::sleep_ms(to - *now); *now = to; }
        Ok(())
    };
    let mut t = 0;
    let mut drained = 0;
    for (g, k) in &a.steps {
        t += g;
        drained += k;
        upto(t, &mut now, &mut checked)?;
        if !read_some(&mut c, *k, &mut got) { break; }
        mc::quiesce();
        if in_time == Some(true) && drained + a.cap >= total { closed_at(t)?; }
    }
    if let (Some(w), Some(false)) = (a.wt, in_time) { if !checked { upto(w + 2 * TOL, &mut now, &mut checked)?; } }
    let (rest, e) = c.drain();
    got.extend(rest);
    if !whole.starts_with(&got) { return Err("other bytes than those of the response".into()); }
    let class = match in_time {
        Some(true) => { if got != whole || e.is_some() { return Err(format!("{} of {} bytes arrive although the client takes them in time, then {:?}", got.len(), total, e)); } "in time" }
        Some(false) => { if got.len() == total { return Err("all of the response arrives although the client takes it too slowly".into()); } "too slow" }
        None => "-on the edge",
    };
    let _ = t0;
    drop(c);
    mc::quiesce();
    if mc::open_fds() != base { return Err(format!("left open: {}", mc::describe_fds())); }
    finish(s);
    Ok(class.to_string())
}
fn c22(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    const WTS: [Option<u64>; 6] = [Some(300), Some(1000), Some(1700), Some(2500), Some(60_000), None];
    const GR: [u64; 5] = [0, 300, 450, 800, 1300];
    let mut v = vec![];
    for (n, cap) in [(3000usize, 1000usize), (30_000, 5000), (900, 1000), (8300, 8192)] {
        let nsteps = if th && n != 900 { 4u32 } else { 3 };
        let amounts: [usize; 3] = [cap / 2, cap, 2 * cap];
        let total = 6 * 2 * 2 * (5u64 * 3).pow(nsteps);
        let cfg = Config { sock_cap: cap, ..Default::default() };
        let mut s = Scen::cases(format!("drain patterns of {} bytes through {}", n, cap), total, 30, move |i| {
            let mut d = Dig(i);
            let wt = *d.of(&WTS);
            let (second, post) = (d.n(2) == 1, d.n(2) == 1);
            let mut steps: Vec<(u64, usize)> = (0..nsteps).map(|_| (d.of(&GR) * wt.unwrap_or(600_000) / 1000, *d.of(&amounts))).collect();
            // a client without a deadline takes everything in the end
            if wt.is_none() { steps.push((600_000, n)); }
            drain_case(&Drain { wt, n, cap, second, steps: steps.clone(), post }).map_err(|e| format!("timeout {:?}, second {}, post {}, steps {:?}: {}", wt, second, post, steps, e))
        });
        s.cfg.sock_cap = cfg.sock_cap;
        v.push(s);
    }
    // bodies that are written in several large pieces: the time is that of all of them
    for (n, cap) in [(3_500_000usize, 600_000usize), (2_200_000, 400_000)] {
        let nsteps = if th { 4u32 } else { 3 };
        let mut s = Scen::cases(format!("drain patterns of {} bytes through {}", n, cap), 3 * 2 * (4u64 * 2).pow(nsteps), 8, move |i| {
            let mut d = Dig(i);
            let wt = *d.of(&[Some(1000), Some(60_000), None]);
            let post = d.n(2) == 1;
            let mut steps: Vec<(u64, usize)> = (0..nsteps).map(|_| (d.of(&[0u64, 300, 450, 800]) * wt.unwrap_or(600_000) / 1000, *d.of(&[cap, 2 * cap]))).collect();
            if wt.is_none() { steps.push((600_000, n)); }
            drain_case(&Drain { wt, n, cap, second: false, steps: steps.clone(), post }).map_err(|e| format!("timeout {:?}, post {}, steps {:?}: {}", wt, post, steps, e))
        });
        s.cfg.sock_cap = cap;
        v.push(s);
    }
    // interruptions while a response is taken: they neither prolong nor shorten its time
    let mut s = Scen::cases("interrupted while a response is taken", 3 * 10 * 3 * 3 * 5 * 2, 20, |i| {
        let mut d = Dig(i);
        let f = *d.of(&[Fault::PollWaitIntr, Fault::WriteIntr, Fault::SpuriousReady]);
        let (n, k, before) = (d.n(10) as usize, *d.of(&[1usize, 2, 5]), d.n(3) as usize);
        let at = *d.of(&[[400u64, 800, 950], [700, 750, 900], [400, 800, 1200], [600, 1200, 1300], [900, 1100, 1900]]);
        let second = d.n(2) == 1;
        let mut s = Server::from_timeouts(timeouts(30_000, 1000));
        s.run(ADDR, routes(vec![("/", HttpMethod::GET, h(|r| if r.uri == "/one" { reply("one") } else { raw(big(3500)) }))])).unwrap();
        mc::quiesce();
        let mut c = Client::connect();
        if second { must_send(&mut c, &get("/one")); expect_text(&mut c, "one"); mc::quiesce(); }
        let t0 = mc::now_ms();
        let mut got = vec![];
        let mut cut = false;
        for j in 0..4 {
            if j > 0 {
                let t = at[j - 1];
                if t > 1000 && !cut {
                    for (x, open) in [(1000 - TOL, true), (1000 + TOL, false)] {
                        if t0 + x > mc::now_ms() { mc::sleep_ms(t0 + x - mc::now_ms()); }
                        mc::quiesce();
                        if (mc::open_fds() > 3) != open { return Err(format!("{:?} {} times after {}, taken at {:?}: after {} ms {}", f, k, n, at, x, mc::describe_fds())); }
                    }
                    cut = true;
                }
                mc::sleep_ms((t0 + t).saturating_sub(mc::now_ms()));
            }
            if j == before { mc::plan_faults(f, n, k); }
            if j == 0 { must_send(&mut c, b"GET /x HTTP/1.1\r\nConnection: close\r\n\r\n"); }
            else if j < 3 { read_some(&mut c, 500, &mut got); }
            else { let (rest, _) = c.drain(); got.extend(rest); }
            mc::quiesce();
        }
        let used = mc::faults_used();
        mc::unplan_fault();
        let ok = matches!(parse_resp(&got), Ok(Some((r, _))) if r.body == big(3500));
        if ok == cut { return Err(format!("{:?} {} times after {}, taken at {:?}: complete {}", f, k, n, at, ok)); }
        drop(c);
        mc::quiesce();
        finish(s);
        Ok(if used == 0 { "-not reached".into() } else { format!("{:?} {}", f, ok) })
    });
    s.cfg.sock_cap = 1000;
    v.push(s);
    // a poller may report a stream that does not take anything
    v.push(Scen::sched("readiness without room to write", if th { 4 } else { 3 }, Config { preempt: false, switch_cost: 1, sock_cap: 1000, ..Config::default() }, || {
        let mut s = Server::from_timeouts(timeouts(30_000, 1500));
        s.run(ADDR, routes(vec![("/", HttpMethod::GET, h(|_| raw(big(2500))))])).unwrap();
        mc::quiesce();
        let mut c = Client::connect();
        mc::set_faults(&[Fault::SpuriousReady]);
        must_send(&mut c, b"GET /x HTTP/1.1\r\nConnection: close\r\n\r\n");
        mc::quiesce();
        let gap = [1400, 1600][mc::choose(2, "gap")];
        let mut got = vec![];
        mc::sleep_ms(gap / 2);
        read_some(&mut c, 400, &mut got);
        mc::sleep_ms(gap / 2);
        let (rest, _) = c.drain();
        got.extend(rest);
        mc::set_faults(&[]);
        let ok = matches!(parse_resp(&got), Ok(Some((r, _))) if r.body == big(2500));
        if ok != (gap < 1500) { mc::fail(format!("gap {}: complete {}", gap, ok)); }
        drop(c);
        mc::outcome(format!("{} {}", gap, mc::faults_used()));
        finish(s);
    }));
    for (bound, switch_cost) in if th { [(2, 0), (3, 1)] } else { [(1, 0), (2, 1)] } {
    v.push(Scen::sched(format!("deadline under preemption, switch cost {}", switch_cost), bound, Config { switch_cost, sock_cap: 1000, ..Config::default() }, move || {
        let mut s = Server::from_timeouts(timeouts(30_000, 1500));
        s.run(ADDR, routes(vec![("/", HttpMethod::GET, h(|_| raw(big(2500))))])).unwrap();
        let mut c = Client::connect();
        must_send(&mut c, b"GET /x HTTP/1.1\r\nConnection: close\r\n\r\n");
        mc::quiesce();
        let gap = [1000, 2000][mc::choose(2, "gap")];
        mc::sleep_ms(gap / 2);
        let mut got = vec![];
        read_some(&mut c, 400, &mut got);
        mc::sleep_ms(gap / 2);
        let (rest, _) = c.drain();
        got.extend(rest);
        let ok = matches!(parse_resp(&got), Ok(Some((r, _))) if r.body == big(2500));
        if ok != (gap < 1500) { mc::fail(format!("gap {}: complete {}", gap, ok)); }
        drop(c);
        finish(s);
    }));
    }
    v
}

// ------------------------------------------------------------------ C23
const KINDS: usize = 16;
const KEEP_MS: u64 = 2000;
fn kind_name(k: usize) -> &'static str {
    ["close", "keep-alive", "idle timeout", "malformed", "cut in the head", "cut in the body", "reset in the head", "partial head timeout", "panic", "panic in a body", "short body", "slow reader", "lost reader", "half-closed", "nothing", "pipelined and gone"][k]
}
fn leak_routes(gate: &Arc<Gate>) -> Router {
    let mk = || { let gate = gate.clone(); h(move |r| {
        if r.uri.starts_with("/g") { gate.pass(); }
        match r.uri.as_str() {
            "/gboom" => panic!("expected panic"),
            "/boom" => panic!("expected panic"),
            "/body" => return Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(None, 100, Box::new(Boom { left: 7 }))) },
            "/short" => return Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(None, 100, Box::new(Cursor::new(b"short".to_vec())))) },
            "/big" => return raw(big(9000)),
            _ => {}
        }
        reply(&describe_req(r))
    }) };
    routes(vec![("/", HttpMethod::GET, mk()), ("/", HttpMethod::POST, mk())])
}
/// One connection of the given kind, from beginning to end. The client's descriptor is closed on return.
fn live(k: usize) {
    let mut c = Client::connect();
    c.timeout(600_000);
    let ask = |c: &mut Client, b: &[u8]| { let _ = c.send(b); };
    match k {
        0 => { ask(&mut c, b"GET /a HTTP/1.1\r\nConnection: close\r\n\r\n"); let _ = c.drain(); }
        1 => { for _ in 0..3 { ask(&mut c, &get("/a")); expect_text(&mut c, "GET /a"); } }
        2 => { ask(&mut c, &get("/a")); expect_text(&mut c, "GET /a"); let _ = c.drain(); }
        3 => { ask(&mut c, b"nonsense\r\n\r\n"); let _ = c.drain(); }
        4 => ask(&mut c, b"GET /a HTTP/1.1\r\nHo"),
        5 => ask(&mut c, b"POST /a HTTP/1.1\r\nContent-Length: 10\r\n\r\nabc"),
        6 => { ask(&mut c, b"GET /a HTTP/1.1\r\nHo"); c.s.mc_reset(); return; }
        7 => { ask(&mut c, b"GET /a HTTP/1.1\r\nHo"); let _ = c.drain(); }
        8 => { ask(&mut c, &get("/boom")); let _ = c.drain(); }
        9 => { ask(&mut c, &get("/body")); let _ = c.drain(); }
        10 => { ask(&mut c, &get("/short")); let _ = c.drain(); }
        11 => { ask(&mut c, &get("/big")); mc::sleep_ms(KEEP_MS + 100); let _ = c.drain(); }
        12 => { ask(&mut c, &get("/big")); mc::quiesce(); }
        13 => { ask(&mut c, &get("/a")); c.fin(); let _ = c.drain(); }
        14 => {}
        _ => { let mut b = get("/a"); b.extend(post("/b", "xyz")); b.extend(get("/big")); ask(&mut c, &b); }
    }
}
const TWIN: [&str; 3] = ["close", "keep-alive", "panic"];
const TWINS: &[(usize, usize)] = &[(0, 0), (0, 1), (1, 1), (0, 2)];
const FAILURES: &[Fault] = &[Fault::PollerNew, Fault::PollerAdd, Fault::SetNonblock, Fault::Dup, Fault::ReadReset, Fault::WriteReset, Fault::PollWaitIntr, Fault::ReadIntr, Fault::WriteIntr, Fault::SpuriousReady];
fn c23(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let one = Config { switch_cost: 1, sock_cap: 3000, ..Config::default() };
    let mut v = vec![];
    let start_leak = |gate: &Arc<Gate>| { let s = start_t(leak_routes(gate), KEEP_MS, KEEP_MS); mc::quiesce(); s };
    let check = |hist: &str, base: (usize, usize)| {
        mc::quiesce();
        if mc::open_fds() != base.0 { mc::fail(format!("after{}: {} descriptors instead of {}: {}", hist, mc::open_fds(), base.0, mc::describe_fds())); }
        if mc::live_threads() > base.1 + CAPACITY { mc::fail(format!("after{}: {} threads", hist, mc::live_threads())); }
    };
    v.push(Scen::sched("histories of connections one after another", 0, one.clone(), move || {
        let gate = Gate::new(true);
        let s = start_leak(&gate);
        let base = (mc::open_fds(), mc::live_threads());
        let mut hist = String::new();
        for _ in 0..3 {
            let k = mc::choose(KINDS, "connection");
            hist += &format!(" [{}]", kind_name(k));
            live(k);
            check(&hist, base);
        }
        mc::outcome(format!("{} threads", mc::live_threads() - base.1));
        finish(s);
    }));
    v.push(Scen::sched("two connections at the same time", if th { 2 } else { 1 }, one.clone(), move || {
        let gate = Gate::new(true);
        let s = start_leak(&gate);
        let base = (mc::open_fds(), mc::live_threads());
        let (a, b) = (mc::choose(KINDS, "first"), mc::choose(KINDS, "second"));
        if b > a { return; }
        let t = mc::client("second", move || live(b));
        live(a);
        t.join().unwrap();
        check(&format!(" [{}] and [{}]", kind_name(a), kind_name(b)), base);
        finish(s);
    }));
    v.push(Scen::sched("one connection under preemption", if th { 3 } else { 2 }, one.clone(), move || {
        let gate = Gate::new(true);
        let s = start_leak(&gate);
        let base = (mc::open_fds(), mc::live_threads());
        let a = mc::choose(KINDS, "kind");
        live(a);
        check(&format!(" [{}]", kind_name(a)), base);
        finish(s);
    }));
    // a connection that the environment interferes with leaves nothing behind
    v.push(Scen::sched("connections hit by a failure", if th { 2 } else { 1 }, Config { preempt: false, max_steps: 400_000, ..one.clone() }, move || {
        let gate = Gate::new(true);
        let tls = mc::choose(2, "TLS") == 1;
        let s = if tls { super::tls::start_tls(leak_routes(&gate), KEEP_MS, KEEP_MS) } else { start_leak(&gate) };
        mc::quiesce();
        let base = (mc::open_fds(), mc::live_threads());
        let k = mc::choose(4, "request");
        let req = [get("/a"), post("/b", "body"), b"GET /c HTTP/1.1\r\nConnection: close\r\n\r\n".to_vec(), b"broken\r\n\r\n".to_vec()][k].clone();
        mc::set_faults(FAILURES);
        if tls {
            let mut c = super::tls::Tls::new(&super::tls::client_cfg(false, None));
            let _ = c.s.set_read_timeout(Some(Duration::from_secs(100)));
            if c.handshake().is_ok() { for _ in 0..2 { if c.send(&req).is_err() || c.resp().is_err() { break; } } }
        } else {
            let mut c = Client::connect();
            c.timeout(100_000);
            for _ in 0..2 { if c.send(&req).is_err() { break; } if c.resp().is_err() { break; } }
        }
        mc::quiesce();
        mc::set_faults(&[]);
        let used = mc::faults_used();
        check(&format!(" {} failures with request {}", used, k), base);
        if !tls { live(0); }
        check(" a connection after that", base);
        mc::outcome(format!("{} {} {}", tls, k, used));
        finish(s);
    }));
    // the same failure over and over: memory
    for tls in [false, true] {
    v.push(Scen::sched(if tls { "failures over and over, TLS" } else { "failures over and over" }, 0, Config { preempt: false, max_steps: 4_000_000, ..one.clone() }, move || {
        let gate = Gate::new(true);
        let s = if tls { super::tls::start_tls(leak_routes(&gate), KEEP_MS, KEEP_MS) } else { start_leak(&gate) };
        mc::quiesce();
        let cfg = super::tls::client_cfg(false, None);
        let base = (mc::open_fds(), mc::live_threads());
        let f = mc::choose(FAILURES.len(), "failure");
        let nth = mc::choose(3, "which of them");
        let mut h = vec![];
        for round in 0..9 {
            for _ in 0..20 {
                mc::plan_fault(FAILURES[f], nth);
                if tls {
                    let mut c = super::tls::Tls::new(&cfg);
                    let _ = c.s.set_read_timeout(Some(Duration::from_secs(100)));
                    if c.handshake().is_ok() { for r in [get("/a"), post("/b", "body")] { if c.send(&r).is_err() || c.resp().is_err() { break; } } }
                } else {
                    let mut c = Client::connect();
                    c.timeout(100_000);
                    for r in [get("/a"), post("/b", "body")] { if c.send(&r).is_err() || c.resp().is_err() { break; } }
                }
                mc::quiesce();
                mc::unplan_fault();
            }
            check(&format!(" {} times {:?}", 20 * (round + 1), FAILURES[f]), base);
            mc::sleep_ms(11_000);
            std::thread::sleep(Duration::from_millis(3));
            h.push(mc::heap());
        }
        let grown = h[8] - h[6];
        if grown > 40 * 12 { mc::fail(format!("40 times {:?}: {} bytes more in use ({:?})", FAILURES[f], grown, h)); }
        mc::outcome(format!("{:?} {}", FAILURES[f], mc::faults_used()));
        finish(s);
    }));
    }
    // many connections: the memory that is in use does not grow, nor the number of threads
    for ncpu in [1usize, 3] {
        v.push(Scen::sched(format!("many connections, {} units", ncpu), 0, Config { ncpu, preempt: false, max_steps: 4_000_000, ..one.clone() }, move || {
            let gate = Gate::new(true);
            let s = start_leak(&gate);
            let base = (mc::open_fds(), mc::live_threads());
            let k = mc::choose(KINDS, "kind");
            let mut h = vec![];
            for round in 0..9 {
                for _ in 0..20 { live(k); mc::quiesce(); }
                check(&format!(" {} times [{}]", 20 * (round + 1), kind_name(k)), base);
                mc::sleep_ms(11_000);
                std::thread::sleep(Duration::from_millis(3));
                h.push(mc::heap());
            }
            // all the cells of the pool have been used after the first rounds
            let grown = h[8] - h[6];
            if grown > 40 * 12 { mc::fail(format!("40 times [{}]: {} bytes more in use ({:?})", kind_name(k), grown, h)); }
            mc::outcome(format!("[{}]", kind_name(k)));
            finish(s);
        }));
    }
    // rounds of connections at the same time, with all the threads they need gone in between
    v.push(Scen::sched("memory after rounds of connections at the same time", 0, Config { preempt: false, max_steps: 4_000_000, ..one.clone() }, move || {
        let gate = Gate::new(true);
        let s = start_leak(&gate);
        let base = (mc::open_fds(), mc::live_threads());
        let most = [2usize, 5, 30, CAPACITY][mc::choose(4, "connections")];
        let the_kind = mc::choose(6, "kind");
        let mut h = vec![];
        for round in 0..9 {
            // what grows to the most there is at one time, or is used in turn, does so in the first round
            let (n, kind) = if round == 0 { (CAPACITY, 0) } else { (most, the_kind) };
            gate.close();
            let mut cs: Vec<Client> = (0..n).map(|_| {
                let mut c = Client::connect();
                c.timeout(600_000);
                let m: &[u8] = match kind { 0 => b"GET /g HTTP/1.1\r\n\r\n", 1 => b"GET /g HTTP/1.1\r\nConnection: close\r\n\r\n", 2 => b"GET /gboom HTTP/1.1\r\n\r\n", 3 => b"GET /g HTT", 4 => b"", _ => b"POST /b HTTP/1.1\r\nContent-Length: 10\r\n\r\nab" };
                must_send(&mut c, m);
                mc::quiesce();
                c
            }).collect();
            gate.open();
            for c in cs.iter_mut() { match kind { 0 => expect_text(c, "GET /g"), 3 => {} _ => { let _ = c.drain(); } } }
            drop(cs);
            check(&format!(" {} times {} connections of kind {}", round + 1, n, kind), base);
            mc::sleep_ms(11_000);
            std::thread::sleep(Duration::from_millis(3));
            h.push(mc::heap());
        }
        let (n, kind) = (most, the_kind);
        let grown = h[8] - h[6];
        if grown > 12 * n as i64 { mc::fail(format!("twice {} connections of kind {}: {} bytes more in use ({:?})", n, kind, grown, h)); }
        if std::env::var("MC_SHOW").is_ok() { eprintln!("{} {} {:?}", n, kind, h); }
        mc::outcome(format!("{} {}", n, kind));
        finish(s);
    }));
    // what two connections leave behind together, whatever their threads do in between
    v.push(Scen::sched("memory after two connections at the same time", if th { 2 } else { 1 }, Config { ncpu: 100, max_steps: 4_000_000, preempt: false, ..one.clone() }, move || {
        let gate = Gate::new(true);
        let s = start_leak(&gate);
        let base = (mc::open_fds(), mc::live_threads());
        let (a, b) = TWINS[mc::choose(TWINS.len(), "kinds")];
        let both = |explored: bool| {
            gate.close();
            mc::set_quiet(true);
            mc::set_preempt(false);
            let mut cs = [a, b].map(|x| { let mut c = Client::connect(); c.timeout(600_000); must_send(&mut c, ["GET /g HTTP/1.1\r\nConnection: close\r\n\r\n", "GET /g HTTP/1.1\r\n\r\n", "GET /gboom HTTP/1.1\r\n\r\n"][x].as_bytes()); mc::quiesce(); c });
            if explored { mc::set_quiet(false); mc::set_preempt(true); }
            gate.open();
            for (c, x) in cs.iter_mut().zip([a, b]) { if x == 1 { expect_text(c, "GET /g"); } else { let _ = c.drain(); } }
            drop(cs);
            check(&format!(" {} and {}", a, b), base);
            mc::set_quiet(true);
            mc::set_preempt(false);
            mc::sleep_ms(11_000);
            // a thread that has ended still gives back what it used
            std::thread::sleep(Duration::from_millis(3));
        };
        mc::set_quiet(true);
        // what grows to the most there is at one time does so now
        let cs: Vec<Client> = (0..12).map(|_| { let mut c = Client::connect(); must_send(&mut c, &get("/a")); expect_text(&mut c, "GET /a"); c }).collect();
        drop(cs);
        for _ in 0..3 { both(false); }
        let before = mc::heap();
        both(true);
        let after = mc::heap();
        if after > before + 64 { mc::fail(format!("{} and {}: {} bytes more in use", TWIN[a], TWIN[b], after - before)); }
        mc::outcome(format!("{} and {} {}", TWIN[a], TWIN[b], after - before));
        finish(s);
    }));
    // refused connections
    v.push(Scen::sched("refused connections", 0, Config { max_steps: 1_000_000, ..one.clone() }, move || {
        let (rec, gate) = (Rec::default(), Gate::new(false));
        let s = start_t(boom_routes(&rec, &gate), 60_000, 60_000);
        mc::quiesce();
        let base = (mc::open_fds(), mc::live_threads());
        let all = full_house(CAPACITY, &gate, &rec, "/g");
        let full = mc::open_fds();
        let kind = mc::choose(3, "refused client");
        let mut h = vec![];
        for _ in 0..4 {
            for _ in 0..10 {
                let mut x = Client::connect();
                if kind > 0 { let _ = x.send(&get("/x")); }
                if kind < 2 { expect_busy(&mut x, "full"); }
                drop(x);
                mc::quiesce();
                if mc::open_fds() != full { mc::fail(format!("a refused connection leaves descriptors: {} instead of {}", mc::open_fds(), full)); }
            }
            h.push(mc::heap());
        }
        if h[3] - h[1] > 20 * 12 { mc::fail(format!("20 refused connections: {} bytes more in use ({:?})", h[3] - h[1], h)); }
        gate.open();
        drop(all);
        check(" refused connections", base);
        finish(s);
    }));
    v
}

// ------------------------------------------------------------------ C34
fn stall_routes() -> Router {
    let mk = || h(|r| {
        if r.uri.starts_with("/big") { return raw(big(9000)); }
        // a body that the handler leaves alone or takes away
        if r.uri.starts_with("/ignore") { return reply("ignored"); }
        if r.uri.starts_with("/take") { r.body = None; return reply("taken"); }
        reply(&describe_req(r))
    });
    routes(vec![("/", HttpMethod::GET, mk()), ("/", HttpMethod::POST, mk())])
}
const STALLS: usize = 12;
struct Stalled(Option<Client>, Option<mcstd::thread::JoinHandle<()>>);
impl Stalled { fn end(mut self) { if let Some(t) = self.1.take() { let _ = self.0.as_ref().unwrap().s.shutdown(mcstd::net::Shutdown::Both); t.join().unwrap(); } } }
/// A client that stalls in the given way; what it holds keeps the connection open.
fn stall(k: usize) -> Stalled {
    let mut c = Client::connect();
    let b: Vec<u8> = match k {
        0 => vec![],
        1 => b"G".to_vec(),
        2 => b"GET /a HTTP/1.1\r\nHost: x\r\n".to_vec(),
        3 => b"POST /a HTTP/1.1\r\nContent-Length: 10\r\n\r\nabc".to_vec(),
        4 => get("/big"),
        5 => { let mut x = get("/big"); x.extend(get("/big2")); x }
        6 => get("/keep"),
        8 => b"POST /ignore HTTP/1.1\r\nContent-Length: 10\r\n\r\nabc".to_vec(),
        9 => b"POST /take HTTP/1.1\r\nContent-Length: 10\r\n\r\nabc".to_vec(),
        10 => b"POST /big HTTP/1.0\r\nContent-Length: 3\r\n\r\nabc".to_vec(),
        11 => b"nonsense\r\n\r\n".to_vec(),
        _ => vec![],
    };
    if !b.is_empty() { let _ = c.send(&b); }
    if k == 6 { expect_text(&mut c, "GET /keep"); }
    if k == 7 {
        let mut w = c.s.try_clone().unwrap();
        let t = mc::client("dribble", move || { for x in b"GET /slow HTTP/1.1\r\nHost: abcdefghijklmn\r\n" { if w.write_all(&[*x]).is_err() { return; } mc::sleep_ms(400); } });
        return Stalled(Some(c), Some(t));
    }
    Stalled(Some(c), None)
}
fn quick_client(tag: &str) {
    let t0 = mc::now_ms();
    let mut c = Client::connect();
    c.timeout(100_000);
    must_send(&mut c, &get(&format!("/n{}", tag)));
    expect_text(&mut c, &format!("GET /n{}", tag));
    must_send(&mut c, &post("/m", "abc"));
    expect_text(&mut c, "POST /m abc");
    must_send(&mut c, &post("/ignore", "abcd"));
    expect_text(&mut c, "ignored");
    must_send(&mut c, &post("/take", "abcde"));
    expect_text(&mut c, "taken");
    let d = mc::now_ms() - t0;
    if d > 0 { mc::fail(format!("a normal client waits {} ms for its answers", d)); }
}
fn c34(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let one = Config { switch_cost: 1, sock_cap: 3000, ..Config::default() };
    let mut v = vec![];
    let mix = |n: usize, quiet: bool| move || {
        let s = start_t(stall_routes(), 30_000, 60_000);
        let ks: Vec<usize> = (0..n).map(|_| mc::choose(STALLS, "stalled client")).collect();
        if ks.windows(2).any(|w| w[1] > w[0]) { return; }
        let st: Vec<Stalled> = ks.iter().map(|k| stall(*k)).collect();
        if quiet { mc::quiesce(); }
        quick_client("1");
        mc::sleep_ms(1000);
        quick_client("2");
        mc::outcome(format!("{:?}", ks));
        st.into_iter().for_each(Stalled::end);
        finish(s);
    };
    for ncpu in [1usize, 2] {
        let c = Config { ncpu, ..one.clone() };
        v.push(Scen::sched(format!("three stalled clients, {} units", ncpu), 0, c.clone(), mix(3, true)));
        v.push(Scen::sched(format!("one stalled client under preemption, {} units", ncpu), if th { 3 } else { 1 }, c.clone(), mix(1, false)));
        v.push(Scen::sched(format!("two stalled clients under preemption, {} units", ncpu), if th { 2 } else { 1 }, c.clone(), mix(2, false)));
    }
    v.push(Scen::sched("two stalled clients, free switches", 0, Config { switch_cost: 0, ..one.clone() }, mix(2, true)));
    // up to the capacity of the server
    for ncpu in [1usize, 2, 4] {
        v.push(Scen::sched(format!("all but one connection stalled, {} units", ncpu), 0, Config { ncpu, preempt: false, max_steps: 400_000, ..one.clone() }, move || {
            let s = start_t(stall_routes(), 30_000, 60_000);
            let k = mc::choose(STALLS, "stalled client");
            let mut st: Vec<Stalled> = vec![];
            for i in 0..CAPACITY - 1 { st.push(stall(k)); mc::quiesce(); if i % 33 == 0 { quick_client("x"); mc::quiesce(); } }
            quick_client("y");
            mc::quiesce();
            quick_client("z");
            mc::outcome(format!("{}", k));
            st.into_iter().for_each(Stalled::end);
            finish(s);
        }));
    }
    // several normal clients at once beside stalled ones
    v.push(Scen::sched("two normal clients beside a stalled one", if th { 2 } else { 1 }, one.clone(), || {
        let s = start_t(stall_routes(), 30_000, 60_000);
        let k = mc::choose(STALLS, "stalled client");
        let st = stall(k);
        let a = mc::client("a", || quick_client("a"));
        let b = mc::client("b", || quick_client("b"));
        a.join().unwrap();
        b.join().unwrap();
        st.end();
        finish(s);
    }));
    v.extend(super::tls::c34_tls(th));
    v
}

// ------------------------------------------------------------------ C35
/// what the handler saw of the body: all of it, a part and an error, or (wrongly) a part and a regular end
fn lost_routes(rec: &Rec) -> Router {
    let mk = || {
        let rec = rec.clone();
        h(move |r| {
            let u = r.uri.clone();
            if u == "/ignore" { rec.push("ignore"); return reply("ignored"); }
            if u == "/large" { rec.push("large"); return raw(big(7000)); }
            let d = if u == "/p" || r.body.is_none() { describe_req(r) } else {
                // other ways to read a body
                let m = r.method;
                let body = r.body.as_mut().unwrap();
                let n = body.content_length as usize;
                let mut v = vec![];
                let e = match &u[1..2] {
                    "b" => { let mut e = None; for x in (&mut body.content).bytes() { match x { Ok(x) => v.push(x), Err(x) => { e = Some(x); break; } } } e }
                    "t" => { let mut e = None; loop { let mut x = [0u8; 3]; match body.content.read(&mut x) { Ok(0) => break, Ok(k) => v.extend(&x[..k]), Err(x) => { e = Some(x); break; } } } e }
                    "e" => { v = vec![0; n]; let e = body.content.read_exact(&mut v).err(); if e.is_some() { v.clear(); } e }
                    "s" => { let mut x = String::new(); let e = body.content.read_to_string(&mut x).err(); v = x.into_bytes(); e }
                    "c" => std::io::copy(&mut body.content, &mut v).err(),
                    "l" => { use std::io::BufRead; let mut e = None; for x in std::io::BufReader::new(&mut body.content).split(b'l') { match x { Ok(mut x) => { if !v.is_empty() { v.push(b'l'); } v.append(&mut x) }, Err(x) => { e = Some(x); break; } } } e }
                    _ => body.read_to_end(&mut v).err(),
                };
                format!("{} {}{}", m, u, match e { None => format!(" {}", esc(&v)), Some(e) => format!(" !{:?} {}", e.kind(), esc(&v)) })
            };
            rec.push(d.clone());
            reply(&d)
        })
    };
    routes(vec![("/", HttpMethod::GET, mk()), ("/", HttpMethod::POST, mk())])
}
const READS: [&str; 7] = ["/bytes", "/threes", "/exactly", "/string", "/copy", "/lines", "/Body"];
fn c35_req(kind: usize) -> (Vec<u8>, usize) {
    let m = match kind { 0 => post("/p", "hello"), 1 => post("/ignore", "hello"), 2 => get("/g"), 3 => b"POST /p HTTP/1.0\r\nContent-Length: 5\r\n\r\nhello".to_vec(), _ => post(READS[kind - 4], "hello") };
    let head = m.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
    (m, head)
}
/// The client goes away after `k` bytes of its request.
fn lose_request(step: usize, quiet: bool) -> impl Fn() + Send + Sync {
    move || {
        let rec = Rec::default();
        let s = start(lost_routes(&rec));
        let t0 = mc::now_ms();
        let (m, head) = c35_req(mc::choose(if quiet { 11 } else { 5 }, "request"));
        let k = (mc::choose(m.len() / step + 1, "bytes sent") * step).min(m.len());
        let first = mc::choose(2, "after an earlier request") == 1;
        let mode = mc::choose(3, "how it is lost");
        let mut c = Client::connect();
        if first { must_send(&mut c, &get("/one")); expect_text(&mut c, "GET /one"); rec.clear(); }
        if k > 0 { must_send(&mut c, &m[..k]); }
        if quiet { mc::quiesce(); }
        let mut got = None;
        match mode {
            0 => drop(c),
            1 => c.s.mc_reset(),
            _ => { c.fin(); c.timeout(200_000); got = Some(c.resp()); if c.resp().is_ok() { mc::fail("more answers than requests"); } drop(c); }
        }
        mc::quiesce();
        if mc::open_fds() != 2 { mc::fail(format!("{} of {} bytes sent and lost: left open: {}", k, m.len(), mc::describe_fds())); }
        if mc::now_ms() != t0 { mc::fail(format!("the lost connection is kept for {} ms", mc::now_ms() - t0)); }
        let log = rec.get();
        let full = k == m.len();
        if k < head && !log.is_empty() { mc::fail(format!("{} of {} bytes: a handler ran for an incomplete request: {:?}", k, head, log)); }
        if log.len() > 1 { mc::fail(format!("one request handled as {:?}", log)); }
        if let Some(x) = log.first() {
            // the reading handler must see the error, not a short body
            if x.starts_with("POST") && !full && !x.contains('!') { mc::fail(format!("{} of {} bytes: a handler took a truncated body for a complete one: {}", k, m.len(), x)); }
        }
        if let Some(g) = got {
            match (full, &g) {
                (true, Ok(r)) if r.status == 200 => {}
                (true, x) => mc::fail(format!("a complete request on a half-closed connection gets {:?}", x)),
                (false, Ok(r)) if r.status < 400 && k >= head && log.first().map_or(false, |x| x.contains('!')) => {}
                (false, Ok(r)) if r.status < 400 => mc::fail(format!("{} of {} bytes are answered {} {:?}", k, m.len(), r.status, r.text())),
                (false, Err(RErr::Bad(e))) => mc::fail(e.clone()),
                _ => {}
            }
        }
        mc::outcome(format!("mode {} {} {:?}", mode, if full { "all" } else if k >= head { "body cut" } else { "head cut" }, log));
        served_at_path();
        finish(s);
    }
}
fn served_at_path() { served("/after"); }
/// The client goes away after `k` bytes of the response.
fn lose_response(points: &'static [usize]) -> impl Fn() + Send + Sync {
    move || {
        let rec = Rec::default();
        let s = start(lost_routes(&rec));
        let t0 = mc::now_ms();
        let k = points[mc::choose(points.len(), "bytes read")];
        let mode = mc::choose(3, "how it is lost");
        let more = mc::choose(2, "another request behind") == 1;
        let mut c = Client::connect();
        let mut b = get("/large");
        if more { b.extend(get("/second")); }
        must_send(&mut c, &b);
        let mut got = vec![];
        read_some(&mut c, k, &mut got);
        match mode {
            0 => drop(c),
            1 => c.s.mc_reset(),
            _ => {
                c.fin();
                c.timeout(200_000);
                c.buf = got;
                match c.resp() { Ok(r) if r.body == big(7000) => {} x => mc::fail(format!("a client that only stops sending gets {:?}", x.map(|r| r.body.len()))) }
                if more { expect_text(&mut c, "GET /second"); }
                match c.resp() { Err(RErr::Eof | RErr::Io(io::ErrorKind::ConnectionReset)) => {} x => mc::fail(format!("then {:?}", x)) }
                drop(c);
            }
        }
        mc::quiesce();
        if mc::open_fds() != 2 { mc::fail(format!("{} bytes of the response read and lost: left open: {}", k, mc::describe_fds())); }
        if mc::now_ms() != t0 { mc::fail(format!("the lost connection is kept for {} ms", mc::now_ms() - t0)); }
        mc::outcome(format!("mode {} {:?}", mode, rec.get()));
        served("/after");
        finish(s);
    }
}
fn c35(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let b = Config { sock_cap: 1500, ..Config::default() };
    let one = Config { switch_cost: 1, ..b.clone() };
    let mut v = vec![
        Scen::sched("lost at every byte of a request", 0, b.clone(), lose_request(1, true)),
        Scen::sched("lost at every byte of a request, racing", if th { 2 } else { 1 }, one.clone(), lose_request(if th { 1 } else { 3 }, false)),
        Scen::sched("lost while reading a response", 0, b.clone(), lose_response(&[0, 1, 10, 20, 40, 60, 80, 100, 120, 1499, 1500, 1501, 3000, 6999, 7000, 7050])),
        Scen::sched("lost while reading a response, racing", if th { 2 } else { 1 }, one.clone(), lose_response(&[0, 1, 100, 1500, 3000, 7000])),
    ];
    // a longer body that ends early, however it is read
    let lens: &'static [usize] = if th { &[1, 2, 100, 1499, 1500, 1501, 4095, 4096, 8100, 8191, 8192, 8193, 16_384, 20_000, 65_537] } else { &[2, 1500, 8191, 8192, 8193, 20_000] };
    v.push(Scen::cases("bodies that end early", lens.len() as u64 * 10 * 8 * 3 * 2, 40, move |i| {
        let mut d = Dig(i);
        let len = *d.of(lens);
        let path = *d.of(&["/p", "/bytes", "/threes", "/exactly", "/string", "/copy", "/lines", "/Body", "/p?x", "/ignore"]);
        let k = [0, 1, len / 2, len - 1, len.saturating_sub(2), len.min(8100), len.min(8191), len.min(8192)][d.n(8) as usize].min(len - 1);
        let mode = d.n(3);
        let again = d.n(2) == 1;
        let rec = Rec::default();
        let s = start(lost_routes(&rec));
        let mut c = Client::connect();
        if again { must_send(&mut c, &post(path, "hello")); match c.resp() { Ok(r) if r.status == 200 => {} x => return Err(format!("{:?}", x)) } rec.clear(); }
        let m = post(path, &"hello"[..].repeat(len / 5 + 1)[..len]);
        let cut = m.len() - len + k;
        must_send(&mut c, &m[..cut]);
        match mode { 0 => drop(c), 1 => { mc::quiesce(); c.s.mc_reset(); } _ => { c.fin(); c.timeout(200_000); if let Ok(r) = c.resp() { if r.status < 400 && !r.text().contains('!') { return Err(format!("{} of the {} bytes of the body of {}: answered {} {:?}", k, len, path, r.status, r.text().chars().take(60).collect::<String>())); } } drop(c); } }
        mc::quiesce();
        if mc::open_fds() != 2 { return Err(format!("{} of {} bytes: left open: {}", k, len, mc::describe_fds())); }
        for x in rec.get() { if x.starts_with("POST") && !x.contains('!') { return Err(format!("{} of the {} bytes of the body of {}: taken for a complete one", k, len, path)); } }
        let n = rec.len();
        served("/after");
        finish(s);
        Ok(format!("mode {} calls {}", mode, n))
    }));
    // errors injected into the server's own calls
    use mcstd::rt::Fault::*;
    for (name, bound, errors) in [("reset at any read or write of the server", if th { 3 } else { 2 }, &[][..]), ("an error of any kind at any read or write of the server", if th { 2 } else { 1 }, super::util::ERRORS)] {
    v.push(Scen::sched(name, bound, Config { preempt: false, fault_errors: errors, ..one.clone() }, || {
        let rec = Rec::default();
        let s = start(lost_routes(&rec));
        let t0 = mc::now_ms();
        mc::set_faults(&[ReadReset, WriteReset, ReadIntr, WriteIntr, PollWaitIntr]);
        for _ in 0..2 {
            let k = mc::choose(3, "request");
            let m = match k { 0 => post("/p", "hello"), 1 => get("/large"), _ => post("/ignore", "hello") };
            let mut c = Client::connect();
            c.timeout(200_000);
            let _ = c.send(&m[..m.len() / 2]);
            mc::quiesce();
            let _ = c.send(&m[m.len() / 2..]);
            let n = rec.len();
            let before = mc::faults_used();
            match c.resp() {
                Ok(r) if r.status == 200 => {}
                x => if mc::faults_used() == 0 { mc::fail(format!("lost without a cause: {:?}", x)) },
            }
            let _ = (n, before);
            c.fin();
            let _ = c.drain();
        }
        mc::quiesce();
        mc::set_faults(&[]);
        if mc::open_fds() != 2 { mc::fail(format!("left open: {}", mc::describe_fds())); }
        if mc::now_ms() != t0 { mc::fail(format!("a failed connection is kept for {} ms", mc::now_ms() - t0)); }
        for x in rec.get() { if x.starts_with("POST") && !x.contains('!') && !x.ends_with(" hello") { mc::fail(format!("a handler took a truncated body for a complete one: {}", x)); } }
        mc::outcome(format!("{:?}", rec.get()));
        served("/after");
        finish(s);
    }));
    }
    // interrupted calls alone lose nothing
    v.push(Scen::sched("interrupted calls", if th { 4 } else { 3 }, Config { preempt: false, faults: vec![ReadIntr, WriteIntr, PollWaitIntr], ..one.clone() }, || {
        let rec = Rec::default();
        let s = start(lost_routes(&rec));
        let mut c = Client::connect();
        let m = post("/p", "hello");
        must_send(&mut c, &m[..20]);
        mc::quiesce();
        must_send(&mut c, &m[20..]);
        expect_text(&mut c, "POST /p hello");
        must_send(&mut c, &get("/large"));
        match c.resp() { Ok(r) if r.body == big(7000) => {} x => mc::fail(format!("{:?}", x.map(|r| r.body.len()))) }
        drop(c);
        finish(s);
    }));
    v
}
