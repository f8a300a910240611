//! Server level properties about conversations: C01, C02, C03, C04, C07.
use super::gen::*;
use super::util::*;
use super::{one_group, Prop, P0};
use crate::engine::Scen;
use crate::net::*;
use mcstd::{mc, rt::Config};
use std::io::{self, Cursor, Read};
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use wruster::http::headers::Headers;
use wruster::http::headers::Header;
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};
use wruster::{Server, Timeouts};

const A_SCHED: &[&str] = &["sequentially consistent interleavings of the façade's synchronization and socket operations", "the façade's sockets, poller and channels behave like the real ones (checked by the conformance traces)", "bounds: deviations (preemptions, short reads, faults) per execution as given per scenario"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", scen: c01, assumptions: A_SCHED, ..P0 },
        Prop { id: "C02", scen: c02, assumptions: A_SCHED, ..P0 },
        Prop { id: "C03", scen: c03, assumptions: A_SCHED, ..P0 },
        Prop { id: "C04", level: "exploration", scen: c04, groups: one_group, rule: "every generated byte string is sent to the real server over the façade's network; non-trivial: the reference parser finds a malformed or incomplete request in it; inputs are deduplicated", assumptions: &["the reference parser in harness/src/props/gen.rs states the grammar", "inputs outside the generated sets are not covered", "façade network (conformance-checked)"], ..P0 },
        Prop { id: "C07", level: "fault_enumeration", scen: c07, groups: one_group, rule: "handler response shape (constructor x status x headers set by the handler x body length) x body source behaviour (exact, short, long, error at byte k, panic-free), followed by another request on the connection; distinct by construction; non-trivial: a response was started", assumptions: &["HEAD requests and statuses that forbid bodies are used without bodies", "façade network (conformance-checked)"], ..P0 },
    ]
}

// ------------------------------------------------------------------ helpers
#[derive(Clone, Default)]
pub struct Rec(Arc<Mutex<Vec<String>>>);
impl Rec {
    pub fn push(&self, s: impl Into<String>) { let s = s.into(); mc::log(format!("rec {}", s)); self.0.lock().unwrap().push(s); }
    pub fn get(&self) -> Vec<String> { self.0.lock().unwrap().clone() }
    pub fn len(&self) -> usize { self.0.lock().unwrap().len() }
    pub fn clear(&self) { self.0.lock().unwrap().clear() }
}
pub fn h(f: impl Fn(&mut Request) -> Response + Send + Sync + 'static) -> HttpHandler { Box::new(f) }
pub fn reply(s: &str) -> Response { Response::from_content(Cursor::new(s.as_bytes().to_vec()), s.len() as u64, text()) }
pub fn describe_req(r: &mut Request) -> String {
    let mut b = vec![];
    let e = match r.body.as_mut() { None => String::new(), Some(x) => match x.content.read_to_end(&mut b) { Ok(_) => format!(" {}", esc(&b)), Err(e) => format!(" !{:?} {}", e.kind(), esc(&b)) } };
    format!("{} {}{}", r.method, r.uri, e)
}
/// Logs every call and answers with what it saw and the number of the call.
pub fn echo(rec: &Rec) -> HttpHandler {
    let rec = rec.clone();
    h(move |r| { let d = describe_req(r); rec.push(d.clone()); reply(&d) })
}
pub fn routes(v: Vec<(&str, HttpMethod, HttpHandler)>) -> Router {
    let r = Router::new();
    for (p, m, f) in v { r.add(p, m, f); }
    r
}
pub fn echo_routes(rec: &Rec) -> Router {
    routes(METHODS.iter().map(|m| ("/", HttpMethod::from_str(m).unwrap(), echo(rec))).collect())
}
pub fn timeouts(r_ms: u64, w_ms: u64) -> Timeouts { Timeouts { read_request_timeout: Duration::from_millis(r_ms), write_response_timeout: Duration::from_millis(w_ms) } }
pub fn start(r: Router) -> Server { let mut s = Server::new(); s.run(ADDR, r).unwrap_or_else(|e| mc::fail(format!("start: {}", e))); s }
pub fn start_t(r: Router, rd: u64, wr: u64) -> Server { let mut s = Server::from_timeouts(timeouts(rd, wr)); s.run(ADDR, r).unwrap_or_else(|e| mc::fail(format!("start: {}", e))); s }
pub fn start_log() -> (Server, Rec) { let rec = Rec::default(); (start(echo_routes(&rec)), rec) }
/// Shutdown and verify that nothing is left.
pub fn finish(s: Server) {
    if let Err(e) = s.shutdown() { mc::fail(format!("shutdown: {}", e)); }
    leftovers();
}
pub fn leftovers() {
    if mc::open_fds() != 0 { mc::fail(format!("descriptors left open: {}", mc::describe_fds())); }
    if mc::live_threads() > 1 { mc::fail(format!("threads left: {}", mc::describe())); }
}
pub fn expect_text(c: &mut Client, want: &str) {
    match c.resp() {
        Ok(r) if r.status == 200 && r.text() == want => {}
        Ok(r) => mc::fail(format!("expected \"{}\", got {} \"{}\"", want, r.status, esc(&r.body))),
        Err(e) => mc::fail(format!("expected \"{}\", got {:?}", want, e)),
    }
}
pub fn get(p: &str) -> Vec<u8> { format!("GET {} HTTP/1.1\r\n\r\n", p).into_bytes() }
pub fn post(p: &str, b: &str) -> Vec<u8> { format!("POST {} HTTP/1.1\r\nContent-Length: {}\r\n\r\n{}", p, b.len(), b).into_bytes() }
pub fn must_send(c: &mut Client, b: &[u8]) { if let Err(e) = c.send(b) { mc::fail(format!("the server does not take the request: {:?}", e.kind())); } }
/// A normal request on a new connection is served.
pub fn served(path: &str) {
    let mut c = Client::connect();
    must_send(&mut c, format!("GET {} HTTP/1.1\r\nConnection: close\r\n\r\n", path).as_bytes());
    expect_text(&mut c, &format!("GET {}", path));
    if !c.at_eof() { mc::fail("more bytes after the last response"); }
}

// ------------------------------------------------------------------ C01
#[cfg(not(feature = "hooks"))]
pub fn scen_for(id: &str, tier: &str, group: &str) -> Vec<Scen> { match id { "C01" => c01(tier, group), _ => vec![] } }
fn c01(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let mut v = vec![];
    let msgs: [(Vec<u8>, &'static str); 3] = [(get("/1"), "GET /1"), (post("/2", "hello"), "POST /2 hello"), (b"PUT /3 HTTP/1.1\r\nX-A: b\r\ncontent-length: 3\r\nX-A: c\r\n\r\nabc".to_vec(), "PUT /3 abc")];
    let m = Arc::new(msgs);
    // a stream of two or three requests cut anywhere
    let split = |name: &str, cuts: usize, bound: u32, cfg: Config, quiet: bool| {
        let m = m.clone();
        Scen::sched(name, bound, cfg, move || {
            let (s, rec) = start_log();
            let k = 2 + mc::choose(2, "requests") ;
            let seq: Vec<usize> = (0..k).map(|_| mc::choose(2, "request")).collect();
            let b: Vec<u8> = seq.iter().flat_map(|i| m[*i].0.clone()).collect();
            let mut at = vec![];
            let mut from = 0;
            for _ in 0..cuts { let c = mc::choose(b.len() - from, "cut"); if c == 0 { break; } from += c; at.push(from); }
            let mut c = Client::connect();
            let mut p = 0;
            for x in at.iter().copied().chain([b.len()]) {
                must_send(&mut c, &b[p..x]);
                if quiet { mc::quiesce(); }
                p = x;
            }
            for i in &seq { expect_text(&mut c, m[*i].1); }
            c.fin();
            if !c.at_eof() { mc::fail("more responses than requests"); }
            let want: Vec<String> = seq.iter().map(|i| m[*i].1.to_string()).collect();
            if rec.get() != want { mc::fail(format!("handled {:?}, sent {:?}", rec.get(), want)); }
            mc::outcome(format!("{:?}", want));
            drop(c);
            finish(s);
        })
    };
    let base = Config::default();
    v.push(split("two or three requests cut once, everything else idle in between", 1, if th { 2 } else { 1 }, Config { ..base.clone() }, true));
    if th { v.push(split("two or three requests cut twice, everything else idle in between", 2, 0, Config { ..base.clone() }, true)); }
    v.push(split("pipelined requests under preemption", 0, if th { 3 } else { 2 }, base.clone(), false));
    v.push(split("requests cut once, racing with the server", 1, if th { 2 } else { 0 }, base.clone(), false));
    v.push(split("pipelined requests with short reads and writes", 0, if th { 3 } else { 2 }, Config { preempt: false, short_read: true, short_write: true, ..base.clone() }, false));
    // request, response, request, response
    let mm = m.clone();
    v.push(Scen::sched("sequential requests under preemption", if th { 3 } else { 2 }, base.clone(), move || {
        let (s, rec) = start_log();
        let mut c = Client::connect();
        let seq: Vec<usize> = (0..3).map(|_| mc::choose(3, "request")).collect();
        for i in &seq {
            must_send(&mut c, &mm[*i].0);
            expect_text(&mut c, mm[*i].1);
        }
        drop(c);
        let want: Vec<String> = seq.iter().map(|i| mm[*i].1.to_string()).collect();
        if rec.get() != want { mc::fail(format!("handled {:?}, sent {:?}", rec.get(), want)); }
        finish(s);
        mc::outcome(format!("{:?}", want));
    }));
    // long conversations: what piles up over the requests of a connection
    v.push(Scen::sched("long conversations", 0, Config { switch_cost: 1, preempt: false, max_steps: 4_000_000, ..base.clone() }, move || {
        let (s, rec) = start_log();
        let n = [10usize, 20, 50, 130, 300][mc::choose(5, "requests")];
        let period = 1 + mc::choose(2, "period");
        let kinds: Vec<usize> = (0..period).map(|_| mc::choose(4, "request")).collect();
        // how many bytes at once (0: one request at a time, each answered before the next), and how long between them
        let step = [0usize, 37, 1000, 8191, 8192, 8193, usize::MAX][mc::choose(7, "step")];
        let gap = [0u64, 700][mc::choose(2, "gap")];
        let mut want = vec![];
        let mut b = vec![];
        let mut ends = vec![];
        for i in 0..n {
            let body = match kinds[i % period] { 0 => String::new(), 1 => format!("body {}", i), 2 => format!("{}", i).repeat(90), _ => String::new() };
            match kinds[i % period] {
                0 => { b.extend(get(&format!("/g{}", i))); want.push(format!("GET /g{}", i)); }
                3 => { b.extend(format!("PUT /u{} HTTP/1.1\r\nX: {}\r\nContent-Length: 0\r\n\r\n", i, "y".repeat(i % 90)).into_bytes()); want.push(format!("PUT /u{}", i)); }
                _ => { b.extend(post(&format!("/p{}", i), &body)); want.push(format!("POST /p{} {}", i, body)); }
            }
            ends.push(b.len());
        }
        if step == 37 && b.len() > 20_000 { return finish(s); }
        let mut c = Client::connect();
        if step == 0 {
            let mut p = 0;
            for i in 0..n {
                must_send(&mut c, &b[p..ends[i]]);
                p = ends[i];
                expect_text(&mut c, &want[i]);
                if gap > 0 && i % 16 == 7 { mc::sleep_ms(gap); }
            }
        } else {
            // everything is sent before anything is read; it fits into the buffers of the network
            for x in b.chunks(step.min(b.len())) { must_send(&mut c, x); mc::quiesce(); if gap > 0 && step > 37 { mc::sleep_ms(gap); } }
            for w in &want { expect_text(&mut c, w); }
        }
        c.fin();
        if !c.at_eof() { mc::fail("more responses than requests"); }
        if rec.get() != want { mc::fail(format!("of {} requests {} were handled", n, rec.len())); }
        mc::outcome(format!("{} {:?} {}", n, kinds, step));
        drop(c);
        finish(s);
    }));
    // a connection serves any number of requests
    let counts: &'static [usize] = if th { &[1001, 1030, 2050, 4100, 10_010, 33_000, 65_540] } else { &[1001, 1030, 4100, 10_010] };
    v.push(Scen::sched("very long conversations", 0, Config { switch_cost: 1, preempt: false, max_steps: 40_000_000, ..base.clone() }, move || {
        let n = counts[mc::choose(counts.len(), "requests")];
        let kind = mc::choose(2, "kind");
        // how many requests are sent before their answers are read
        let window = [1usize, 50][mc::choose(2, "window")];
        let seen = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let s2 = seen.clone();
        let s = start(routes(vec![
            ("/", HttpMethod::GET, { let s2 = s2.clone(); h(move |r| { s2.fetch_add(1, std::sync::atomic::Ordering::SeqCst); reply(&r.uri) }) }),
            ("/", HttpMethod::POST, h(move |r| { s2.fetch_add(1, std::sync::atomic::Ordering::SeqCst); let mut b = String::new(); if let Some(x) = r.body.as_mut() { let _ = x.content.read_to_string(&mut b); } reply(&format!("{} {}", r.uri, b)) })),
        ]));
        let mut c = Client::connect();
        let mut i = 0;
        while i < n {
            let k = window.min(n - i);
            let mut b = vec![];
            for j in i..i + k { b.extend(if kind == 0 || j % 7 != 0 { get(&format!("/g{}", j)) } else { post(&format!("/p{}", j), &format!("b{}", j)) }); }
            must_send(&mut c, &b);
            for j in i..i + k {
                let want = if kind == 0 || j % 7 != 0 { format!("/g{}", j) } else { format!("/p{} b{}", j, j) };
                match c.resp() { Ok(r) if r.status == 200 && r.text() == want => {} x => mc::fail(format!("request {} of {}: expected {:?}, got {:?}", j + 1, n, want, x.map(|r| (r.status, r.text())))) }
            }
            i += k;
        }
        c.fin();
        if !c.at_eof() { mc::fail("more responses than requests"); }
        let k = seen.load(std::sync::atomic::Ordering::SeqCst);
        if k != n { mc::fail(format!("{} requests, {} calls", n, k)); }
        drop(c);
        finish(s);
        mc::outcome(format!("{} {} {}", n, kind, window));
    }));
    // concurrent connections
    for (ncpu, n) in [(1usize, 2usize), (2, 2)].into_iter().chain(if th { vec![(1, 3)] } else { vec![] }) {
        for (bound, switch_cost) in if th { [(2, 0), (3, 1)] } else { [(1, 0), (2, 1)] } {
        v.push(Scen::sched(format!("{} connections on {} units, switch cost {}", n, ncpu, switch_cost), bound, Config { ncpu, switch_cost, ..base.clone() }, move || {
            let (s, rec) = start_log();
            let hs: Vec<_> = (0..n).map(|k| mc::client(&format!("c{}", k), move || {
                let mut c = Client::connect();
                let (a, b) = (format!("/{}a", k), format!("/{}b", k));
                let mut x = get(&a);
                if k == 0 { x.extend(post(&b, "body")); must_send(&mut c, &x); expect_text(&mut c, &format!("GET {}", a)); }
                else { must_send(&mut c, &x); expect_text(&mut c, &format!("GET {}", a)); must_send(&mut c, &post(&b, "body")); }
                expect_text(&mut c, &format!("POST {} body", b));
                c.fin();
                if !c.at_eof() { mc::fail("more responses than requests"); }
            })).collect();
            for x in hs { x.join().unwrap(); }
            let log = rec.get();
            mc::outcome(format!("{:?}", log));
            for k in 0..n {
                let mine: Vec<&String> = log.iter().filter(|x| x.contains(&format!("/{}", k))).collect();
                if mine.len() != 2 || !mine[0].starts_with("GET") { mc::fail(format!("connection {}: handled {:?}", k, mine)); }
            }
            finish(s);
        }));
        }
    }
    // everything a request and a response carry belongs to the connection
    for (ncpu, bound, switch_cost) in if th { vec![(1usize, 2, 0), (2, 2, 0), (2, 3, 1)] } else { vec![(1, 1, 0), (2, 2, 1)] } {
        v.push(Scen::sched(format!("two connections told apart by everything they carry, {} units, switch cost {}", ncpu, switch_cost), bound, Config { ncpu, switch_cost, ..base.clone() }, move || {
            let rec = Rec::default();
            let handler = |tag: &'static str, status: usize| {
                let rec = rec.clone();
                h(move |r: &mut Request| {
                    let hv = r.headers.get("X-Who").map(|v| v.join("+")).unwrap_or_default();
                    let d = describe_req(r);
                    let d = format!("{} {} {} {}", tag, r.version, hv, d);
                    rec.push(d.clone());
                    let mut x = reply(&d);
                    x.status = StatusCode::from(status);
                    x.headers.add(Header { name: "X-Tag".into(), value: format!("{}{}", tag, hv) });
                    x
                })
            };
            let routes = routes(vec![("/r", HttpMethod::PUT, handler("p", 201)), ("/r/k1", HttpMethod::PUT, handler("q", 202)), ("/r/k0", HttpMethod::POST, handler("s", 404))]);
            let s = start(routes);
            let hs: Vec<_> = (0..2).map(|k| mc::client(&format!("c{}", k), move || {
                let mut c = Client::connect();
                let m = ["POST", "PUT"];
                for (i, body) in [["aaa", ""], ["b", "cccc"]][k].iter().enumerate() {
                    let m = if i == 0 { m[k] } else { "PUT" };
                    let id = format!("{}{}", k, i);
                    let b = format!("{} /r/k{}/{}?q={} HTTP/1.1\r\nX-Who: {}\r\nContent-Length: {}\r\n\r\n{}", m, k, i, id, id, body.len(), body);
                    must_send(&mut c, b.as_bytes());
                    let (tag, status) = if k == 1 { ("q", 202) } else if i == 0 { ("s", 404) } else { ("p", 201) };
                    let want = format!("{} HTTP/1.1 {} {} /r/k{}/{}?q={}{}", tag, id, m, k, i, id, if body.is_empty() { String::new() } else { format!(" {}", body) });
                    match c.resp() {
                        Ok(r) if r.status == status && r.text() == want && r.header("X-Tag") == [format!("{}{}", tag, id).as_str()] => {}
                        x => mc::fail(format!("expected {} \"{}\", got {:?}", status, want, x.map(|r| (r.status, r.text())))),
                    }
                }
                c.fin();
                if !c.at_eof() { mc::fail("more responses than requests"); }
            })).collect();
            for x in hs { x.join().unwrap(); }
            if rec.len() != 4 { mc::fail(format!("handled {:?}", rec.get())); }
            mc::outcome(format!("{:?}", rec.get()));
            finish(s);
        }));
    }
    // bodies and requests that cross the reader's buffer
    let span: Vec<usize> = (8000..8200).step_by(if th { 1 } else { 3 }).chain([1, 100, 4095, 4096, 8192 * 2 - 60, 16384, 50_000]).collect();
    let n = span.len() as u64;
    v.push(last_request(th));
    v.push(Scen::cases("requests around the buffer size", n * 3 * 3, 30, move |i| {
        let mut d = Dig(i);
        let len = *d.of(&span);
        let shape = d.n(3);
        let piece = *d.of(&[usize::MAX, 8192, 1000]);
        let body = "x".repeat(len);
        let big = match shape { 0 => post("/big", &body), 1 => format!("GET /big HTTP/1.1\r\nLong: {}\r\n\r\n", body).into_bytes(), _ => get(&format!("/{}", body)) };
        let want = match shape { 0 => format!("POST /big {}", esc(body.as_bytes())), 1 => "GET /big".to_string(), _ => format!("GET /{}", body) };
        let mut b = get("/first");
        b.extend(&big);
        b.extend(get("/mid"));
        b.extend(post("/last", "z"));
        let (s, rec) = start_log();
        let mut c = Client::connect();
        for p in b.chunks(piece.min(b.len())) { must_send(&mut c, p); }
        for w in ["GET /first", &want, "GET /mid", "POST /last z"] {
            match c.resp() { Ok(r) if r.text() == w => {} x => return Err(format!("length {} shape {}: expected {:?}, got {:?}", len, shape, &w[..w.len().min(60)], x.map(|r| r.text().chars().take(60).collect::<String>()))) }
        }
        if rec.len() != 4 { return Err(format!("{} calls for 4 requests", rec.len())); }
        drop(c);
        finish(s);
        Ok(format!("shape {}", shape))
    }));
    v
}

// ------------------------------------------------------------------ C02
/// How a handler consumes the body of its request.
const STYLES: [&str; 11] = ["nothing", "one byte", "half through content", "half through Body::read", "all through content", "all through Body::read", "all but one", "more than there is", "takes it and drops it", "takes it and reads half", "returns it"];
fn consume(r: &mut Request, style: &str, rec: &Rec) -> Response {
    let uri = r.uri.clone();
    let len = r.body.as_ref().map(|b| b.content_length as usize).unwrap_or(0);
    let mut got = vec![];
    let read = |b: &mut dyn Read, n: usize| -> Vec<u8> {
        let mut v = vec![0u8; n];
        let mut at = 0;
        while at < n { match b.read(&mut v[at..]) { Ok(0) => break, Ok(k) => at += k, Err(e) if e.kind() == io::ErrorKind::Interrupted => {} Err(e) => { rec.push(format!("{} body error {:?}", uri, e.kind())); break; } } }
        v.truncate(at);
        v
    };
    if let Some(b) = r.body.as_mut() {
        got = match style {
            "one byte" => read(&mut b.content, 1.min(len)),
            "half through content" => read(&mut b.content, len / 2),
            "half through Body::read" => read(b, len / 2),
            "all through content" => read(&mut b.content, len),
            "all through Body::read" => read(b, len),
            "all but one" => read(&mut b.content, len - 1),
            "more than there is" => read(&mut b.content, len + 1000),
            _ => vec![],
        };
    }
    match style {
        "takes it and drops it" => drop(r.body.take()),
        "takes it and reads half" => if let Some(mut b) = r.body.take() { got = read(&mut b.content, len / 2); },
        "returns it" => if let Some(b) = r.body.take() {
            rec.push(format!("{} {}", r.method, uri));
            return Response { status: StatusCode::OK, headers: Default::default(), body: Some(b) };
        },
        _ => {}
    }
    rec.push(format!("{} {}", r.method, uri));
    if got.len() > len || pat(got.len()) != got { rec.push(format!("{} read {:?}", uri, esc(&got))); }
    reply(&format!("{} read {}", uri, got.len()))
}
fn pat(n: usize) -> Vec<u8> { (0..n).map(|i| b"GET /x HTTP/1.1\r\n\r\n"[i % 19]).collect() }
fn expect_read(style: &str, len: usize) -> usize {
    match style { "one byte" => 1.min(len), "half through content" | "half through Body::read" | "takes it and reads half" => len / 2, "all through content" | "all through Body::read" | "more than there is" => len, "all but one" => len - 1, _ => 0 }
}
fn c02_run(lens: &'static [usize], cut_free: bool) -> impl Fn() + Send + Sync {
    move || {
        let rec = Rec::default();
        let style = STYLES[mc::choose(STYLES.len(), "style")];
        let len = lens[mc::choose(lens.len(), "length")];
        let r2 = rec.clone();
        let s = start(routes(vec![("/", HttpMethod::POST, h(move |r| consume(r, style, &r2))), ("/", HttpMethod::GET, echo(&rec))]));
        let head = format!("POST /p HTTP/1.1\r\nContent-Length: {}\r\n\r\n", len).into_bytes();
        let hl = head.len();
        let mut b = head;
        b.extend(pat(len));
        b.extend(get("/next"));
        b.extend(post("/q", "GET /"));
        // where the stream is cut
        let cuts: Vec<usize> = if cut_free { let k = mc::choose(5, "cut"); match k { 0 => vec![], 1 => vec![hl], 2 => vec![hl + len / 2], 3 => vec![hl + len], _ => vec![hl, hl + 1, hl + len, hl + len + 5] } } else { vec![] };
        let mut c = Client::connect();
        let mut p = 0;
        for x in cuts.iter().copied().chain([b.len()]) { if x <= p { continue; } must_send(&mut c, &b[p..x]); p = x; if x < b.len() { mc::quiesce(); } }
        let want = if style == "returns it" { String::from_utf8(pat(len)).unwrap() } else { format!("/p read {}", expect_read(style, len)) };
        expect_text(&mut c, &want);
        expect_text(&mut c, "GET /next");
        let q = if style == "returns it" { "GET /".to_string() } else { format!("/q read {}", expect_read(style, 5)) };
        expect_text(&mut c, &q);
        c.fin();
        if !c.at_eof() { mc::fail("more responses than requests"); }
        if rec.get() != ["POST /p", "GET /next", "POST /q"] { mc::fail(format!("{}: handled {:?}", style, rec.get())); }
        drop(c);
        finish(s);
        mc::outcome(format!("{} {}", style, len));
    }
}
fn c02(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let base = Config::default();
    vec![
        codings(th),
        Scen::sched("styles and cuts", if th { 2 } else { 1 }, base.clone(), c02_run(&[1, 2, 5, 19], true)),
        Scen::sched("long bodies", if th { 1 } else { 0 }, Config { max_steps: 200_000, ..base.clone() }, c02_run(&[300, 8191, 8192, 8193, 20_000], true)),
        Scen::sched("glued requests with short reads", if th { 3 } else { 2 }, Config { preempt: false, short_read: true, ..base.clone() }, c02_run(&[1, 5], false)),
        // bodies of megabytes, through the whole window and more than it holds
        Scen::sched("very long bodies", 0, Config { preempt: false, max_steps: 4_000_000, switch_cost: 1, ..base.clone() }, || {
            let rec = Rec::default();
            let style = STYLES[mc::choose(STYLES.len(), "style")];
            let len = [(1 << 20) - 1, 1 << 20, 1_500_000, 5_000_000][mc::choose(4, "length")];
            let r2 = rec.clone();
            let s = start(routes(vec![("/", HttpMethod::POST, h(move |r| consume(r, style, &r2))), ("/", HttpMethod::GET, echo(&rec))]));
            let body = pat(len);
            let mut b = format!("POST /p HTTP/1.1\r\nContent-Length: {}\r\n\r\n", len).into_bytes();
            b.extend(&body);
            b.extend(get("/next"));
            b.extend(post("/q", "GET /"));
            let mut c = Client::connect();
            let mut w = Client { s: c.s.try_clone().unwrap(), buf: vec![] };
            let t = mc::client("writer", move || { must_send(&mut w, &b); });
            let want = if style == "returns it" { body } else { format!("/p read {}", expect_read(style, len)).into_bytes() };
            match c.resp() { Ok(r) if r.status == 200 && r.body == want => {} x => mc::fail(format!("{} of {}: the answer is {:?}", style, len, x.map(|r| (r.status, r.body.len())))) }
            expect_text(&mut c, "GET /next");
            let q = if style == "returns it" { "GET /".to_string() } else { format!("/q read {}", expect_read(style, 5)) };
            expect_text(&mut c, &q);
            t.join().unwrap();
            c.fin();
            if !c.at_eof() { mc::fail("more responses than requests"); }
            drop(c);
            if rec.get() != ["POST /p", "GET /next", "POST /q"] { mc::fail(format!("{}: handled {:?}", style, rec.get())); }
            finish(s);
            mc::outcome(format!("{} {}", style, len));
        }),
        // a declared length larger than any number of bytes the client will send: none of what it does send is a request
        Scen::sched("declared lengths beyond every type", 0, Config { preempt: false, max_steps: 400_000, switch_cost: 1, ..base.clone() }, || {
            let rec = Rec::default();
            // half of it, and nothing less than all of it, cannot be waited for here
            let style = ["nothing", "one byte", "takes it and drops it", "all through content", "returns it"][mc::choose(5, "style")];
            let pow = [15u32, 16, 31, 32, 33, 40, 48, 62, 63][mc::choose(9, "power")];
            let off = [-1i64, 0, 1, 5, 19][mc::choose(5, "offset")];
            let len = ((1u64 << pow) as i128 + off as i128) as u64;
            let n = [0usize, 1, 19, 19 * 40][mc::choose(4, "sent")];
            let end = mc::choose(3, "end");
            let glued = mc::choose(2, "glued") == 1;
            let r2 = rec.clone();
            let s = start_t(routes(vec![("/p", HttpMethod::POST, h(move |r| {
                if style == "all through content" || style == "returns it" {
                    // reads on until the stream ends
                    let mut got = 0u64;
                    if let Some(b) = r.body.as_mut() { let mut v = [0u8; 4096]; loop { match b.content.read(&mut v) { Ok(0) | Err(_) => break, Ok(k) => got += k as u64 } } }
                    r2.push(format!("{} {}", r.method, r.uri));
                    return reply(&format!("/p read {}", got));
                }
                consume(r, style, &r2)
            })), ("/", HttpMethod::GET, echo(&rec))]), 3000, 3000);
            let mut c = Client::connect();
            let mut b = format!("POST /p HTTP/1.1\r\nContent-Length: {}\r\n\r\n", len).into_bytes();
            let hl = b.len();
            b.extend(pat(n));
            if glued { must_send(&mut c, &b); } else { must_send(&mut c, &b[..hl]); mc::quiesce(); if n > 0 { let _ = c.send(&b[hl..]); } }
            match end {
                0 => c.fin(),
                1 => {}
                _ => { mc::sleep_ms(1000); let _ = c.send(&get("/late")); }
            }
            c.timeout(60_000);
            // at most the one response the handler made; whether there is one depends on the handler
            if let Ok(r) = c.resp() {
                if r.status < 400 && !r.text().starts_with("/p read") { mc::fail(format!("{} of {} bytes: answered {} {:?}", n, len, r.status, r.text())); }
                if let Ok(r) = c.resp() { mc::fail(format!("{}, {} of {} bytes: a second response {} {:?}", style, n, len, r.status, r.text())); }
            }
            if rec.get().iter().any(|x| x.contains("GET")) { mc::fail(format!("{}, {} of {} bytes: body bytes were taken for a request: {:?}", style, n, len, rec.get())); }
            drop(c);
            finish(s);
            mc::outcome(format!("{} {}", style, len));
        }),
        // a body larger than any buffer, with a small window
        Scen::sched("small window", 0, Config { sock_cap: 4096, max_steps: 400_000, switch_cost: 1, ..base }, || {
            let rec = Rec::default();
            let style = STYLES[mc::choose(STYLES.len(), "style")];
            let len = [30_000, 100_000][mc::choose(2, "length")];
            let r2 = rec.clone();
            let s = start(routes(vec![("/", HttpMethod::POST, h(move |r| consume(r, style, &r2))), ("/", HttpMethod::GET, echo(&rec))]));
            let mut b = format!("POST /p HTTP/1.1\r\nContent-Length: {}\r\n\r\n", len).into_bytes();
            b.extend(pat(len));
            b.extend(get("/next"));
            let c = Client::connect();
            let mut w = Client { s: c.s.try_clone().unwrap(), buf: vec![] };
            let t = mc::client("writer", move || { must_send(&mut w, &b); });
            let mut c = c;
            let want = if style == "returns it" { String::from_utf8(pat(len)).unwrap() } else { format!("/p read {}", expect_read(style, len)) };
            expect_text(&mut c, &want);
            expect_text(&mut c, "GET /next");
            t.join().unwrap();
            drop(c);
            if rec.get() != ["POST /p", "GET /next"] { mc::fail(format!("{}: handled {:?}", style, rec.get())); }
            finish(s);
            mc::outcome(format!("{} {}", style, len));
        }),
    ]
}

// ------------------------------------------------------------------ C03
const CONN: [&str; 16] = ["", "close", "keep-alive", "Close", "CLOSE", "Keep-Alive", "KEEP-ALIVE", "close, x", "x, close", "keep-alive, x", "x ,\tKeep-Alive", "keep-alive, close", "closed", "keep", "upgrade", ","];
fn persists(ver: &str, conn: &str) -> bool {
    let has = |o: &str| conn.split(',').any(|x| x.trim().eq_ignore_ascii_case(o));
    !has("close") && (ver == "HTTP/1.1" || (ver == "HTTP/1.0" && has("keep-alive")))
}
/// The last request of a connection: a client that sends all of it and then reads gets its answer, whatever the handler
/// does with the body.
fn last_request(th: bool) -> Scen {
    Scen::sched("the last request, whatever becomes of its body", if th { 1 } else { 0 }, Config { preempt: false, max_steps: 4_000_000, switch_cost: 1, sock_cap: 1 << 16, ..Config::default() }, || {
        let rec = Rec::default();
        let (ver, conn) = [("HTTP/1.1", "close"), ("HTTP/1.1", "x, Close"), ("HTTP/1.0", ""), ("HTTP/1.1", "")][mc::choose(4, "version and option")];
        let style = STYLES[mc::choose(STYLES.len(), "style")];
        let len = [1, 19, 8191, 8192, 8193, 60_000, 200_000, 1_500_000][mc::choose(8, "length")];
        let apart = mc::choose(2, "the body comes later") == 1;
        if style == "returns it" && len > 60_000 { return; }
        let r2 = rec.clone();
        let s = start(routes(vec![("/", HttpMethod::POST, h(move |r| consume(r, style, &r2)))]));
        let mut c = Client::connect();
        let mut head = format!("POST /p {}\r\nContent-Length: {}\r\n", ver, len);
        if !conn.is_empty() { head += &format!("Connection: {}\r\n", conn); }
        head += "\r\n";
        let mut b = head.into_bytes();
        if apart { must_send(&mut c, &b); mc::quiesce(); b.clear(); }
        b.extend(pat(len));
        let name = format!("{:?} {:?}, {}, {} bytes{}", ver, conn, style, len, if apart { " later" } else { "" });
        if let Err(e) = c.send(&b) { mc::fail(format!("{}: the request cannot be sent ({:?})", name, e)); }
        let want = if style == "returns it" { String::from_utf8(pat(len)).unwrap() } else { format!("/p read {}", expect_read(style, len)) };
        match c.resp() { Ok(r) if r.status == 200 && r.text() == want => {} x => mc::fail(format!("{}: answered {:?}", name, x)) }
        c.timeout(5_000);
        let r = c.resp();
        match (&r, persists(ver, conn)) { (Err(RErr::Io(io::ErrorKind::WouldBlock)), true) | (Err(RErr::Eof), false) => {} _ => mc::fail(format!("{}: after the answer {:?}", name, r)) }
        if rec.get() != ["POST /p"] { mc::fail(format!("{}: handled {:?}", name, rec.get())); }
        drop(c);
        finish(s);
        mc::outcome(name);
    })
}
fn c03(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let names = ["Connection", "connection", "CONNECTION"];
    let run = move |depth: usize, two_fields: bool, kinds: usize| move || {
        let (s, rec) = start_log();
        let mut c = Client::connect();
        let t0 = mc::now_ms();
        let mut trace = vec![];
        let mut open = true;
        for k in 0..depth {
            let ver = ["HTTP/1.1", "HTTP/1.0"][mc::choose(2, "version")];
            let conn = CONN[mc::choose(if depth > 1 && !two_fields { 5.max(CONN.len() * (depth == 2) as usize) } else { CONN.len() }, "connection")];
            let name = names[mc::choose(if depth == 1 { 3 } else { 1 }, "name")];
            let second = if two_fields { CONN[mc::choose(4, "second")] } else { "" };
            let kind = mc::choose(kinds, "kind");
            let mut r = match kind { 0 => format!("GET /{} {}\r\n", k, ver), 1 => format!("POST /{} {}\r\nContent-Length: 3\r\n", k, ver), _ => format!("GET /missing {}\r\n", ver) };
            if kind == 2 { r = format!("TRACE no-path {}\r\n", ver); }
            if !conn.is_empty() { r += &format!("{}: {}\r\n", name, conn); }
            if !second.is_empty() { r += &format!("{}: {}\r\n", name, second); }
            r += "\r\n";
            if kind == 1 { r += "abc"; }
            must_send(&mut c, r.as_bytes());
            match c.resp() { Ok(x) if kind == 2 && x.status >= 400 => {} Ok(x) if kind < 2 && x.status == 200 => {} x => mc::fail(format!("request {:?} on an open connection -> {:?}", r, x)) }
            open = persists(ver, &format!("{},{}", conn, second));
            trace.push(format!("{} {} {} {}", ver, conn, second, kind));
            if !open {
                c.timeout(60_000);
                let (b, e) = c.drain();
                if !b.is_empty() { mc::fail(format!("bytes after the last response: {}", esc(&b))); }
                if e.is_some() { mc::fail(format!("{:?}: the connection is not closed after the response ({:?})", trace, e)); }
                if mc::now_ms() > t0 + 1000 { mc::fail(format!("{:?}: the connection is closed only after {} ms", trace, mc::now_ms() - t0)); }
                break;
            }
        }
        if open {
            // still open now, and after being idle for a while
            c.timeout(10_000);
            let mut b = [0u8; 1];
            match std::io::Read::read(&mut c.s, &mut b) { Err(e) if matches!(e.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut) => {} x => mc::fail(format!("{:?}: the connection does not stay open: {:?}", trace, x)) }
            c.timeout(60_000);
            must_send(&mut c, &get("/again"));
            expect_text(&mut c, "GET /again");
        }
        mc::outcome(format!("open {}", open));
        let _ = &rec;
        drop(c);
        finish(s);
    };
    // lists of options of every length, in one field or spread over several
    let lists = |n: u32| {
        const OPT: [&str; 5] = ["x", "", "keep-alive", "close", "Close"];
        let k = if n > 3 { 4 } else { 5u64 };
        Scen::cases(format!("lists of {} options", n), k.pow(n) * 2u64.pow(n - 1) * 2, 64, move |i| {
            let mut d = Dig(i);
            let ver = *d.of(&["HTTP/1.1", "HTTP/1.0"]);
            let opts: Vec<&str> = (0..n).map(|_| OPT[d.n(k) as usize]).collect();
            let mut req = format!("GET /a {}\r\nConnection: {}", ver, opts[0]);
            for o in &opts[1..] { req += if d.n(2) == 0 { ", " } else { "\r\nConnection: " }; req += o; }
            req += "\r\n\r\n";
            let want = persists(ver, &opts.join(","));
            let (s, _rec) = start_log();
            let mut c = Client::connect();
            must_send(&mut c, req.as_bytes());
            match c.resp() { Ok(r) if r.status == 200 && r.text() == "GET /a" => {} x => return Err(format!("{:?} -> {:?}", req, x)) }
            c.timeout(5_000);
            let r = c.resp();
            match (&r, want) { (Err(RErr::Io(io::ErrorKind::WouldBlock)), true) | (Err(RErr::Eof), false) => {} _ => return Err(format!("{:?}: the connection {} stay open, but the client gets {:?}", req, if want { "must" } else { "must not" }, r)) }
            if want { must_send(&mut c, &get("/b")); match c.resp() { Ok(r) if r.text() == "GET /b" => {} x => return Err(format!("{:?}, then another request: {:?}", req, x)) } }
            drop(c);
            finish(s);
            Ok(format!("stays open: {}", want))
        })
    };
    let mut v: Vec<Scen> = (1..=if th { 6 } else { 5 }).map(lists).collect();
    v.push(last_request(th));
    // what a handler does to the request it is given has no part in it
    v.push(Scen::cases("whatever the handler does to the request", 2 * CONN.len() as u64 * 9, 16, move |i| {
        let mut d = Dig(i);
        let ver = ["HTTP/1.1", "HTTP/1.0"][d.n(2) as usize];
        let conn = *d.of(&CONN);
        let how = d.0 as usize;
        let want = persists(ver, conn);
        let rec = Rec::default();
        let r2 = rec.clone();
        let set = |r: &mut Request, k: &str, v: Option<&str>| {
            let mut x = Headers::new();
            for (n, vs) in r.headers.iter() { if !n.eq_ignore_ascii_case(k) { for w in vs { x.add(Header { name: n.clone(), value: w.clone() }); } } }
            if let Some(v) = v { x.add(Header { name: k.into(), value: v.into() }); }
            r.headers = x;
        };
        let tamper = h(move |r| {
            match how {
                0 => { r.headers = Headers::new(); }
                1 => { r.version = "HTTP/1.0".into(); }
                2 => { r.version = "HTTP/1.1".into(); }
                3 => set(r, "Connection", Some("close")),
                4 => set(r, "Connection", Some("keep-alive")),
                5 => set(r, "Connection", None),
                6 => { r.uri = "/else?where".into(); r.method = HttpMethod::DELETE; set(r, "Content-Length", Some("7")); }
                7 => { set(r, "Transfer-Encoding", Some("chunked")); }
                _ => { let n = Request { version: "HTTP/1.0".into(), method: HttpMethod::GET, uri: "/n".into(), headers: Headers::new(), body: None }; let _ = std::mem::replace(r, n); }
            }
            reply("tampered")
        });
        let s = start(routes(vec![("/a", HttpMethod::POST, tamper), ("/b", HttpMethod::GET, echo(&r2))]));
        let mut c = Client::connect();
        let req = format!("POST /a {}\r\n{}Content-Length: 3\r\n\r\nabc", ver, if conn.is_empty() { String::new() } else { format!("Connection: {}\r\n", conn) });
        must_send(&mut c, req.as_bytes());
        match c.resp() { Ok(r) if r.text() == "tampered" => {} x => return Err(format!("{:?}, tampering {}: {:?}", req, how, x)) }
        c.timeout(5_000);
        let r = c.resp();
        match (&r, want) { (Err(RErr::Io(io::ErrorKind::WouldBlock)), true) | (Err(RErr::Eof), false) => {} _ => return Err(format!("{:?}, tampering {}: the connection {} stay open, but the client gets {:?}", req, how, if want { "must" } else { "must not" }, r)) }
        if want { must_send(&mut c, &get("/b")); match c.resp() { Ok(r) if r.text() == "GET /b" => {} x => return Err(format!("{:?}, tampering {}, then another request: {:?}", req, how, x)) } }
        drop(c);
        finish(s);
        if rec.get().len() != want as usize { return Err(format!("{:?}, tampering {}: handled {:?}", req, how, rec.get())); }
        Ok(format!("stays open: {}", want))
    }));
    // whatever the method, the bodies and the status: 200 and above (those below announce another response)
    let statuses: Vec<usize> = if th { (200..1000).collect() } else { (200..209).chain([226]).chain(300..309).chain(400..432).chain([451]).chain(500..512).chain([599, 600, 999]).collect() };
    let ns = statuses.len() as u64;
    v.push(Scen::cases("whatever is asked and answered", ns * 9 * 2 * 2 * 4, 64, move |i| {
        let mut d = Dig(i);
        let st = *d.of(&statuses);
        let method = METHODS[d.n(9) as usize];
        let (qb, rb) = (*d.of(&["", "abc"]), *d.of(&["", "some text"]));
        let (ver, conn) = *d.of(&[("HTTP/1.1", ""), ("HTTP/1.1", "close"), ("HTTP/1.0", ""), ("HTTP/1.0", "keep-alive")]);
        let rb = if matches!(st, 204 | 205 | 304) || method == "HEAD" { "" } else { rb };
        let want = persists(ver, conn);
        let rec = Rec::default();
        let r2 = rec.clone();
        let answer = h(move |r| { let d = describe_req(r); r2.push(d); let mut x = reply(rb); x.status = StatusCode::from(st); if rb.is_empty() { x.body = None; } x });
        let rec2 = rec.clone();
        let answer = Arc::new(answer);
        let s = start(routes(METHODS.iter().map(|m| { let a = answer.clone(); ("/a", HttpMethod::from_str(m).unwrap(), h(move |r| a(r))) }).chain([("/b", HttpMethod::GET, echo(&rec2))]).collect()));
        let mut req = format!("{} /a {}\r\n", method, ver);
        if !conn.is_empty() { req += &format!("Connection: {}\r\n", conn); }
        if !qb.is_empty() { req += &format!("Content-Length: {}\r\n", qb.len()); }
        req += "\r\n";
        req += qb;
        let mut c = Client::connect();
        must_send(&mut c, req.as_bytes());
        match c.resp() { Ok(r) if r.status as usize == st && r.text() == rb => {} x => return Err(format!("{:?}, answered {} {:?} -> {:?}", req, st, rb, x)) }
        c.timeout(5_000);
        let r = c.resp();
        match (&r, want) { (Err(RErr::Io(io::ErrorKind::WouldBlock)), true) | (Err(RErr::Eof), false) => {} _ => return Err(format!("{:?}, answered {} {:?}: the connection {} stay open, but the client gets {:?}", req, st, rb, if want { "must" } else { "must not" }, r)) }
        if want { must_send(&mut c, &get("/b")); match c.resp() { Ok(r) if r.text() == "GET /b" => {} x => return Err(format!("{:?}, answered {}, then another request: {:?}", req, st, x)) } }
        drop(c);
        finish(s);
        Ok(format!("stays open: {}", want))
    }));
    v.extend([
        Scen::sched("one request", if th { 2 } else { 1 }, Config::default(), run(1, false, 3)),
        Scen::sched("two Connection fields", 0, Config::default(), run(1, true, 1)),
        Scen::sched("two requests", if th { 1 } else { 0 }, Config::default(), run(2, false, if th { 2 } else { 1 })),
        Scen::sched("three requests", 0, Config::default(), run(3, false, 1)),
    ]);
    v
}

// ------------------------------------------------------------------ C04
/// What the server must do with the bytes `b`: requests to handle, and how it ends.
#[derive(Debug, PartialEq)]
enum End { Close, Bad(&'static str), Starve, Short, Any }
fn simulate(b: &[u8]) -> (Vec<RefReq>, End) {
    let mut at = 0;
    let mut v = vec![];
    loop {
        if at >= b.len() { return (v, End::Starve); }
        match ref_request(&b[at..]) {
            Verdict::Ok(r) => {
                at += r.consumed;
                let conn: Vec<String> = r.headers.iter().filter(|h| h.0 == "connection").map(|h| h.1.clone()).collect();
                let p = persists(&r.version, &conn.join(","));
                let odd = r.version != "HTTP/1.1" && r.version != "HTTP/1.0";
                v.push(r);
                if odd { return (v, End::Any); }
                if !p { return (v, End::Close); }
            }
            Verdict::Reject(w) => return (v, End::Bad(w)),
            Verdict::Incomplete => return (v, End::Starve),
            Verdict::ShortBody(..) => return (v, End::Short),
            Verdict::Either(_) => return (v, End::Any),
        }
    }
}
const RT: u64 = 2000;
fn c04_case(b: &[u8], half_close: bool, cut: Option<usize>) -> Result<String, String> {
    let (want, end) = simulate(b);
    let at: usize = want.iter().map(|r| r.consumed).sum();
    let rec = Rec::default();
    let s = start_t(echo_routes(&rec), RT, RT);
    let fail = |m: String| -> Result<String, String> { Err(format!("{}: input \"{}\", reference {} requests then {:?}", m, esc(b), want.len(), end)) };
    let t0 = mc::now_ms();
    let mut c = Client::connect();
    let (first, second) = b.split_at(cut.unwrap_or(b.len()));
    if !first.is_empty() { let _ = c.send(first); }
    if !second.is_empty() { mc::sleep_ms(20); let _ = c.send(second); }
    if half_close { c.fin(); }
    c.timeout(RT * 4);
    let mut got: Vec<Resp> = vec![];
    let last = loop { match c.resp() { Ok(r) => got.push(r), Err(e) => break e } };
    let dt = mc::now_ms() - t0;
    // the server ends the conversation by itself, at the latest when the read timeout is over
    if matches!(last, RErr::Io(io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut)) { return fail(format!("still open after {} ms, responses {:?}", dt, got.iter().map(|r| r.status).collect::<Vec<_>>())); }
    if dt > RT + 50 { return fail(format!("closed only after {} ms", dt)); }
    // it may wait for more only while the bytes at hand are not a whole request
    let rest = &b[at..];
    let lf = rest.iter().position(|c| *c == b'\n').unwrap_or(rest.len());
    let whole = rest[..lf].iter().filter(|c| **c == b' ').count() >= 2 && lf >= 1 && rest[lf - 1..].windows(4).any(|w| w == b"\r\n\r\n");
    if (end == End::Close || (whole && matches!(end, End::Bad(_)))) && dt > 50 { return fail(format!("closed only after {} ms", dt)); }
    if let RErr::Bad(m) = &last { return fail(format!("malformed response: {}", m)); }
    if let RErr::Cut(m) = &last { return fail(format!("cut response: {}", esc(m))); }
    // handled requests
    let log = rec.get();
    let mut exp: Vec<String> = vec![];
    for r in &want {
        // the router decides; a target that is not a path, or climbs above the root, is not handled
        let path = r.target.split('?').next().unwrap();
        if let Some(n) = super::paths::ref_normalize(path) {
            let q = &r.target[path.len()..];
            exp.push(format!("{} {}{}{}", r.method, n, q, if r.body.is_empty() { String::new() } else { format!(" {}", esc(&r.body)) }));
        }
    }
    let whole = &log[..exp.len().min(log.len())];
    if whole != &exp[..] { return fail(format!("handled {:?}, expected {:?}", log, exp)); }
    let extra = &log[exp.len()..];
    match end {
        End::Any => {}
        End::Short => { if extra.len() > 1 || extra.iter().any(|x| !x.contains('!')) { return fail(format!("handled {:?}", extra)); } }
        _ => if !extra.is_empty() { return fail(format!("a handler ran for a request that is not well formed: {:?}", extra)); },
    }
    // responses
    let n = want.len();
    if got.len() < n { return fail(format!("{} responses", got.len())); }
    match end {
        End::Bad(_) => { if got.len() > n + 1 || (got.len() == n + 1 && got[n].status != 400) { return fail(format!("answered with {:?}", got[n..].iter().map(|r| r.status).collect::<Vec<_>>())); } }
        End::Close => if got.len() != n { return fail(format!("{} responses", got.len())); },
        // the unfinished request may get an error response but no success
        End::Starve | End::Short => if got.len() > n + 1 || got[n..].iter().any(|r| r.status < 400) { return fail(format!("answered with {:?}", got[n..].iter().map(|r| (r.status, r.text())).collect::<Vec<_>>())); },
        End::Any => {}
    }
    drop(c);
    let p = mc::panics();
    if !p.is_empty() { return fail(format!("panic: {}", p[0])); }
    let t1 = mc::now_ms();
    served("/alive");
    if mc::now_ms() > t1 + 50 { return fail("a new connection is served late".into()); }
    finish(s);
    Ok(match end { End::Close => "-well formed".into(), End::Any => "-open".into(), End::Bad(w) => format!("malformed: {}", w), End::Starve => if b.is_empty() { "-empty".into() } else { "incomplete".into() }, End::Short => "short body".into() })
}
/// Bodies in a coding the server does not know: nothing of them, and nothing behind them, is a request.
fn codings(all: bool) -> Scen {
    let mut v = transfer_codings("POST /a HTTP/1.1\r\n", "GET /b HTTP/1.1\r\n\r\n");
    v.extend(transfer_codings("GET /one HTTP/1.1\r\n\r\nGET /a HTTP/1.1\r\n", "POST /b HTTP/1.1\r\nContent-Length: 1\r\n\r\nx"));
    let v = Arc::new(dedup(v).into_iter().enumerate().filter(|(k, _)| all || k % 3 == 0).map(|x| x.1).collect::<Vec<_>>());
    Scen::cases("transfer codings", v.len() as u64, 40, move |i| c04_case(&v[i as usize], false, None))
}
fn c04(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let set = |name: &str, v: Vec<Vec<u8>>, half: bool| {
        let v = Arc::new(dedup(v));
        Scen::cases(name, v.len() as u64, 40, move |i| c04_case(&v[i as usize], half, None))
    };
    let mut one = vec![];
    for (k, b) in base_requests().into_iter().enumerate() { if th || k < 4 { one.extend(corrupt(&b, ADVERSARIAL)); } }
    let mut two = vec![];
    for c in dedup(corrupt(b"GET / HTTP/1.1\r\nA:b\r\n\r\n", if th { ADV_SMALL } else { b"\r\n :\0" })) { two.extend(corrupt(&c, if th { b"\r\n :\0" } else { b"\n" })); }
    let alpha = b"G \r\n:/\0\xff";
    let k = if th { 5u32 } else { 4 };
    let mut small = vec![];
    for l in 0..=k { for i in 0..8u64.pow(l) { let mut d = Dig(i); small.push((0..l).map(|_| *d.of(alpha)).collect::<Vec<u8>>()); } }
    // pairs: a good request, then a broken one
    let mut pairs = vec![];
    for c in corrupt(b"PUT /x HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", ADV_SMALL) { let mut x = post("/ok", "hello"); x.extend(c); pairs.push(x); }
    let special: Vec<Vec<u8>> = vec![
        vec![0x16, 3, 1, 0, 200, 1, 0, 0, 196], // a TLS hello
        vec![b'A'; 100_000], vec![b'\n'; 20_000], b"\r\n".repeat(10_000), b"GET / HTTP/1.1\r\n".iter().copied().chain(b"A: b\r\n".repeat(5000)).collect(),
        b"GET / HTTP/1.1\r\nA: ".iter().copied().chain(vec![b'x'; 300_000]).collect(),
        b"GET ".iter().copied().chain(vec![b'/'; 100_000]).collect(),
        b"POST / HTTP/1.1\r\nContent-Length: 18446744073709551615\r\n\r\nabc".to_vec(),
        b"POST / HTTP/1.1\r\nContent-Length: 9223372036854775807\r\n\r\nabc".to_vec(),
        b"POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\nabc".to_vec(),
        b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n".to_vec(),
        b"POST / HTTP/1.1\r\nContent-Length: 3\r\nContent-Type: \xff/\r\n\r\nabc".to_vec(),
        b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".to_vec(),
        "GET /ü HTTP/1.1\r\n\r\n".as_bytes().to_vec(),
    ];
    let mut v = vec![set("special inputs", special.clone(), false), set("special inputs, half closed", special, true),
        set("one corruption", one.clone(), false), set("all short byte strings", small, false), set("a corrupted second request", pairs, false)];
    let mut long = vec![];
    for n in lengths(if th { 400 } else { 140 }, if th { 15 } else { 12 }) { for at in LONG_REQ { for tail in TAILS { long.push(mixed(at, n, tail)); } } }
    v.push(set("long tokens with other characters", long, false));
    v.push(set("two corruptions", two, false));
    // in two pieces: cut at the places where the parsing of one part ends, or everywhere
    let cuts = Arc::new(dedup(one.clone()).into_iter().flat_map(|b| {
        let at: Vec<usize> = (1..b.len()).filter(|i| th || b" \r\n:".contains(&b[i - 1]) && b.len() < 40).collect();
        at.into_iter().map(move |i| (b.clone(), i))
    }).collect::<Vec<_>>());
    v.push(codings(true));
    v.push(Scen::cases("one corruption, in two pieces", cuts.len() as u64, 40, move |i| { let (b, k) = &cuts[i as usize]; c04_case(b, false, Some(*k)) }));
    v.push(set("one corruption, half closed", one, true));
    v
}

// ------------------------------------------------------------------ C07
struct Src { data: Vec<u8>, at: usize, fail: Option<usize>, step: usize }
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if let Some(f) = self.fail { if self.at >= f { return Err(io::Error::new(io::ErrorKind::Other, "source failed")); } }
        let mut n = (self.data.len() - self.at).min(self.step).min(b.len());
        if let Some(f) = self.fail { n = n.min(f - self.at); }
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn c07(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let lens: &'static [usize] = if th { &[0, 1, 2, 3, 5, 8, 100, 8192, 70_000, (1 << 21) + 5] } else { &[0, 1, 3, 5, 100, 70_000] };
    // source: delta in bytes relative to the declared length, or a failure point
    const SRCS: [&str; 8] = ["exact", "one short", "empty", "half", "one long", "much longer", "fails at the end", "fails in the middle"];
    const CTORS: u64 = 4;
    const HDR: [&[(&str, &str)]; 8] = [&[], &[("Content-Length", "7")], &[("content-length", "7")], &[("CONTENT-LENGTH", "x"), ("Content-length", "0")], &[("Content-Type", "text/html"), ("X-A", "1"), ("X-A", "2")], &[("Connection", "close")], &[("Content-Length", "3"), ("Content-Length", "4")], &[("Date", "now"), ("Etag", "\"a:b\"")]];
    let total = CTORS * HDR.len() as u64 * lens.len() as u64 * SRCS.len() as u64 * 4;
    let go = move |ctor: u64, hd: &'static [(&'static str, &'static str)], len: usize, src: &'static str, mode: u64| -> Result<String, String> {
        let status = [200usize, 404, 299, 200][mode as usize];
        if ctor == 0 && (src != "exact" || len != 0) { return Ok("-no body".into()); }
        if ctor == 2 && src != "exact" { return Ok("-in-memory body".into()); }
        let (have, fail) = match src { "exact" => (len, None), "one short" => (len.saturating_sub(1), None), "empty" => (0, None), "half" => (len / 2, None), "one long" => (len + 1, None), "much longer" => (len + 100_000, None), "fails at the end" => (len, Some(len)), _ => (len, Some(len / 2)) };
        // a source that fails only beyond the declared length is exact
        let short = have < len || fail.is_some_and(|f| f < len);
        let rec = Rec::default();
        let r2 = rec.clone();
        let handler = move |r: &mut Request| {
            r2.push(r.uri.clone());
            let data: Vec<u8> = (0..have).map(|i| b'a' + (i % 26) as u8).collect();
            let mk = || Src { data: data.clone(), at: 0, fail, step: if len > 1000 { 5000 } else { 2 } };
            let mut x = match ctor {
                0 => Response::from_status(StatusCode::from(status)),
                1 => Response::from_content(mk(), len as u64, text()),
                2 => Response::from_str(&String::from_utf8(data.clone()).unwrap()).unwrap(),
                _ => Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(Some(text()), len as u64, Box::new(mk()))) },
            };
            x.status = StatusCode::from(status);
            for (n, v) in hd { x.headers.add(Header { name: n.to_string(), value: v.to_string() }); }
            x
        };
        let s = start(routes(vec![("/", HttpMethod::GET, h(handler)), ("/ok", HttpMethod::POST, echo(&rec))]));
        let mut c = Client::connect();
        let mut b = get("/r");
        b.extend(post("/ok", "next"));
        must_send(&mut c, &b);
        let what = format!("constructor {} headers {:?} declared {} source {} status {}", ctor, hd, len, src, status);
        let fin = |c: Client, s: Server| { drop(c); finish(s); };
        c.timeout(100_000);
        match c.resp() {
            Ok(r) => {
                if short { return Err(format!("{}: a complete response of {} bytes although the body is short", what, r.body.len())); }
                if r.status as usize != status { return Err(format!("{}: status {}", what, r.status)); }
                let want: Vec<u8> = (0..len).map(|i| b'a' + (i % 26) as u8).collect();
                if r.body != want { return Err(format!("{}: body of {} bytes, expected {}", what, r.body.len(), len)); }
                for (n, _) in hd {
                    if n.eq_ignore_ascii_case("content-length") || n.eq_ignore_ascii_case("content-type") { continue; }
                    let w: Vec<&str> = hd.iter().filter(|x| x.0 == *n).map(|x| x.1).collect();
                    if r.header(n) != w { return Err(format!("{}: header {} is {:?}", what, n, r.header(n))); }
                }
                // the connection is in sync
                match c.resp() { Ok(r) if r.text() == "POST /ok next" => {} Err(RErr::Eof) if hd.iter().any(|h| h.0 == "Connection") => {} x => return Err(format!("{}: the next response is {:?}", what, x)) }
                if rec.len() > 2 { return Err(format!("{} calls", rec.len())); }
                fin(c, s);
                Ok(if len == 0 { "complete, empty".into() } else { "complete".into() })
            }
            Err(RErr::Cut(x)) => {
                if !short { return Err(format!("{}: the response is cut: {}", what, esc(&x))); }
                // closed: nothing but a part of the declared body
                let at = x.windows(4).position(|w| w == b"\r\n\r\n").ok_or(format!("{}: cut in the head", what))? + 4;
                if x.len() - at >= len { return Err(format!("{}: {} body bytes", what, x.len() - at)); }
                let want: Vec<u8> = (0..have).map(|i| b'a' + (i % 26) as u8).collect();
                if !want.starts_with(&x[at..]) { return Err(format!("{}: wrong bytes in the partial body: {}", what, esc(&x[at..]))); }
                if rec.len() != 1 { return Err(format!("{}: the next request is handled although the response failed", what)); }
                fin(c, s);
                Ok(format!("cut: {}", src))
            }
            Err(RErr::Eof) if short => { fin(c, s); Ok("closed".into()) }
            Err(e) => Err(format!("{}: {:?}", what, e)),
        }
    };
    let run = move |i: u64| { let mut d = Dig(i); let (c, h, l, s, m) = (d.n(CTORS), *d.of(&HDR), *d.of(lens), *d.of(&SRCS), d.n(4)); go(c, h, l, s, m) };
    let mut v = vec![Scen::cases("handler responses", total, 20, run)];
    // large bodies are written in another way
    const BIG: [usize; 3] = [1 << 21, (1 << 21) + 5, 3 << 20];
    v.push(Scen::cases("handler responses with large bodies", 3 * 8 * 2, 1, move |i| { let mut d = Dig(i); let (l, s, c) = (*d.of(&BIG), *d.of(&SRCS), *d.of(&[1u64, 3])); go(c, HDR[0], l, s, 0) }));
    // statuses without bodies, built-in error responses
    v.push(Scen::cases("every status", 900 * 2, 50, |i| {
        let code = 100 + (i / 2) as usize;
        let with_body = i % 2 == 1;
        if (code < 200 || code == 204 || code == 304) && with_body { return Ok("-no body allowed".into()); }
        let rec = Rec::default();
        let s = start(routes(vec![("/", HttpMethod::GET, h(move |_| { let mut r = if with_body { reply("hello") } else { Response::from_status(StatusCode::from(code)) }; r.status = StatusCode::from(code); r })), ("/ok", HttpMethod::GET, echo(&rec))]));
        let mut c = Client::connect();
        must_send(&mut c, &get("/x"));
        let r = c.resp().map_err(|e| format!("status {}: {:?}", code, e))?;
        if r.status as usize != code || r.text() != if with_body { "hello" } else { "" } { return Err(format!("status {}: got {} {:?}", code, r.status, r.text())); }
        must_send(&mut c, &get("/ok"));
        match c.resp() { Ok(r) if r.text() == "GET /ok" => {} x => return Err(format!("after status {}: {:?}", code, x)) }
        drop(c);
        finish(s);
        Ok("status".into())
    }));
    // every way in which a source can fail, everywhere, in bodies of every size
    use io::ErrorKind::*;
    const KINDS: [io::ErrorKind; 17] = [NotFound, PermissionDenied, ConnectionReset, ConnectionAborted, NotConnected, BrokenPipe, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Unsupported, UnexpectedEof, OutOfMemory, Interrupted, StorageFull, Other];
    struct Fails { at: usize, fail: usize, kind: io::ErrorKind, times: usize, total: usize, step: usize }
    impl Read for Fails {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if self.at == self.fail && self.times > 0 { self.times -= 1; return Err(io::Error::from(self.kind)); }
            let end = if self.at < self.fail { self.fail.min(self.total) } else { self.total };
            let n = (end - self.at).min(b.len()).min(self.step);
            b[..n].fill(b'a');
            self.at += n;
            Ok(n)
        }
    }
    const SZ: [usize; 12] = [1, 2, 5, 100, 8191, 8192, 8193, 65_536, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1];
    const STEP: [usize; 3] = [usize::MAX, 5000, 7];
    v.push(Scen::cases("every failure of a source", 17 * 12 * 7 * 3 * 2, 10, move |i| {
        let mut d = Dig(i);
        let kind = *d.of(&KINDS);
        let len = *d.of(&SZ);
        let fail = [0, 1, len / 2, len - 1, len.saturating_sub(8192), 8192, 1 << 20][d.n(7) as usize].min(len - 1);
        let step = *d.of(&STEP);
        let ctor = d.n(2);
        if step == 7 && len > 8193 { return Ok("-too many pieces".into()); }
        // an interruption is no failure; anything else that struck once could as well have lasted
        let whole = kind == Interrupted;
        let rec = Rec::default();
        let r2 = rec.clone();
        let s = start(routes(vec![("/", HttpMethod::GET, h(move |r| {
            r2.push(r.uri.clone());
            let src = Fails { at: 0, fail, kind, times: 1, total: len, step };
            if ctor == 0 { Response::from_content(src, len as u64, text()) } else { Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(Some(text()), len as u64, Box::new(src))) } }
        })), ("/ok", HttpMethod::POST, echo(&rec))]));
        let what = format!("{:?} after {} of {} bytes, {} at once, constructor {}", kind, fail, len, step, ctor);
        let mut c = Client::connect();
        let mut b = get("/r");
        b.extend(post("/ok", "next"));
        must_send(&mut c, &b);
        c.timeout(100_000);
        match c.resp() {
            Ok(r) if whole && r.status == 200 && r.body.len() == len && r.body.iter().all(|x| *x == b'a') => { match c.resp() { Ok(r) if r.text() == "POST /ok next" => {} x => return Err(format!("{}: the next response is {:?}", what, x)) } }
            Err(RErr::Eof) if !whole => {}
            Err(RErr::Cut(x)) if !whole => {
                let at = x.windows(4).position(|w| w == b"\r\n\r\n").map_or(x.len(), |p| p + 4);
                if x.len() - at >= len { return Err(format!("{}: {} body bytes", what, x.len() - at)); }
                if x[at..].iter().any(|x| *x != b'a') { return Err(format!("{}: wrong bytes in the partial body", what)); }
            }
            x => return Err(format!("{}: {:?}", what, x.map(|r| (r.status, r.body.len())))),
        }
        if rec.len() != 1 + whole as usize { return Err(format!("{}: handled {:?}", what, rec.get())); }
        drop(c);
        finish(s);
        Ok(format!("{:?}", kind))
    }));
    let n = if th { 2 } else { 1 };
    v.push(Scen::sched("schedules of a body that fails", n, Config { sock_cap: 64, ..Config::default() }, || {
        let k = mc::choose(3, "source");
        let rec = Rec::default();
        let r2 = rec.clone();
        let s = start(routes(vec![("/", HttpMethod::GET, h(move |r| {
            r2.push(r.uri.clone());
            let src = Src { data: vec![b'a'; 300], at: 0, fail: if k == 1 { Some(200) } else { None }, step: 64 };
            Response::from_content(src, if k == 2 { 301 } else { 300 }, text())
        }))]));
        let mut c = Client::connect();
        let mut b = get("/1");
        b.extend(get("/2"));
        must_send(&mut c, &b);
        if k == 0 {
            for _ in 0..2 { match c.resp() { Ok(r) if r.body.len() == 300 => {} x => mc::fail(format!("{:?}", x)) } }
        } else {
            match c.resp() { Err(RErr::Cut(_)) | Err(RErr::Eof) => {} x => mc::fail(format!("a short body gives {:?}", x.map(|r| r.body.len()))) }
            if rec.len() != 1 { mc::fail("the next request is handled although the response failed"); }
        }
        drop(c);
        finish(s);
        mc::outcome(format!("{}", k));
    }));
    v
}
