//! The HTTP client against scripted servers: C26.
use super::util::*;
use super::{Prop, P0};
use crate::engine::Scen;
use crate::net::ADDR;
use mcstd::net::{Shutdown, TcpListener, TcpStream};
use mcstd::{mc, rt::{Config, Fault}};
use std::collections::VecDeque;
use std::io::{Cursor, Read, Write};
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use wruster::http::client::{Client, ClientResponse};
use wruster::http::headers::Header;
use wruster::http::errors::HttpError;
use wruster::http::{Body, HttpMethod, Request};

const A: &[&str] = &["sequentially consistent interleavings of the façade's synchronization and socket operations", "the façade's sockets and locks behave like the real ones (checked by the conformance traces)", "bytes a server sends ahead of a request that the client has already begun cannot be told from its response", "bounds: deviations per execution as given per scenario"];
pub fn props() -> Vec<Prop> { vec![Prop { id: "C26", scen: c26, assumptions: A, ..P0 }] }
#[cfg(not(feature = "hooks"))]
pub fn scen_for(id: &str, tier: &str, group: &str) -> Vec<Scen> { match id { "C26" => c26(tier, group), _ => vec![] } }

const ADDR2: &str = "127.0.0.1:8083";

/// What the server does with a request.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Script {
    Plain, Pieces, Lower, Big, Empty, Old, OldKeep, /// fields that are not Connection say that it is kept
    OldOthers, /// both options
    Both, CloseList, SaysClose, CloseAfter, NoLength, Leftover, LateBytes, /// as many bytes too many, after a while
    LateSome(usize), LateFin, Slow, NoType, /// a body of that many bytes
    Sized(usize),
    // the exchange fails
    Cut, CutHead, Reset, NoAnswer, Garbage, Stalled, StalledBody, /// the body comes in chunks, which the client does not know; with a length too
    Chunked, ChunkedToo,
}
use Script::*;
impl Script {
    fn fails(self) -> bool { matches!(self, Cut | CutHead | Reset | NoAnswer | Garbage | Stalled | StalledBody | Chunked | ChunkedToo) }
    /// the head of the response is good, only the body is not
    fn fails_late(self) -> bool { matches!(self, Cut | Reset | StalledBody) }
    fn keeps(self) -> bool { matches!(self, Plain | Pieces | Lower | Big | Empty | OldKeep | Leftover | LateBytes | LateSome(_) | LateFin | CloseAfter | Slow | NoType | Sized(_)) }
}
const ALL: &[Script] = &[Plain, Pieces, Lower, Big, Empty, Old, OldKeep, OldOthers, Both, CloseList, SaysClose, CloseAfter, NoLength, Leftover, LateBytes, LateSome(1), LateSome(2), LateSome(17), LateFin, Slow, NoType, Cut, CutHead, Reset, NoAnswer, Garbage, Stalled, StalledBody, Chunked, ChunkedToo];
const FEW: &[Script] = &[Plain, SaysClose, CloseAfter, LateBytes, Cut, StalledBody];

const SIZED: &[Script] = &[Sized(1), Sized(2), Sized(255), Sized(256), Sized(1023), Sized(1025), Sized(4095), Sized(4096), Sized(4097), Sized(8100), Sized(8191), Sized(8192), Sized(8193), Sized(16_384), Sized(32_769), Sized(65_535), Sized(65_536), Sized(65_537), Sized(70_000), Sized(131_073), Sized(262_145), Sized(1_000_001), Sized(1_048_577), Sized(3_000_000)];

/// How the request is made.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Get, GetClose, Post, Old10, Old10Keep }
const KINDS: &[Kind] = &[Kind::Get, Kind::GetClose, Kind::Post, Kind::Old10, Kind::Old10Keep];
impl Kind {
    fn persistent(self) -> bool { matches!(self, Kind::Get | Kind::Post | Kind::Old10Keep) }
    fn make(self, i: usize) -> Request {
        let body = match self { Kind::Post => Some(Body::new(Some(text()), 5, Box::new(Cursor::new(b"hello".to_vec())))), _ => None };
        let mut r = match body {
            Some(b) => Request::from_body(b, HttpMethod::from_str("POST").unwrap(), &format!("/{}", i)),
            None => { let mut r = Request::from_body(Body::new(None, 0, Box::new(Cursor::new(vec![]))), HttpMethod::from_str("GET").unwrap(), &format!("/{}", i)); r.body = None; r }
        };
        let mut add = |n: &str, v: &str| r.headers.add(Header { name: n.into(), value: v.into() });
        match self { Kind::GetClose => add(if i == 1 { "connection" } else { "Connection" }, "close"), Kind::Old10Keep => add("Connection", "Keep-Alive"), _ => {} }
        if matches!(self, Kind::Old10 | Kind::Old10Keep) { r.version = "HTTP/1.0".into(); }
        r
    }
}
/// What the caller does with the response.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Use { Read, Part, Drop, Take, TakeRead, Hold, /// exactly the declared bytes, never the end
    Exact, Bytes, Ensure, PartEnsure, Write, TakeExact, /// all but the last byte
    AllButOne, TakeAllButOne }
const MORE: &[Use] = &[Use::Exact, Use::Bytes, Use::Ensure, Use::PartEnsure, Use::Write, Use::TakeExact, Use::AllButOne, Use::TakeAllButOne];
const USES: &[Use] = &[Use::Read, Use::Part, Use::Drop, Use::Take, Use::TakeRead, Use::Hold];

fn body_of(i: usize, s: Script) -> Vec<u8> {
    match s { Big => format!("<{}>", i).repeat(5000).into_bytes(), Empty => vec![], Sized(n) => (0..n).map(|k| STALE[(i + k) % STALE.len()]).collect(), _ => format!("body of call {} ", i).into_bytes() }
}

#[derive(Default)]
struct Log { /// (server, connection, call)
    seen: Vec<(usize, usize, usize)>, conns: usize, bad: Vec<String>, stop: bool, /// script of every call
    scripts: Vec<Script> }
type L = Arc<Mutex<Log>>;

/// One request without looking beyond it, by the rules of the grammar the client's messages use.
fn read_request(s: &mut TcpStream, b: &mut VecDeque<u8>) -> Result<Option<(usize, Vec<u8>)>, String> {
    let mut chunk = [0u8; 4096];
    loop {
        let v: Vec<u8> = b.iter().copied().collect();
        if let Some(h) = v.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&v[..h]).into_owned();
            let mut it = head.split("\r\n");
            let line: Vec<&str> = it.next().unwrap().split(' ').collect();
            if line.len() != 3 || !line[1].starts_with('/') { return Err(format!("not a request: {:?}", head)); }
            let mut n = 0;
            for l in it {
                let Some((k, x)) = l.split_once(':') else { return Err(format!("not a request: {:?}", head)) };
                if k.eq_ignore_ascii_case("content-length") { n = x.trim().parse().map_err(|_| "bad length".to_string())?; }
            }
            if v.len() >= h + 4 + n {
                let i = line[1][1..].parse().map_err(|_| format!("not a request: {:?}", head))?;
                b.drain(..h + 4 + n);
                return Ok(Some((i, v[h + 4..h + 4 + n].to_vec())));
            }
        }
        match s.read(&mut chunk) {
            Ok(0) => return if b.is_empty() { Ok(None) } else { Err(format!("the connection ends in a request: {}", esc(&v))) },
            Ok(n) => b.extend(&chunk[..n]),
            Err(_) => return Ok(None),
        }
    }
}
const STALE: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\nX-Id: 99\r\n\r\nSTALE";

/// Answers one request; returns whether the connection goes on.
fn answer(s: &mut TcpStream, i: usize, sc: Script) -> bool {
    let body = body_of(i, sc);
    let v = if matches!(sc, Old | OldKeep | OldOthers) { "1.0" } else { "1.1" };
    let cn = match sc { OldKeep => "Connection: Keep-Alive\r\n", OldOthers => "Keep-Alive: timeout=5, max=100\r\nProxy-Connection: keep-alive\r\nX-Connection: keep-alive\r\nConnection: x\r\n", Both => "Connection: keep-alive\r\nConnection: x, close\r\n", CloseList => "connection: foo, Close\r\n", SaysClose => "Connection: close\r\n", _ => "" };
    let cl = match sc { NoLength => String::new(), Chunked => "Transfer-Encoding: chunked\r\n".into(), ChunkedToo => format!("transfer-encoding: Chunked\r\nContent-Length: {}\r\n", body.len()), Lower => format!("content-length:{}\r\n", body.len()), _ => format!("Content-Length: {}\r\n", body.len()) };
    let ct = if sc == NoType { "" } else { "Content-Type: text/plain\r\n" };
    let mut m = format!("HTTP/{} 200 OK\r\nX-Id: {}\r\n{}{}{}\r\n", v, i, cl, cn, ct).into_bytes();
    let head = m.len();
    m.extend(&body);
    let late = |s: &mut TcpStream, b: &[u8], ms: u64| { mc::sleep_ms(ms); let _ = s.write_all(b); };
    let w = |s: &mut TcpStream, b: &[u8]| { let _ = s.write_all(b); };
    match sc {
        Plain | Lower | Big | Empty | OldKeep | NoType | Sized(_) => { w(s, &m); true }
        // closes as announced, or claims so and goes on
        Old | CloseList => { w(s, &m); false }
        SaysClose | OldOthers | Both => { w(s, &m); true }
        CloseAfter => { w(s, &m); false }
        NoLength => { w(s, &m); false }
        Pieces => { for p in [&m[..9], &m[9..head - 1], &m[head - 1..head + 3], &m[head + 3..]] { w(s, p); mc::sleep_ms(2); } true }
        Slow => { late(s, &m, 50_000); true }
        Leftover => { m.extend(STALE); w(s, &m); true }
        LateBytes => { w(s, &m); late(s, STALE, 10); true }
        LateSome(n) => { w(s, &m); late(s, &STALE[..n], 10); true }
        LateFin => { w(s, &m); mc::sleep_ms(10); false }
        Cut => { w(s, &m[..head + 4]); false }
        CutHead => { w(s, &m[..head - 5]); false }
        Reset => { w(s, &m[..head + 4]); let _ = s.set_read_timeout(None); mc::sleep_ms(1); let _ = s.try_clone().map(|x| x.mc_reset()); false }
        Chunked | ChunkedToo => { m.truncate(head); m.extend(b"5\r\nhello\r\n0\r\n\r\n"); m.extend(STALE); w(s, &m); true }
        NoAnswer => false,
        Garbage => { w(s, b"FTP garbage\r\n\r\n"); false }
        Stalled => { late(s, &m, 61_000); true }
        StalledBody => { w(s, &m[..head + 4]); late(s, &m[head + 4..], 61_000); true }
    }
}
fn serve(addr: &'static str, n: usize, log: L) -> mcstd::thread::JoinHandle<()> {
    let l = TcpListener::bind(addr).unwrap();
    mc::client(&format!("server{}", n), move || {
        let mut hs = vec![];
        loop {
            let (mut s, _) = l.accept().unwrap();
            if log.lock().unwrap().stop { break; }
            let c = { let mut g = log.lock().unwrap(); g.conns += 1; g.conns };
            let log = log.clone();
            hs.push(mc::client(&format!("connection{}", c), move || {
                let mut b = VecDeque::new();
                loop {
                    match read_request(&mut s, &mut b) {
                        Err(e) => { log.lock().unwrap().bad.push(e); break; }
                        Ok(None) => break,
                        Ok(Some((i, body))) => {
                            mc::log(format!("call {} arrives on connection {} {}", i, c, esc(&body)));
                            let sc = { let mut g = log.lock().unwrap(); g.seen.push((n, c, i)); g.scripts[i] };
                            if !body.is_empty() && body != b"hello" { log.lock().unwrap().bad.push(format!("call {} has the body {}", i, esc(&body))); }
                            if !answer(&mut s, i, sc) { break; }
                        }
                    }
                }
                let _ = s.shutdown(Shutdown::Both);
            }));
        }
        drop(l);
        for h in hs { h.join().unwrap(); }
    })
}
fn stop(addr: &str, log: &L, h: mcstd::thread::JoinHandle<()>) {
    log.lock().unwrap().stop = true;
    let s = TcpStream::connect(addr).unwrap();
    h.join().unwrap();
    drop(s);
    log.lock().unwrap().stop = false;
}
fn slurp(r: &mut dyn Read) -> (Vec<u8>, Option<std::io::Error>) {
    let mut v = vec![];
    let e = r.read_to_end(&mut v).err();
    (v, e)
}
/// The response (if any) belongs to the call; returns what is kept of it.
fn consume(i: usize, sc: Script, how: Use, r: Result<ClientResponse, HttpError>, excused: bool, held: bool, breaks: bool) -> Option<ClientResponse> {
    let want = body_of(i, sc);
    let mut r = match r {
        Ok(r) => r,
        Err(e) => {
            if !sc.fails() && !excused { mc::fail(format!("call {} ({:?}) fails: {}", i, sc, e)); }
            if sc == Stalled && !excused && e != HttpError::Timeout { mc::fail(format!("a call without an answer in time fails with {}", e)); }
            mc::tag("failed call");
            return None;
        }
    };
    if sc.fails() && !sc.fails_late() { mc::fail(format!("call {} ({:?}) succeeds", i, sc)); }
    let id: Vec<String> = r.headers.get("X-Id").cloned().unwrap_or_default();
    if id != [i.to_string()] || r.status.to_string() != "200 OK" && format!("{}", r.status) != "200" { mc::fail(format!("call {} gets the response {:?} {:?}", i, id, r.status)); }
    let check = |(got, e): (Vec<u8>, Option<std::io::Error>)| {
        match e {
            Some(_) if sc.fails_late() || breaks && mc::faults_used() > 0 => { if !want.starts_with(&got) { mc::fail(format!("call {} ({:?}) reads {}", i, sc, esc(&got))); } }
            Some(e) => mc::fail(format!("reading the response to call {} ({:?}): {}", i, sc, e)),
            // what is left unread until the rest has arrived is complete
            None if sc == StalledBody && held && got == want => {}
            None if sc.fails_late() => mc::fail(format!("call {} ({:?}) reads {} as a complete body", i, sc, esc(&got))),
            // a body without a length is not supported: all of it or none
            None if sc == NoLength && got.is_empty() => {}
            None if got != want => mc::fail(format!("call {} ({:?}) reads {}", i, sc, esc(&got))),
            None => {}
        }
    };
    mc::tag("answered call");
    match how {
        Use::Read => { match r.body.as_mut() { Some(b) => check(slurp(&mut b.content)), None => check((vec![], None)) } None }
        Use::Part => {
            if let Some(b) = r.body.as_mut() {
                let mut x = [0u8; 3];
                match b.content.read(&mut x) { Ok(n) if !want.starts_with(&x[..n]) => mc::fail(format!("call {} reads {}", i, esc(&x[..n]))), Err(e) => mc::fail(format!("call {}: {}", i, e)), _ => {} }
            }
            None
        }
        Use::Drop => None,
        Use::Take => { let b = r.body.take(); drop(r); drop(b); None }
        Use::TakeRead => { let b = r.body.take(); match b { Some(mut b) => { drop(r); check(slurp(&mut b.content)) } None => check((vec![], None)) } None }
        Use::Hold => Some(r),
        Use::Exact | Use::AllButOne | Use::TakeExact | Use::TakeAllButOne => {
            let n = want.len() - matches!(how, Use::AllButOne | Use::TakeAllButOne) as usize * 1.min(want.len());
            let mut exact = |b: &mut dyn Read| {
                let mut v = vec![0u8; n];
                let mut at = 0;
                let mut e = None;
                while at < n { match b.read(&mut v[at..]) { Ok(0) => break, Ok(k) => at += k, Err(x) if x.kind() == std::io::ErrorKind::Interrupted => {} Err(x) => { e = Some(x); break; } } }
                v.truncate(at);
                if e.is_none() && at == n { if v[..] != want[..n] { mc::fail(format!("call {} ({:?}) reads {}", i, sc, esc(&v))); } if sc.fails_late() && !(sc == StalledBody && held) && n > 4 { mc::fail(format!("call {} ({:?}) reads all of a body that was not sent", i, sc)); } } else { check((v, e)); }
            };
            if matches!(how, Use::Exact | Use::AllButOne) {
                match r.body.as_mut() { Some(b) => exact(b), None => check((vec![], None)) }
            } else {
                let b = r.body.take();
                drop(r);
                match b { Some(mut b) => exact(&mut b.content), None => check((vec![], None)) }
            }
            None
        }
        Use::Bytes => { match r.body.as_mut() { Some(b) => { let mut v = vec![]; let mut e = None; for x in (&mut b.content).bytes() { match x { Ok(x) => v.push(x), Err(x) => { e = Some(x); break; } } } check((v, e)) } None => check((vec![], None)) } None }
        Use::Write => { match r.body.as_mut() { Some(b) => { let mut v = vec![]; let e = b.write(&mut v).err(); check((v, e.map(|e| std::io::Error::other(format!("{}", e))))) } None => check((vec![], None)) } None }
        Use::Ensure | Use::PartEnsure => {
            if let Some(b) = r.body.as_mut() {
                if how == Use::PartEnsure { let _ = b.read(&mut [0u8; 3]); }
                match b.ensure_read() {
                    Ok(()) if sc.fails_late() && !(sc == StalledBody && held) => mc::fail(format!("call {} ({:?}): all of the body is said to have been read", i, sc)),
                    Err(e) if !sc.fails_late() && !(breaks && mc::faults_used() > 0) => mc::fail(format!("call {} ({:?}): {}", i, sc, e)),
                    _ => {}
                }
            }
            None
        }
    }
}
/// No connection carries a request after an exchange that does not allow it.
fn check_reuse(log: &L, kinds: &[Kind], uses: &[Use], sequential: bool) {
    let g = log.lock().unwrap();
    if let Some(b) = g.bad.first() { mc::fail(b.clone()); }
    for c in 1..=g.conns {
        let v: Vec<&(usize, usize, usize)> = g.seen.iter().filter(|x| x.1 == c).collect();
        for p in v.windows(2) {
            let (a, b) = (p[0].2, p[1].2);
            let sc = g.scripts[a];
            let mut why = vec![];
            if !kinds[a].persistent() { why.push("the request did not keep it open"); }
            if !kinds[b].persistent() && !matches!(kinds[b], Kind::GetClose | Kind::Old10) { why.push("?"); }
            if !sc.keeps() && !(sc == StalledBody && uses[a] == Use::Hold) { why.push(if sc.fails() { "the exchange failed" } else { "the response did not keep it open" }); }
            if uses[a] == Use::Take && sc != Empty { why.push("the response was not read"); }
            if sequential && uses[a] == Use::Hold && b == a + 1 { why.push("the response was still unread"); }
            if sequential && matches!(sc, LateBytes | LateSome(_)) { why.push("there were unread bytes"); }
            if !why.is_empty() { mc::fail(format!("call {} reuses the connection of call {} ({:?}): {}", b, a, sc, why[0])); }
            mc::tag("reused");
        }
    }
    for i in 0..kinds.len() { let n = g.seen.iter().filter(|x| x.2 == i).count(); if n > 1 { mc::fail(format!("call {} was sent {} times", i, n)); } }
}
fn ended() {
    if mc::open_fds() != 0 { mc::fail(format!("descriptors left open: {}", mc::describe_fds())); }
    if mc::live_threads() > if mcstd::thread::current().name() == Some("main") { 1 } else { 2 } { mc::fail(format!("threads left: {}", mc::describe())); }
}

/// `calls` calls one after the other, with everything the server does in between settled.
fn history(name: &str, calls: usize, bound: u32, cfg: Config, scripts: &'static [Script], kinds: &'static [Kind], uses: &'static [Use], servers: usize) -> Scen {
    let short = cfg.short_read || !cfg.faults.is_empty();
    let breaks = cfg.faults.iter().any(|f| !matches!(f, Fault::ReadIntr | Fault::WriteIntr));
    let run = move || {
        let log: L = Default::default();
        let sc: Vec<Script> = (0..calls).map(|i| if i + 1 == calls && calls > 1 { Plain } else { scripts[mc::choose(scripts.len(), "script")] }).collect();
        let ks: Vec<Kind> = (0..calls).map(|i| if i + 1 == calls && calls > 2 { Kind::Get } else { kinds[mc::choose(kinds.len(), "kind")] }).collect();
        let us: Vec<Use> = (0..calls).map(|i| if i + 1 == calls && calls > 1 { Use::Read } else { uses[mc::choose(uses.len(), "use")] }).collect();
        let to: Vec<usize> = (0..calls).map(|_| if servers > 1 { mc::choose(servers, "server") } else { 0 }).collect();
        log.lock().unwrap().scripts = sc.clone();
        let h1 = serve(ADDR, 0, log.clone());
        let h2 = if servers > 1 { Some(serve(ADDR2, 1, log.clone())) } else { None };
        let c = Client::new();
        let mut held = None;
        for i in 0..calls {
            let used = mc::faults_used();
            let r = c.run([ADDR, ADDR2][to[i]], ks[i].make(i));
            let keep = consume(i, sc[i], us[i], r, breaks && mc::faults_used() > used, false, breaks);
            // what was held is given up after the next call
            held = { if let Some(old) = held.take() { let (j, old): (usize, ClientResponse) = old; let how = if mc::choose(2, "read the held one") == 1 { Use::Read } else { Use::Drop }; consume(j, sc[j], how, Ok(old), false, true, breaks); } keep.map(|k| (i, k)) };
            mc::sleep_ms(if matches!(sc[i], Stalled | StalledBody) { 2000 } else { 20 });
        }
        if mc::choose(2, "client first") == 1 { drop(c); drop(held); } else { drop(held); drop(c); }
        stop(ADDR, &log, h1);
        if let Some(h2) = h2 { stop(ADDR2, &log, h2); }
        check_reuse(&log, &ks, &us, true);
        { let g = log.lock().unwrap(); for x in &g.seen { if x.0 != to[x.2] { mc::fail(format!("call {} for server {} arrives at {}", x.2, to[x.2], x.0)); } } }
        ended();
        mc::outcome(format!("{:?}", sc));
    };
    // a thread of its own where the environment interferes with the client
    Scen::sched(name, bound, cfg, move || if short { mcstd::thread::spawn(run).join().unwrap(); } else { run() })
}
/// Two threads share a client.
fn shared(name: &str, per: usize, bound: u32, cfg: Config, scripts: &'static [Script], uses: &'static [Use], drop_early: bool, gaps: &'static [u64]) -> Scen {
    Scen::sched(name, bound, cfg, move || {
        let log: L = Default::default();
        let n = per * 2;
        let sc: Vec<Script> = (0..n).map(|_| scripts[mc::choose(scripts.len(), "script")]).collect();
        let us: Vec<Use> = (0..n).map(|_| uses[mc::choose(uses.len(), "use")]).collect();
        let gap: Vec<u64> = (0..n).map(|i| if i < per { 0 } else { gaps[mc::choose(gaps.len(), "pause before the call")] }).collect();
        let ks = vec![Kind::Get; n];
        log.lock().unwrap().scripts = sc.clone();
        let h1 = serve(ADDR, 0, log.clone());
        let c = Arc::new(Client::new());
        let hs: Vec<_> = (0..2).map(|t| {
            let (c, sc, us, gap) = (c.clone(), sc.clone(), us.clone(), gap.clone());
            mc::client(&format!("caller{}", t), move || {
                let mut held = vec![];
                for k in 0..per {
                    let i = t * per + k;
                    if gap[i] > 0 { mc::sleep_ms(gap[i]); }
                    // a connection found idle can still be closed by the server before the request arrives
                    let excused = sc.iter().any(|s| matches!(s, CloseAfter | LateFin));
                    let r = c.run(ADDR, Kind::Get.make(i));
                    if let Some(r) = consume(i, sc[i], us[i], r, excused, false, false) { held.push((i, r)); }
                }
                // the last user of the client drops it while responses are still unread
                if drop_early { drop(c); }
                for (i, r) in held { consume(i, sc[i], Use::Read, Ok(r), false, true, false); }
            })
        }).collect();
        let last = if drop_early { drop(c); None } else { Some(c) };
        for h in hs { h.join().unwrap(); }
        drop(last);
        stop(ADDR, &log, h1);
        check_reuse(&log, &ks, &us, false);
        ended();
        mc::outcome(format!("{:?} {:?}", sc, log.lock().unwrap().conns));
    })
}
/// A call of every shape, then a plain one: the server gets what was asked, the caller what was answered.
fn shapes(bound: u32) -> Scen {
    Scen::sched("a call and an answer of every shape, then a plain call", bound, Config { preempt: false, ..Config::default() }, move || {
        let method = ["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"][mc::choose(6, "method")];
        let target = ["/", "/a/b%20c?q=1&r=%2f", "/~x;y"][mc::choose(3, "target")];
        let sent: Option<Vec<u8>> = match mc::choose(4, "request body") { 0 => None, 1 => Some(vec![]), 2 => Some(b"he\r\n\r\nllo".to_vec()), _ => Some(vec![0xf0; 70_000]) };
        let headers: &[(&str, &str)] = [&[][..], &[("X-A", "1"), ("X-A", "2"), ("Host", "h:1"), ("Authorization", "Basic x==")]][mc::choose(2, "request headers")];
        let status = [200usize, 201, 404, 500, 503][mc::choose(5, "status")];
        let rheads: &[&str] = [&[][..], &["Set-Cookie: a=1", "Set-Cookie: b=2", "content-type: text/html", "Server:  x y "], &["Connection: keep-alive"]][mc::choose(3, "response headers")];
        let back: Vec<u8> = match mc::choose(4, "response body") { 0 => vec![], 1 => b"short".to_vec(), 2 => b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n".to_vec(), _ => vec![0x0d; 70_000] };
        let got: Arc<Mutex<Vec<String>>> = Default::default();
        let l = TcpListener::bind(ADDR).unwrap();
        let (g2, back2) = (got.clone(), back.clone());
        let srv = mc::client("server", move || {
            let (mut s, _) = l.accept().unwrap();
            let mut b: Vec<u8> = vec![];
            let mut first = true;
            let mut chunk = vec![0u8; 65536];
            loop {
                let end = loop {
                    if let Some(h) = b.windows(4).position(|w| w == b"\r\n\r\n") {
                        let head = String::from_utf8_lossy(&b[..h]).into_owned();
                        let n: usize = head.split("\r\n").filter_map(|l| l.split_once(':')).find(|x| x.0.eq_ignore_ascii_case("content-length")).map_or(0, |x| x.1.trim().parse().unwrap());
                        if b.len() >= h + 4 + n { break Some((h, h + 4 + n)); }
                    }
                    match s.read(&mut chunk) { Ok(n) if n > 0 => b.extend(&chunk[..n]), _ => break None }
                };
                let Some((h, end)) = end else { break };
                let head = String::from_utf8_lossy(&b[..h]).into_owned();
                let mut it = head.split("\r\n");
                let line = it.next().unwrap().to_string();
                let mut hs: Vec<String> = it.map(|l| { let (k, v) = l.split_once(':').unwrap_or((l, "?")); format!("{}={}", k.to_ascii_lowercase(), v.trim()) }).filter(|l| !l.starts_with("content-")).collect();
                hs.sort();
                let body = &b[h + 4..end];
                g2.lock().unwrap().push(format!("{} {:?} {} {}", line, hs, body.len(), body.iter().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64))));
                b.drain(..end);
                let m = if first {
                    let mut m = format!("HTTP/1.1 {} Any Reason\r\nContent-Length: {}\r\n", status, back2.len());
                    for x in rheads { m += x; m += "\r\n"; }
                    let mut m = (m + "\r\n").into_bytes();
                    m.extend(&back2);
                    m
                } else { b"HTTP/1.1 200 OK\r\nX-Id: 1\r\nContent-Length: 6\r\n\r\nsecond".to_vec() };
                first = false;
                if s.write_all(&m).is_err() { break; }
            }
            if !b.is_empty() { g2.lock().unwrap().push(format!("and {}", esc(&b))); }
        });
        let c = Client::new();
        let body = sent.clone().map(|b| Body::new(Some(text()), b.len() as u64, Box::new(Cursor::new(b))));
        let method_of = || HttpMethod::from_str(method).unwrap();
        let mut q = match body {
            Some(b) => Request::from_body(b, method_of(), target),
            None => Request { method: method_of(), uri: target.to_string(), version: "HTTP/1.1".into(), headers: wruster::http::headers::Headers::new(), body: None },
        };
        for (k, v) in headers { q.headers.add(Header { name: k.to_string(), value: v.to_string() }); }
        match c.run(ADDR, q) {
            Err(e) => mc::fail(format!("the call fails: {}", e)),
            Ok(mut r) => {
                if usize::from(&r.status) != status { mc::fail(format!("the caller gets the status {:?} instead of {}", r.status, status)); }
                let b = r.body.as_mut().map_or((vec![], None), |b| slurp(&mut b.content));
                if b.1.is_some() || b.0 != back { mc::fail(format!("the caller gets the body {} {:?}", esc(&b.0), b.1)); }
                let want = |n: &str| -> Vec<String> { rheads.iter().filter_map(|x| x.split_once(':')).filter(|x| x.0.eq_ignore_ascii_case(n)).map(|x| x.1.trim().to_string()).collect() };
                for n in ["Set-Cookie", "Server"] { let g = r.headers.get(n).cloned().unwrap_or_default(); if g != want(n) { mc::fail(format!("the caller gets {} {:?}", n, g)); } }
            }
        }
        match c.run(ADDR, Kind::Get.make(1)) {
            Err(e) => mc::fail(format!("the second call fails: {}", e)),
            Ok(mut r) => { let b = r.body.as_mut().map_or((vec![], None), |b| slurp(&mut b.content)); if b.0 != b"second" || r.headers.get("X-Id").map(|x| x.join(",")) != Some("1".into()) { mc::fail(format!("the second call gets {} {:?}", esc(&b.0), b.1)); } }
        }
        drop(c);
        srv.join().unwrap();
        let mut hs: Vec<String> = headers.iter().map(|(k, v)| format!("{}={}", k.to_ascii_lowercase(), v)).collect();
        hs.sort();
        let sb = sent.unwrap_or_default();
        let first = format!("{} {} HTTP/1.1 {:?} {} {}", method, target, hs, sb.len(), sb.iter().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)));
        let g = got.lock().unwrap();
        if g.len() != 2 || g[0] != first || !g[1].starts_with("GET /1 HTTP/1.1 [") || !g[1].ends_with(" 0 0") { mc::fail(format!("the server gets {:?} instead of {:?} and GET /1", g, first)); }
        mc::tag("answered call");
        ended();
        mc::outcome(format!("{} {}", status, back.len()));
    })
}
fn refused(bound: u32) -> Scen {
    Scen::sched("calls to an address nobody listens on, then to a server", bound, Config::default(), move || {
        let c = Client::new();
        let bad = ["127.0.0.1:1", ADDR, "nonsense", "127.0.0.1", ""][mc::choose(5, "address")];
        if c.run(bad, Kind::Get.make(0)).is_ok() { mc::fail("a call to nobody succeeds"); }
        let log: L = Default::default();
        log.lock().unwrap().scripts = vec![Plain, Plain];
        let h = serve(ADDR, 0, log.clone());
        for i in 0..2 { consume(i, Plain, Use::Read, c.run(ADDR, Kind::Get.make(i)), false, false, false); }
        // the server goes away and another one takes its place
        log.lock().unwrap().stop = true;
        drop(c);
        stop(ADDR, &log, h);
        ended();
        mc::outcome(bad.to_string());
    })
}
const PORTS: usize = 130;
fn port(k: usize) -> &'static str {
    static A: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    &A.get_or_init(|| (0..PORTS).map(|k| format!("127.0.0.1:{}", 9000 + k)).collect())[k]
}
/// Many calls through one client, to one server or to more of them than the pool has room for.
fn many() -> Scen {
    Scen::sched("many calls", 0, Config { preempt: false, switch_cost: 1, max_steps: 4_000_000, ..Config::default() }, || {
        let n = [6, 40, 140, 300][mc::choose(4, "calls")];
        let servers = [1, 2, 99, 100, 101, PORTS][mc::choose(6, "servers")];
        let mix = mc::choose(3, "answers");
        let pause = [0u64, 20, 700][mc::choose(3, "pause")];
        let order = mc::choose(3, "order");
        if servers > n { return; }
        let log: L = Default::default();
        const MIX: [Script; 9] = [Plain, Big, Empty, Pieces, CloseAfter, SaysClose, LateFin, Lower, LateSome(3)];
        let sc: Vec<Script> = (0..n).map(|i| match mix { 0 => Plain, 1 => MIX[i * 7 % 4], _ => MIX[(i * 5 + i / 9) % 9] }).collect();
        let us: Vec<Use> = (0..n).map(|i| [Use::Read, Use::Drop, Use::Part, Use::TakeRead, Use::Read][(i + i / 5) % 5]).collect();
        // round about, one after the other, back and forth
        let to: Vec<usize> = (0..n).map(|i| match order { 0 => i % servers, 1 => i * servers / n, _ => (i * i + i / 3) % servers }).collect();
        log.lock().unwrap().scripts = sc.clone();
        let hs: Vec<_> = (0..servers).map(|k| serve(port(k), k, log.clone())).collect();
        let c = Client::new();
        for i in 0..n {
            let r = c.run(port(to[i]), Kind::Get.make(i));
            consume(i, sc[i], us[i], r, false, false, false);
            // what the server still does is done before the next call
            mc::sleep_ms(pause.max(if mix == 2 { 20 } else { 0 }));
        }
        drop(c);
        for (k, h) in hs.into_iter().enumerate() { stop(port(k), &log, h); }
        check_reuse(&log, &vec![Kind::Get; n], &us, true);
        { let g = log.lock().unwrap(); for x in &g.seen { if x.0 != to[x.2] { mc::fail(format!("call {} for server {} arrives at {}", x.2, to[x.2], x.0)); } } if g.seen.len() != n { mc::fail(format!("{} of {} calls arrive", g.seen.len(), n)); } }
        ended();
        mc::outcome(format!("{} calls, {} servers, answers {}", n, servers, mix));
    })
}
/// C29: what a caller is told about an exchange that fails in the network.
pub fn c29_calls(th: bool) -> Vec<Scen> {
    let run = |post: bool, big: bool, read: usize, peer: Box<dyn FnOnce(&mut TcpStream) + Send>, judge: &mut dyn FnMut(Result<(Result<usize, std::io::Error>, Result<(), HttpError>), HttpError>, u64)| {
        let l = TcpListener::bind(ADDR).unwrap();
        let srv = mc::client("server", move || {
            let (mut s, _) = l.accept().unwrap();
            peer(&mut s);
        });
        let c = Client::new();
        let q = if big { Request::from_body(Body::new(Some(text()), 2_500_000, Box::new(std::io::repeat(b'x'))), HttpMethod::POST, "/0") } else { (if post { Kind::Post } else { Kind::Get }).make(0) };
        let t = mc::now_ms();
        match c.run(ADDR, q) {
            Err(e) => judge(Err(e), mc::now_ms() - t),
            Ok(mut r) => {
                let b = r.body.as_mut();
                let got = match b {
                    None => (Ok(0), Ok(())),
                    Some(b) if read == 0 => { let (v, e) = slurp(&mut b.content); (e.map_or(Ok(v.len()), Err), Ok(())) }
                    Some(b) if read == 1 => { let (v, e) = slurp(b); (e.map_or(Ok(v.len()), Err), Ok(())) }
                    Some(b) => { let r = b.ensure_read(); (Ok(0), r) }
                };
                judge(Ok(got), mc::now_ms() - t);
            }
        }
        drop(c);
        srv.join().unwrap();
        ended();
    };
    let head = |s: &mut TcpStream| { let mut b = VecDeque::new(); let _ = read_request(s, &mut b); };
    const M: &[u8] = b"HTTP/1.1 200 OK\r\nX-Id: 0\r\nContent-Length: 12\r\n\r\nhello, world";
    const HEAD: usize = M.len() - 12;
    let mut v = vec![];
    let b = Config { sock_cap: 3000, switch_cost: 1, ..Config::default() };
    v.push(Scen::sched("a call whose answer ends or stops at any byte", if th { 2 } else { 1 }, b.clone(), move || {
        let post = mc::choose(2, "request with a body") == 1;
        let how = mc::choose(5, "the answer ends with");
        let at = mc::choose(M.len(), "after byte");
        let read = mc::choose(3, "body read");
        // where it does not matter how the body is read
        if at < HEAD && read > 0 { return; }
        let peer = move |s: &mut TcpStream| {
            head(s);
            match how {
                0 => { let _ = s.write_all(&M[..at]); }
                1 => { let _ = s.write_all(&M[..at]); mc::sleep_ms(70_000); }
                2 => { if at > 0 { let _ = s.write_all(&M[..at]); } let _ = s.try_clone().map(|x| x.mc_reset()); }
                // a byte at a time, too slowly
                3 => for x in &M[..at] { mc::sleep_ms(if at > 6 { 60_000 / at as u64 + 1000 } else { 11_000 }); if s.write_all(&[*x]).is_err() { return; } },
                _ => { let _ = s.write_all(&M[..at]); mc::sleep_ms(59_999); let _ = s.write_all(&M[at..]); }
            }
            mc::sleep_ms(if how == 1 || how == 3 { 70_000 } else { 0 });
        };
        let name = format!("{} after {} bytes{}", ["a close", "silence", "a reset", "a trickle", "a pause"][how], at, if at >= HEAD { [", body", ", body through Read", ", ensure_read"][read] } else { "" });
        run(post, false, read, Box::new(peer), &mut |r, ms| {
            let bad = |m: &str| -> ! { mc::fail(format!("{}: {} ({:?}, {} ms)", name, m, r, ms)) };
            if how == 4 {
                match &r { Ok((Ok(n), Ok(()))) if *n == 12 || read == 2 => {} _ => bad("an answer within the time fails") }
                return;
            }
            let timed = how == 1 || how == 3;
            match &r {
                Err(_) if at >= HEAD && how != 3 && how != 2 => bad("the head was complete"),
                Err(HttpError::Timeout) if timed => {}
                Err(_) if timed => bad("a timeout is not reported as such"),
                Err(HttpError::Timeout) => bad("nothing timed out"),
                Err(HttpError::ConnectionClosed) if at == 0 => {}
                Err(_) if at == 0 && how == 0 => bad("a closed connection is not reported as such"),
                Err(_) => {}
                Ok(_) if at < HEAD => bad("half an answer is a success"),
                Ok((Ok(_), Ok(()))) => bad("half a body is a success"),
                Ok((Err(e), _)) if timed && e.kind() != std::io::ErrorKind::TimedOut => bad("a timeout is not reported as such"),
                Ok((_, Err(e))) if timed && *e != HttpError::Timeout => bad("a timeout is not reported as such"),
                Ok((Err(e), _)) if !timed && e.kind() == std::io::ErrorKind::TimedOut => bad("nothing timed out"),
                Ok((_, Err(HttpError::Timeout))) if !timed => bad("nothing timed out"),
                Ok(_) => {}
            }
            if timed && ms != 60_000 { bad("not at the deadline"); }
            if !timed && ms != 0 { bad("not at once"); }
            mc::tag(if timed { "timeout" } else { "lost" });
        });
        mc::outcome(name);
    }));
    v.push(Scen::sched("a call whose request is not taken", if th { 2 } else { 1 }, b.clone(), move || {
        let how = mc::choose(5, "the server");
        let peer = move |s: &mut TcpStream| {
            let mut x = [0u8; 1000];
            match how {
                0 => mc::sleep_ms(61_000),
                1 => {}
                2 => { let _ = s.read(&mut x); let _ = s.try_clone().map(|x| x.mc_reset()); }
                3 => { for _ in 0..70 { let _ = s.read(&mut x); mc::sleep_ms(1000); } }
                _ => { while matches!(s.read(&mut x), Ok(n) if n > 0) {} }
            }
        };
        run(true, true, 0, Box::new(peer), &mut |r, ms| {
            let bad = |m: &str| -> ! { mc::fail(format!("{}: {} ({:?}, {} ms)", ["silence", "a close", "a reset", "a trickle", "silence after the request"][how], m, r, ms)) };
            let timed = how == 0 || how >= 3;
            match &r {
                Ok(_) => bad("a call without an answer is a success"),
                Err(HttpError::Timeout) if timed => {}
                Err(_) if timed => bad("a timeout is not reported as such"),
                Err(HttpError::Timeout) => bad("nothing timed out"),
                Err(_) => {}
            }
            if timed && ms != 60_000 { bad("not at the deadline"); }
        });
        mc::outcome(format!("{}", how));
    }));
    v
}
fn c26(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let b = Config::default();
    let np = Config { preempt: false, ..b.clone() };
    let sh = Config { preempt: false, short_read: true, short_write: true, ..b.clone() };
    let mut v = vec![
        history("one call against every script", 1, 1, b.clone(), ALL, KINDS, USES, 1),
        history("a second call after every kind of first one", 2, if th { 1 } else { 0 }, np.clone(), ALL, KINDS, USES, 1),
        history("a call of each kind to one or two servers", 2, 0, np.clone(), FEW, KINDS, USES, 2),
        history("three calls", 3, 0, np.clone(), if th { ALL } else { FEW }, if th { &[Kind::Get, Kind::GetClose] } else { &[Kind::Get] }, USES, 1),
        history("one call with short reads and writes", 1, if th { 3 } else { 2 }, sh.clone(), &[Plain, Leftover, NoLength, Cut], &[Kind::Get, Kind::Post], &[Use::Read, Use::TakeRead], 1),
        shared("two callers, one call each, under preemption", 1, if th { 3 } else { 2 }, Config { switch_cost: 1, ..b.clone() }, &[Plain, CloseAfter, SaysClose, Cut], &[Use::Read, Use::Hold], true, &[0]),
        shared("two callers, two calls each, under preemption", 2, if th { 2 } else { 1 }, Config { switch_cost: 1, ..b.clone() }, &[Plain, CloseAfter], &[Use::Read, Use::Hold], false, &[0]),
        shared("two callers, one gives up responses that are still arriving", 2, if th { 1 } else { 0 }, Config { switch_cost: 1, ..b.clone() }, &[Pieces, Plain, Big], &[Use::Drop, Use::Part, Use::Read], false, &[0, 1, 5]),
        history("a call after an answer of every size", 2, 0, Config { switch_cost: 1, max_steps: 400_000, ..np.clone() }, SIZED, &[Kind::Get, Kind::Post], USES, 1),
        history("a second call after a first one read in other ways", 2, if th { 1 } else { 0 }, np.clone(), ALL, &[Kind::Get, Kind::GetClose], MORE, 1),
        history("a call after an answer of every size read in other ways", 2, 0, Config { switch_cost: 1, max_steps: 400_000, ..np.clone() }, SIZED, &[Kind::Get], MORE, 1),
        refused(1),
        many(),
        shapes(0),
        history("two calls with a reset or a descriptor that cannot be duplicated", 2, if th { 2 } else { 1 }, Config { faults: vec![Fault::ReadReset, Fault::WriteReset, Fault::Dup], ..np.clone() }, &[Plain, CloseAfter, Cut], &[Kind::Get, Kind::Post], USES, 1),
        history("two calls with an error of any kind", 2, 1, Config { faults: vec![Fault::ReadReset, Fault::WriteReset, Fault::Dup], fault_errors: super::util::ERRORS, ..np.clone() }, if th { &[Plain, CloseAfter, Big, Cut] } else { &[Plain] }, &[Kind::Get, Kind::Post], if th { USES } else { &[Use::Read, Use::Drop] }, 1),
        history("two calls with interrupted system calls", 2, if th { 2 } else { 1 }, Config { faults: vec![Fault::ReadIntr, Fault::WriteIntr], ..np.clone() }, &[Plain, Big], &[Kind::Get, Kind::Post], USES, 1),
    ];
    if th {
        v.push(history("four calls", 4, 0, np.clone(), FEW, &[Kind::Get], &[Use::Read, Use::Drop, Use::Hold], 1));
        v.push(history("two calls under preemption", 2, 2, b.clone(), FEW, &[Kind::Get], USES, 1));
    }
    v
}
