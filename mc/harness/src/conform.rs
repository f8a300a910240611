//! Conformance of the façade: the same traces are run against the façade (in an execution of the model)
//! and against the real kernel, the real `polling` crate and the real standard library, and what they
//! answer is compared. Every property decided on schedules runs these traces as part of its check.
use crate::engine::{explore, Env, Scen};
use mcstd::rt::Config;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

/// Where a trace of network operations begins.
const PRES: [&[u8]; 9] = [
    &[],
    // the server's end is registered, the client has sent something
    &[16, 0],
    // registered for everything and reported once
    &[17, 22],
    // the client has sent something and is gone, or has reset the connection
    &[16, 0, 6],
    &[17, 0, 7],
    // half-closed by the client / the server
    &[17, 3],
    &[16, 11, 0],
    // the buffer of the server's end is full
    &[35, 17],
    // level-triggered listener with another connection waiting
    &[24, 25],
];
pub const NETOPS: usize = 40;
const CHOPS: u64 = 11;

macro_rules! world {
    ($m:ident, $net:path, $poll:path, $thread:path, $mpsc:path, $sync:path, $reset:expr, $isreal:expr) => {
        mod $m {
            use $mpsc as mpsc;
            use $net as net;
            use $poll as polling;
            use $sync as sync;
            use $thread as thread;
            use net::{Shutdown, TcpListener, TcpStream};
            use polling::{Event, PollMode, Poller};
            use std::io::{self, Read, Write};
            use std::sync::Arc;
            use std::time::Duration;
            fn er(e: io::Error) -> String { format!("{:?}", e.kind()) }
            fn un(r: io::Result<()>) -> String { match r { Ok(()) => "ok".into(), Err(e) => er(e) } }
            fn rd(r: io::Result<usize>, b: &[u8]) -> String { match r { Ok(n) => format!("{:?}", String::from_utf8_lossy(&b[..n])), Err(e) => er(e) } }
            fn nn(r: io::Result<usize>) -> String { match r { Ok(n) => n.to_string(), Err(e) => er(e) } }
            fn wait(p: &Poller, d: Option<Duration>) -> String {
                let mut v = vec![];
                match p.wait(&mut v, d) {
                    Ok(_) => { let mut x: Vec<(usize, bool, bool)> = v.iter().map(|e: &Event| (e.key, e.readable, e.writable)).collect(); x.sort(); format!("{:?}", x) }
                    Err(e) => er(e),
                }
            }
            pub struct Lis(pub TcpListener);
            pub fn listen() -> Lis { let l = TcpListener::bind("127.0.0.1:0").unwrap(); l.set_nonblocking(true).unwrap(); Lis(l) }
            pub fn pair(l: &TcpListener) -> (TcpStream, TcpStream) {
                let mut k = 0;
                let c = loop { match TcpStream::connect(l.local_addr().unwrap()) { Ok(c) => break c, Err(_) if k < 100 => { k += 1; thread::sleep(Duration::from_millis(50)) } Err(e) => panic!("connect: {}", e) } };
                let s = loop { match l.accept() { Ok(x) => break x.0, Err(_) => thread::sleep(Duration::from_millis(1)) } };
                (c, s)
            }
            /// One trace of operations on a connection, its listener and a poller.
            pub fn net_trace(l: &Lis, ops: &[u8], gap: u64) -> Vec<String> {
                let mut own: Option<Lis> = None;
                if ops.contains(&31) || ops.contains(&24) || ops.contains(&25) || ops.contains(&26) { own = Some(listen()); }
                let addr = own.as_ref().unwrap_or(l).0.local_addr().unwrap();
                let (c, s) = pair(&own.as_ref().unwrap_or(l).0);
                c.set_nonblocking(true).unwrap();
                s.set_nonblocking(true).unwrap();
                let p = Poller::new().unwrap();
                let (mut c, mut s) = (Some(c), Some(s));
                let mut more: Vec<TcpStream> = vec![];
                let mut out = vec![];
                for op in ops {
                    if gap > 0 { thread::sleep(Duration::from_millis(gap)); }
                    let x = match (op, c.as_ref(), s.as_ref()) {
                        (0, Some(mut c), _) => nn(c.write(b"ab")),
                        (1, Some(mut c), _) => { let mut b = [0; 1]; let r = c.read(&mut b); rd(r, &b) }
                        (2, Some(mut c), _) => { let mut b = [0; 8]; let r = c.read(&mut b); rd(r, &b) }
                        (3, Some(c), _) => un(c.shutdown(Shutdown::Write)),
                        (4, Some(c), _) => un(c.shutdown(Shutdown::Read)),
                        (5, Some(c), _) => un(c.shutdown(Shutdown::Both)),
                        (6, Some(_), _) => { c = None; String::new() }
                        (7, Some(_), _) => { ($reset)(c.take().unwrap()); String::new() }
                        (8, _, Some(mut s)) => nn(s.write(b"xyz")),
                        (9, _, Some(mut s)) => { let mut b = [0; 8]; let r = s.read(&mut b); rd(r, &b) }
                        (10, _, Some(s)) => { let mut b = [0; 8]; let r = s.peek(&mut b); rd(r, &b) }
                        (11, _, Some(s)) => un(s.shutdown(Shutdown::Write)),
                        (12, _, Some(s)) => un(s.shutdown(Shutdown::Read)),
                        (13, _, Some(s)) => un(s.shutdown(Shutdown::Both)),
                        (14, _, Some(_)) => { s = None; String::new() }
                        (15, _, Some(_)) if !ops.contains(&37) => { ($reset)(s.take().unwrap()); String::new() }
                        (16, _, Some(s)) => un(p.add(s, Event::readable(7))),
                        (17, _, Some(s)) => un(p.add(s, Event::all(8))),
                        (18, _, Some(s)) => un(p.modify(s, Event::readable(9))),
                        (19, _, Some(s)) => un(p.modify(s, Event::writable(10))),
                        (20, _, Some(s)) => un(p.modify(s, Event::none(11))),
                        (21, _, Some(s)) => un(p.delete(s)),
                        (22, _, _) => wait(&p, Some(Duration::ZERO)),
                        (23, _, _) => un(p.notify()),
                        (24, _, _) => match &own { Some(l) => un(p.add_with_mode(&l.0, Event::readable(12), PollMode::Level)), None => continue },
                        (25, _, _) => match TcpStream::connect(addr) { Ok(x) => { more.push(x); "connected".into() } Err(e) => er(e) },
                        (26, _, _) => match &own { Some(l) => match l.0.accept() { Ok(x) => { more.push(x.0); "accepted".into() } Err(e) => er(e) }, None => continue },
                        (27, _, Some(_)) => { let old = s.take().unwrap(); s = Some(old.try_clone().unwrap()); drop(old); String::new() }
                        (28, _, Some(mut s)) => nn(s.read(&mut [])),
                        (29, _, Some(mut s)) => nn(s.write(&[])),
                        (30, _, Some(s)) => match s.take_error() { Ok(e) => format!("{:?}", e.map(|e| e.kind())), Err(e) => er(e) },
                        (31, _, _) => { own = None; String::new() }
                        (32, _, Some(s)) => match s.peer_addr() { Ok(_) => "peer".into(), Err(e) => er(e) },
                        (33, _, Some(s)) => format!("{} {}", un(s.set_read_timeout(Some(Duration::ZERO))), un(s.set_write_timeout(Some(Duration::from_millis(5))))),
                        (34, Some(c), _) => { let mut b = [0; 8]; let r = c.peek(&mut b); rd(r, &b) }
                        // until it would block
                        (35, _, Some(mut s)) => { let b = [b'f'; 65536]; loop { match s.write(&b) { Ok(_) => {} Err(e) => break er(e) } } }
                        (36, Some(mut c), _) => {
                            let mut b = vec![0; 65536];
                            let mut last = b' ';
                            // the kernel frees what has been read as it goes
                            let mut idle = 0;
                            loop { match c.read(&mut b) { Ok(0) => break format!("end after {}", last as char), Ok(n) => { last = b[n - 1]; idle = 0; } Err(e) if e.kind() == io::ErrorKind::WouldBlock && idle < 2 && $isreal => { idle += 1; thread::sleep(Duration::from_micros(200)) } Err(e) => break format!("{:?} after {}", e.kind(), last as char) } }
                        }
                        (37, _, Some(s)) => match s.try_clone() { Ok(x) => { more.push(x); "cloned".into() } Err(e) => er(e) },
                        (38, _, _) => { more.clear(); String::new() }
                        (39, _, Some(s)) => un(p.modify(s, Event::all(13))),
                        _ => continue,
                    };
                    out.push(format!("{}={}", op, x));
                }
                drop(p);
                // whatever is left ends without lingering
                for x in more.into_iter().chain(c).chain(s) { ($reset)(x); }
                out
            }
            /// Operations on a channel, in one thread (only those that do not wait).
            pub fn chan_trace(cap: usize, mut i: u64, len: usize) -> Vec<String> {
                let (tx, rx) = if cap < 3 { let (a, b) = mpsc::sync_channel::<u32>(cap); (Tx::S(a), b) } else { let (a, b) = mpsc::channel::<u32>(); (Tx::A(a), b) };
                let (mut tx, mut rx) = (vec![tx], Some(rx));
                let mut queued = 0;
                let mut out = vec![];
                for k in 0..len {
                    let op = i % super::CHOPS;
                    i /= super::CHOPS;
                    let n = k as u32;
                    let x = match (op, tx.last(), rx.as_ref()) {
                        (0, Some(Tx::S(t)), _) => { let r = t.try_send(n); if r.is_ok() { queued += 1; } format!("{:?}", r) }
                        (1, _, Some(r)) => { let r = r.try_recv(); if r.is_ok() { queued -= 1; } format!("{:?}", r) }
                        (2, Some(t), _) => { tx.push(t.clone()); String::new() }
                        (3, Some(_), _) => { tx.pop(); String::new() }
                        (4, _, Some(_)) => { rx = None; String::new() }
                        // would it wait?
                        (5, Some(t), r) => match t { Tx::S(t) if r.is_none() || queued < cap => { let r = t.send(n); if r.is_ok() { queued += 1; } format!("{:?}", r) } Tx::A(t) => { let r = t.send(n); if r.is_ok() { queued += 1; } format!("{:?}", r) } _ => continue },
                        (6, t, Some(r)) if queued > 0 || t.is_none() => { let r = r.recv(); if r.is_ok() { queued -= 1; } format!("{:?}", r) }
                        (7, t, Some(r)) if queued > 0 || t.is_none() => { let r = r.recv_timeout(Duration::from_millis(100)); if r.is_ok() { queued -= 1; } format!("{:?}", r) }
                        (8, _, Some(r)) => { let v: Vec<u32> = r.try_iter().collect(); queued = 0; format!("{:?}", v) }
                        (9, None, Some(r)) => { let v: Vec<u32> = r.iter().collect(); queued = 0; format!("{:?}", v) }
                        (10, _, Some(r)) => { let r = r.recv_timeout(Duration::from_micros(1)); if r.is_ok() { queued -= 1; } format!("{:?}", r) }
                        _ => continue,
                    };
                    out.push(format!("{}={}", op, x));
                }
                out
            }
            enum Tx { S(mpsc::SyncSender<u32>), A(mpsc::Sender<u32>) }
            impl Clone for Tx { fn clone(&self) -> Tx { match self { Tx::S(x) => Tx::S(x.clone()), Tx::A(x) => Tx::A(x.clone()) } } }

            /// A thread waits in one of the ways there are and something happens: who comes back when, with what.
            pub fn wait_trace(waiting: usize, event: usize, unit: u64) -> Option<String> {
                let ms = move |n: u64| Duration::from_millis(n * unit);
                let done: Arc<std::sync::Mutex<Option<String>>> = Default::default();
                let d2 = done.clone();
                let l = TcpListener::bind("127.0.0.1:0").unwrap();
                let addr = l.local_addr().unwrap();
                let (mut c, s) = pair(&l);
                let mut spare = Some(pair(&l).0);
                let s = Arc::new(s);
                let p = Arc::new(Poller::new().unwrap());
                let (tx, rx) = mpsc::sync_channel::<u32>(0);
                let mut tx = Some(tx);
                let mut rx = Some(rx);
                let m = Arc::new(sync::Mutex::new(0u32));
                let rw = Arc::new(sync::RwLock::new(0u32));
                let cv = Arc::new(sync::Condvar::new());
                let fl = Arc::new(std::sync::atomic::AtomicBool::new(false));
                let (s2, p2, m2, rw2, cv2) = (s.clone(), p.clone(), m.clone(), rw.clone(), cv.clone());
                let l2 = l.try_clone().unwrap();
                if waiting == 18 && event != 0 { p.add(&l, Event::readable(3)).unwrap(); }
                if matches!(waiting, 4..=6) { s.set_nonblocking(true).unwrap(); p.add(&*s, if waiting == 6 { Event::none(5) } else { Event::readable(5) }).unwrap(); }
                if waiting == 3 { s.set_nonblocking(false).unwrap(); }
                // what is waited with belongs to the waiting thread
                let (mut wtx, mut wrx) = (None, None);
                match waiting { 7 | 8 => wrx = rx.take(), 9 | 19 => wtx = tx.take(), _ => {} }
                let mut mg = None;
                let mut rg = None;
                let mut wg = None;
                match waiting { 12 => mg = Some(m.lock().unwrap()), 13 => rg = Some(rw.read().unwrap()), 14 => wg = Some(rw.write().unwrap()), _ => {} }
                let th = thread::spawn(move || {
                    let mut b = [0; 8];
                    let r = match waiting {
                        0 => { let r = (&*s2).read(&mut b); rd(r, &b) }
                        1 => { s2.set_read_timeout(Some(ms(4))).unwrap(); let r = (&*s2).read(&mut b); rd(r, &b) }
                        2 => { let v = vec![b'w'; 4 << 20]; let mut n = 0; loop { match (&*s2).write(&v) { Ok(x) => n += x, Err(e) => break er(e) } if n > 64 << 20 { break "all".into() } } }
                        3 => { s2.set_write_timeout(Some(ms(4))).unwrap(); let v = vec![b'w'; 4 << 20]; loop { match (&*s2).write(&v) { Ok(n) if n < v.len() => break "short".into(), Ok(_) => {} Err(e) => break er(e) } } }
                        4 => wait(&p2, None),
                        5 => wait(&p2, Some(ms(4))),
                        6 => wait(&p2, None),
                        7 => format!("{:?}", wrx.as_ref().unwrap().recv()),
                        8 => format!("{:?}", wrx.as_ref().unwrap().recv_timeout(ms(4))),
                        9 => format!("{:?}", wtx.as_ref().unwrap().send(1)),
                        10 => { thread::park(); "unparked".into() }
                        11 => { thread::park_timeout(ms(4)); "back".into() }
                        12 => format!("{:?}", m2.lock().map(|x| *x).map_err(|_| "poisoned")),
                        13 => format!("{:?}", rw2.write().map(|x| *x).map_err(|_| "poisoned")),
                        14 => format!("{:?}", rw2.read().map(|x| *x).map_err(|_| "poisoned")),
                        15 => { let g = m2.lock().unwrap(); let g = cv2.wait(g).unwrap(); format!("{}", *g) }
                        16 => { let g = m2.lock().unwrap(); let (g, t) = cv2.wait_timeout(g, ms(4)).unwrap(); format!("{} {}", *g, t.timed_out()) }
                        17 => match l2.accept() { Ok(_) => "accepted".into(), Err(e) => er(e) },
                        18 => wait(&p2, None),
                        _ => { let t = wtx.as_ref().unwrap(); format!("{:?}", t.try_send(5)) }
                    };
                    *d2.lock().unwrap() = Some(r);
                });
                thread::sleep(ms(2));
                let before = done.lock().unwrap().clone();
                let mut said = String::new();
                let mut c2 = None;
                match event {
                    0 => {}
                    1 => said = nn(c.write(b"hey")),
                    2 => said = un(c.shutdown(Shutdown::Write)),
                    3 => { let old = std::mem::replace(&mut c, spare.take().unwrap()); ($reset)(old); }
                    4 => said = un(s.shutdown(Shutdown::Read)),
                    5 => said = un(s.shutdown(Shutdown::Write)),
                    6 => said = un(s.shutdown(Shutdown::Both)),
                    7 => said = un(p.notify()),
                    8 => match TcpStream::connect(addr) { Ok(x) => c2 = Some(x), Err(e) => said = er(e) },
                    9 => if let Some(t) = &tx { said = format!("{:?}", t.try_send(9)) },
                    10 => drop(tx.take()),
                    11 => drop(rx.take()),
                    12 => if let Some(r) = &rx { said = format!("{:?}", r.try_recv()) },
                    13 => th.thread().unpark(),
                    14 => { drop(mg.take()); drop(rg.take()); drop(wg.take()); }
                    15 => { *m.lock().unwrap() = 4; cv.notify_one(); }
                    16 => cv.notify_all(),
                    17 => { let mut b = vec![0; 1 << 16]; let _ = c.set_nonblocking(true); let mut n = 0; while let Ok(x) = c.read(&mut b) { n += x; if x == 0 || n > 128 << 10 { break } } }
                    18 => said = un(p.delete(&*s)),
                    19 => said = un(p.modify(&*s, Event::all(6))),
                    20 => if let Some(t) = &tx { if waiting == 7 || waiting == 8 { said = format!("{:?}", t.send(9)) } else { fl.store(true, std::sync::atomic::Ordering::SeqCst) } },
                    21 => if let Some(r) = &rx { said = format!("{:?}", r.recv_timeout(ms(1))) },
                    _ => {
                        // somebody who holds the lock panics
                        if mg.is_some() || rg.is_some() || wg.is_some() {
                            let (a, b, d) = (mg.take(), rg.take(), wg.take());
                            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _x = (a, b, d); panic!("expected panic in a lock"); }));
                        }
                    }
                }
                thread::sleep(ms(1));
                let at = done.lock().unwrap().clone();
                thread::sleep(ms(5));
                let after = done.lock().unwrap().clone();
                // let it go
                drop((mg, rg, wg));
                let _ = s.shutdown(Shutdown::Both);
                drop((tx, rx));
                let _ = c2.map(|x| ($reset)(x));
                let mut kick = 0;
                while done.lock().unwrap().is_none() {
                    th.thread().unpark();
                    cv.notify_all();
                    let _ = p.notify();
                    if waiting == 17 { if let Ok(x) = TcpStream::connect(addr) { ($reset)(x) } }
                    if waiting == 2 || waiting == 3 { let _ = c.shutdown(Shutdown::Both); }
                    thread::sleep(Duration::from_millis(1));
                    kick += 1;
                    if kick > 3000 { return Some("stuck".into()); }
                }
                th.join().unwrap();
                ($reset)(c);
                if let Ok(s) = Arc::try_unwrap(s) { ($reset)(s) }
                Some(format!("before {:?}, event {} says {:?}, then {:?}, finally {:?}", before, event, said, at, after))
            }
        }
    };
}
world!(sim, mcstd::net, polling, mcstd::thread, mcstd::sync::mpsc, mcstd::sync, |x: mcstd::net::TcpStream| x.mc_reset(), false);
world!(real, std::net, real_polling, std::thread, std::sync::mpsc, std::sync, |x: std::net::TcpStream| super::linger(x), true);

fn linger(x: std::net::TcpStream) {
    use std::os::fd::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe { libc::setsockopt(x.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32); }
}
/// Traces that the façade does not claim to answer as the kernel does.
fn left_out(ops: &[u8]) -> bool {
    // how much room the kernel makes in a buffer that was full while only part of it is taken
    // and what becomes of a FIN or a RST for which there is no room
    let (mut full, mut moved, mut filled, mut shut) = (false, false, false, false);
    for o in ops {
        match o {
            4 | 5 => shut = true,
            35 => filled = true,
            11 | 13..=15 if filled => return true,
            _ => {}
        }
        if filled && shut { return true; }
        match o {
            35 if moved => return true,
            35 => full = true,
            36 => { full = false; moved = false; }
            0..=6 | 34 => moved |= full,
            8 | 22 if moved => return true,
            _ => {}
        }
    }
    false
}
const WAITS: usize = 20;
const EVENTS: usize = 23;
fn compare(what: String, sim: impl Fn() -> Vec<String>, real: impl Fn(u64) -> Vec<String>) -> Result<String, String> {
    let a = sim();
    let mut b = real(0);
    for k in 1..4 {
        if a == b { break; }
        b = real(k);
    }
    if a != b && std::env::var_os("MC_CONF_ALL").is_some() {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(std::env::var("MC_CONF_ALL").unwrap()).unwrap();
        let _ = f.write_all(format!("{}\n   sim {:?}\n  real {:?}\n", what, a, b).as_bytes());
        return Ok("mismatch".into());
    }
    if a != b { return Err(format!("{}: the façade answers {:?}, the system {:?}", what, a, b)); }
    Ok(if a.is_empty() { "-empty".into() } else { a.last().unwrap().chars().take(24).collect() })
}
thread_local! { static LIS: std::cell::OnceCell<real::Lis> = const { std::cell::OnceCell::new() }; }
fn net_case(pre: usize, len: usize, mut i: u64) -> Result<String, String> {
    let mut ops = PRES[pre].to_vec();
    for _ in 0..len { ops.push((i % NETOPS as u64) as u8); i /= NETOPS as u64; }
    if left_out(&ops) { return Ok("-left out".into()); }
    compare(format!("{:?}", ops), || { let l = sim::listen(); sim::net_trace(&l, &ops, 0) }, |gap| LIS.with(|l| real::net_trace(l.get_or_init(real::listen), &ops, gap)))
}
pub fn scen(tier: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let mut v = vec![];
    let n = NETOPS as u64;
    let cfg = Config { sock_cap: 70_000, max_steps: u64::MAX, max_time: 1 << 60, preempt: false, ..Config::default() };
    let fix = |mut s: Scen| { s.cfg = cfg.clone(); s };
    for pre in 0..PRES.len() {
        let len = if th { 3 } else { 2 };
        v.push(fix(Scen::cases(format!("network traces of {} operations after {:?}", len, PRES[pre]), n.pow(len as u32), if len == 3 { 200 } else { 50 }, move |i| net_case(pre, len, i))));
    }
    if th { v.push(fix(Scen::cases("network traces of 4 operations", n.pow(4), 500, |i| net_case(0, 4, i)))); }
    let len = if th { 6 } else { 4 };
    for cap in 0..4usize {
        v.push(fix(Scen::cases(format!("channel traces, capacity {}", if cap < 3 { cap.to_string() } else { "unbounded".into() }), CHOPS.pow(len as u32), 5000, move |i| {
            compare(format!("channel of capacity {} {}", cap, i), || sim::chan_trace(cap, i, len), |_| real::chan_trace(cap, i, len))
        })));
    }
    v.push(fix(Scen::cases("waits and what ends them", (WAITS * EVENTS) as u64, 2, |i| {
        let (w, e) = (i as usize / EVENTS, i as usize % EVENTS);
        if !applies(w, e) { return Ok("-does not apply".into()); }
        compare(format!("wait {} event {}", w, e), || sim::wait_trace(w, e, 10).into_iter().collect(), |k| real::wait_trace(w, e, [5, 10, 30, 100][k as usize]).into_iter().collect())
    })));
    v
}
/// Only what concerns what is waited for (the rest is the same as nothing).
fn applies(w: usize, e: usize) -> bool {
    let ev: &[usize] = match w {
        0 | 1 => &[0, 1, 2, 3, 4, 5, 6],
        2 | 3 => &[0, 3, 5, 6, 17],
        4 | 5 => &[0, 1, 2, 3, 4, 5, 6, 7, 18, 19],
        6 => &[0, 1, 2, 3, 6, 7, 19],
        7 | 8 => &[0, 9, 10, 20],
        9 => &[0, 11, 12, 21],
        10 | 11 => &[0, 13],
        12 | 13 | 14 => &[0, 14, 22],
        15 | 16 => &[0, 15, 16],
        17 => &[0, 8],
        18 => &[0, 7, 8],
        _ => &[0],
    };
    ev.contains(&e)
}
pub fn run(tier: &str) -> (u64, Vec<String>, Value) {
    let t0 = Instant::now();
    let sc = scen(tier);
    let env = Env { prop: "CONFORM".into(), tier: tier.into(), argv: None, scratch: String::new(), group: String::new() };
    let rep = explore(&env, &sc, Duration::from_secs(if tier == "quick" { 120 } else { 1800 }), &[]);
    let mut err = rep.errors;
    for v in &rep.violations { err.push(format!("conformance: {}: {}", v.scen, v.msg)); }
    if rep.capped || rep.again { err.push("conformance: out of time".into()); }
    let classes: std::collections::BTreeMap<&String, &u64> = rep.classes.iter().take(40).collect();
    (rep.cases, err, json!({"traces": rep.cases, "scenarios": rep.scens, "answers": classes, "seconds": t0.elapsed().as_secs_f64()}))
}
