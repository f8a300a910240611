//! The handlers (C12, C30) and the two programs built on the server (C31, C32).
use super::srv::*;
use super::tls::{client_cfg, Tls};
use super::util::*;
use super::{one_group, Groups, Prop, P0};
use crate::engine::Scen;
use crate::net::*;
use mcstd::{mc, rt::{Config, Fault}};
use std::io::{self, Cursor, Read};
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};
use wruster::router::HttpHandler;
use wruster_handlers::{log_middleware, serve_static};

const A: &[&str] = &["sequentially consistent interleavings of the façade's synchronization and socket operations", "the façade's sockets, poller, timers and channels behave like the real ones (checked by the conformance traces)", "bounds: deviations per execution as given per scenario"];
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C12", level: "exploration", scen: c12, groups: one_group, rule: "every target of up to the bounded number of segments over a set of names (files, directories, names outside, dots, encoded dots, absolute prefixes) is given to the handler directly, with the directory spelled in several ways, and to a real server, over a scratch tree in which every file says where it lies; distinct by construction; non-trivial: a file is named or a target leads outside", assumptions: &["no symbolic links in the tree", "files do not change while they are served", "percent-encoding may be decoded or not, queries may be ignored or not"], ..P0 },
        Prop { id: "C30", level: "exploration", scen: c30, groups: one_group, rule: "every combination of request shape, use of the request body by the handler and response shape is given to the handler alone and wrapped, with logging on and off; and every sequence of requests of a set is sent to a server with the plain and with the wrapped handler; distinct by construction; non-trivial: there is a body on one side", assumptions: &["façade network (conformance-checked)"], ..P0 },
        Prop { id: "C31", scen: c31, assumptions: A, ..P0 },
        Prop { id: "C32", scen: c32, groups: c32_groups, assumptions: A, ..P0 },
    ]
}

// ------------------------------------------------------------------ C12
/// The tree: (path below the scratch directory, content). `root` is what is served.
const TREE: &[(&str, &str)] = &[
    ("root/f", "root/f\n"), ("root/g.html", "<p>root/g.html</p>"), ("root/a/f", "root/a/f"), ("root/a/b/h.bin", "root/a/b/h.bin\u{0}\u{7f}"), ("root/empty", ""), ("root/...", "root/..."), ("root/..f", "root/..f"), ("root/a/..b", "root/a/..b"),
    ("root/%2e", "root/%2e"), ("root/x\\..", "root/x\\.."), ("root/etc/f", "root/etc/f"),
    ("secret", "OUTSIDE secret"), ("root2/f", "OUTSIDE root2/f"), ("f", "OUTSIDE f"), ("roo", "OUTSIDE roo"),
];
fn big_file() -> Vec<u8> { (0..20_000u32).map(|i| (i * 7 + i / 251) as u8).collect() }
/// Built once per run: the first worker to finish its copy puts it in place.
fn tree() -> String {
    let s = std::env::var("MC_SCRATCH").expect("MC_SCRATCH");
    let t = format!("{}/c12", s);
    if std::fs::metadata(&t).is_err() {
        let mine = format!("{}/c12-{}", s, std::process::id());
        for (p, c) in TREE {
            let p = format!("{}/{}", mine, p);
            std::fs::create_dir_all(p.rsplit_once('/').unwrap().0).unwrap();
            std::fs::write(&p, c).unwrap();
        }
        std::fs::write(format!("{}/root/big", mine), big_file()).unwrap();
        std::fs::create_dir_all(format!("{}/root/d/e", mine)).unwrap();
        let fifo = std::ffi::CString::new(format!("{}/root/fifo", mine)).unwrap();
        unsafe { libc::mkfifo(fifo.as_ptr(), 0o600); }
        if std::fs::rename(&mine, &t).is_err() { std::fs::remove_dir_all(&mine).unwrap(); }
    }
    t
}
fn file_at(path: &str) -> Option<Vec<u8>> {
    if path == "big" { return Some(big_file()); }
    TREE.iter().find(|x| x.0.strip_prefix("root/") == Some(path)).map(|x| x.1.as_bytes().to_vec())
}
fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() { if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) { v.push(x); i += 3; continue; } }
        v.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&v).into_owned()
}
enum Want { File(Vec<u8>), Error, /// an error or one of these contents
    Either(Vec<Vec<u8>>) }
/// What a target names.
fn names(target: &str) -> Want {
    let (p, query) = match target.split_once('?') { Some((p, _)) => (p, true), None => (target, false) };
    let resolve = |p: &str| -> (Option<String>, bool) {
        let mut v: Vec<&str> = vec![];
        let mut odd = false;
        for s in p.trim_start_matches('/').split('/') {
            match s { "" | "." => odd = true, ".." => { odd = true; if v.pop().is_none() { return (None, true); } } x => v.push(x) }
        }
        (Some(v.join("/")), odd)
    };
    let mut may = vec![];
    let (lit, odd) = resolve(p);
    let odd = odd || query || p.starts_with("//");
    if let Some(f) = lit.as_deref().and_then(file_at) { if !odd { return Want::File(f); } may.push(f); }
    if p.contains('%') || p.contains('\\') {
        for q in [decode(p), p.replace('\\', "/"), decode(p).replace('\\', "/")] { if let Some(f) = resolve(&q).0.as_deref().and_then(file_at) { may.push(f); } }
    }
    if query { if let Some(f) = resolve(target).0.as_deref().and_then(file_at) { may.push(f); } }
    if may.is_empty() { Want::Error } else { Want::Either(may) }
}
fn judge(target: &str, status: u16, len: Option<&str>, body: &[u8]) -> Result<String, String> {
    let good = |f: &Vec<u8>| status == 200 && body == &f[..] && len.map_or(true, |l| l == f.len().to_string());
    let err = (400..600).contains(&status);
    let shown = || format!("{:?} -> {} with {} bytes {}", target, status, body.len(), esc(&body[..body.len().min(60)]));
    if String::from_utf8_lossy(body).contains("OUTSIDE") { return Err(format!("{}: a file outside the directory", shown())); }
    match names(target) {
        Want::File(f) => if good(&f) { Ok("served".into()) } else { Err(format!("{}: not the content of the file", shown())) },
        Want::Error => if err { Ok(if target.contains("..") { "refused, with dots" } else { "-nothing there" }.into()) } else { Err(format!("{}: not an error", shown())) },
        Want::Either(v) => if err { Ok("odd spelling, refused".into()) } else if v.iter().any(good) { Ok("odd spelling, served".into()) } else { Err(format!("{}: neither an error nor the file", shown())) },
    }
}
fn mk_get(uri: &str) -> Request { Request { method: HttpMethod::GET, uri: uri.to_string(), version: "HTTP/1.1".into(), headers: Headers::new(), body: None } }
fn direct(dir: &str, target: &str) -> Result<String, String> {
    let r = mk_get(target);
    let mut resp = serve_static(dir, &r);
    let status = usize::from(&resp.status) as u16;
    let len = resp.headers.get("Content-Length").and_then(|v| v.first().cloned());
    let mut b = vec![];
    if let Some(x) = resp.body.as_mut() { x.content.read_to_end(&mut b).map_err(|e| format!("{:?}: {}", target, e))?; }
    if status == 200 && resp.body.as_ref().map(|x| x.content_length) != Some(b.len() as u64) { return Err(format!("{:?}: the body has not the length it says", target)); }
    judge(target, status, len.as_deref(), &b)
}
/// Takes so many bytes and then no more.
struct Upto { buf: Vec<u8>, max: usize }
impl io::Write for Upto {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.buf.len() >= self.max { return Err(io::Error::from(io::ErrorKind::StorageFull)); }
        let n = b.len().min(self.max - self.buf.len());
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
const NAME_CHARS: u64 = 0x180 + 12;
fn name_char(k: u64) -> Option<char> {
    const MORE: [char; 12] = ['\u{2028}', '\u{3000}', '\u{200b}', '\u{feff}', '\u{fffd}', '\u{ff0e}', '\u{ff0f}', '\u{2215}', '\u{1f600}', '\u{10ffff}', '\u{301}', '\u{7ff}'];
    let c = if k < 0x180 { char::from_u32(k as u32)? } else { MORE[(k - 0x180) as usize] };
    // these have a meaning of their own in a target, or are no part of a name
    (!matches!(c, '\0' | '/' | '?' | '#' | '%')).then_some(c)
}
fn c12(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    const S: &[&str] = &["", ".", "..", "f", "a", "b", "h.bin", "root", "root2", "secret", "..f", "%2e%2e"];
    const X: &[&str] = &["g.html", "empty", "big", "...", "..b", "d", "e", "fifo", "..%2f", "%2e", "x\\..", "..\\", "\\..", "etc", "f ", " ", "F", "f.", "~", "%00", "f%00", "roo", "c12", "$ROOT", "$TOP", "C:", "?", "f?a", "*"];
    const LEAD: &[&str] = &["/", "", "//", "/./", "/../", "///"];
    let expand = |segs: &[&str], lead: &str| -> String { format!("{}{}", lead, segs.join("/")) };
    let fill = |t: String, top: &str| -> String { t.replace("$ROOT", &format!("{}/root", top)).replace("$TOP", top) };
    let mut v = vec![];
    for n in 0..=if th { 5u32 } else { 4 } {
        v.push(Scen::cases(format!("handler, {} segments", n), (S.len() as u64).pow(n) * LEAD.len() as u64, 256, move |i| {
            let mut d = Dig(i);
            let lead = *d.of(LEAD);
            let segs: Vec<&str> = (0..n).map(|_| *d.of(S)).collect();
            let top = tree();
            direct(&format!("{}/root", top), &fill(expand(&segs, lead), &top))
        }));
    }
    let all: Arc<Vec<&'static str>> = Arc::new(S.iter().chain(X).copied().collect());
    for n in 1..=if th { 3u32 } else { 2 } {
        let all = all.clone();
        v.push(Scen::cases(format!("handler, {} segments of all names", n), (all.len() as u64).pow(n) * LEAD.len() as u64 * 7, 256, move |i| {
            let mut d = Dig(i);
            let lead = *d.of(LEAD);
            let top = tree();
            let dir = d.of(&["root", "root/", "./root", "root/../root", "root/a/..", "root/.", "/root"]).to_string();
            let segs: Vec<&str> = (0..n).map(|_| *d.of(&all)).collect();
            direct(&format!("{}/{}", top, dir), &fill(expand(&segs, lead), &top))
        }));
    }
    // other directories than the root of the tree
    v.push(Scen::cases("handler, other directories", 7 * 12 * 12, 64, move |i| {
        let mut d = Dig(i);
        let top = tree();
        let dir = *d.of(&["root/a", "root/d", "root/f", "root/none", "", "root2/../root/a", "root/fifo"]);
        let t = format!("/{}/{}", d.of(S), d.of(S));
        let mut r = serve_static(&format!("{}/{}", top, dir), &mk_get(&t));
        let st = usize::from(&r.status);
        let mut b = vec![];
        if let Some(x) = r.body.as_mut() { x.content.read_to_end(&mut b).map_err(|e| e.to_string())?; }
        let base = match dir { "root/a" | "root2/../root/a" => "root/a/", "" => "", "root/d" => "root/d/", _ => "nowhere/" };
        let mut segs: Vec<&str> = vec![];
        let mut up = false;
        for s in t.split('/') { match s { "" | "." => {} ".." => up |= segs.pop().is_none(), x => segs.push(x) } }
        let f = TREE.iter().find(|x| x.0 == format!("{}{}", base, segs.join("/"))).map(|x| x.1.as_bytes().to_vec());
        match f {
            Some(f) if !up && st == 200 => if b == f { Ok("served".into()) } else { Err(format!("{} in {:?} -> {}", t, dir, esc(&b))) },
            Some(_) if !up && t[1..].split('/').all(|x| x != "" && x != "." && x != "..") => Err(format!("{} in {:?} -> {}", t, dir, st)),
            _ => if (400..600).contains(&st) { Ok(if up { "refused" } else { "-nothing there" }.into()) } else { Err(format!("{} in {:?} -> {} {}", t, dir, st, esc(&b))) },
        }
    }));
    // every character in a file name, at every place of it, beside files that differ only in that character
    v.push(Scen::cases("every character in a name", NAME_CHARS * 5 * 2, 32, move |i| {
        let mut d = Dig(i);
        let served = d.n(2) == 1;
        let form = d.n(5);
        let k = d.n(NAME_CHARS);
        let Some(c) = name_char(k) else { return Ok("-not in a name".into()) };
        let name = match form { 0 => format!("{}", c), 1 => format!("{}x", c), 2 => format!("x{}", c), 3 => format!("x{}y", c), _ => format!("sub/x{}.html", c) };
        if name == "." || name == "./x" { return Ok("-not a name".into()); }
        let dir = format!("{}/names-{}", std::env::var("MC_SCRATCH").expect("MC_SCRATCH"), std::process::id());
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(format!("{}/sub", dir)).unwrap();
        for decoy in ["x", "y", "xy", "x.y", "x_y", "x-y", "X", "x x", "sub/x.html", "sub/x", "sub/x .html"] { std::fs::write(format!("{}/{}", dir, decoy), format!("decoy {}", decoy)).unwrap(); }
        let content = format!("this is {:?}", name);
        std::fs::write(format!("{}/{}", dir, name), &content).unwrap();
        let (st, len, body) = if served {
            if !c.is_ascii_graphic() { return Ok("-not a target".into()); }
            let root = dir.clone();
            let s = start(routes(vec![("/", HttpMethod::GET, h(move |r| serve_static(&root, r)))]));
            let mut c = Client::connect();
            must_send(&mut c, format!("GET /{} HTTP/1.1\r\nConnection: close\r\n\r\n", name).as_bytes());
            let r = c.resp().map_err(|e| format!("{:?}: {:?}", name, e))?;
            drop(c);
            finish(s);
            (r.status, r.header("content-length").first().map(|x| x.to_string()), r.body)
        } else {
            let mut r = serve_static(&dir, &mk_get(&format!("/{}", name)));
            let mut b = vec![];
            if let Some(x) = r.body.as_mut() { x.content.read_to_end(&mut b).map_err(|e| format!("{:?}: {}", name, e))?; }
            (usize::from(&r.status) as u16, r.headers.get("Content-Length").map(|v| v.join(",")), b)
        };
        let _ = std::fs::remove_dir_all(&dir);
        if st != 200 || body != content.as_bytes() || len != Some(content.len().to_string()) { return Err(format!("{:?} -> {} {:?} {}", name, st, len, esc(&body))); }
        Ok("served".into())
    }));
    // ways up from any depth, written in every way
    const UP: [&str; 7] = ["..", "%2e%2e", ".%2E", "./..", "/..", "..%2f", "x/../.."];
    const DEEP: u64 = 40;
    v.push(Scen::cases("ways up from any depth", (DEEP + 1) * 6 * 7 * 2 * 2, 64, move |i| {
        let mut d = Dig(i);
        let served = d.n(2) == 1;
        let twice = d.n(2) == 1;
        let up = *d.of(&UP);
        let more = d.n(6);
        let depth = d.0;
        let base = format!("{}/deep-{}", std::env::var("MC_SCRATCH").expect("MC_SCRATCH"), std::process::id());
        let root = format!("{}/site", base);
        if !std::path::Path::new(&base).exists() {
            let mut p = root.clone();
            for k in 0..=DEEP { std::fs::create_dir_all(format!("{}/x", p)).unwrap(); std::fs::write(format!("{}/f", p), format!("inside {}", k)).unwrap(); p = format!("{}/d", p); }
            std::fs::create_dir_all(format!("{}/x", base)).unwrap();
            std::fs::write(format!("{}/f", base), "outside").unwrap();
        }
        // as many steps up as lead to the root, fewer, or beyond it
        let ups = (depth + more).saturating_sub(3);
        let mut t = format!("/{}{}", "d/".repeat(depth as usize), format!("{}/", up).repeat(ups as usize));
        if twice { t = format!("/d{}{}", t, "../".repeat((depth > 0) as usize)); }
        t += "f";
        let (st, body) = if served {
            let r2 = root.clone();
            let s = start(routes(vec![("/", HttpMethod::GET, h(move |r| serve_static(&r2, r)))]));
            let mut c = Client::connect();
            must_send(&mut c, format!("GET {} HTTP/1.1\r\nConnection: close\r\n\r\n", t).as_bytes());
            let r = c.resp().map_err(|e| format!("{:?}: {:?}", t, e))?;
            drop(c);
            finish(s);
            (r.status, r.body)
        } else {
            let mut r = serve_static(&root, &mk_get(&t));
            let mut b = vec![];
            if let Some(x) = r.body.as_mut() { x.content.read_to_end(&mut b).map_err(|e| format!("{:?}: {}", t, e))?; }
            (usize::from(&r.status) as u16, b)
        };
        if b"outside" == &body[..] { return Err(format!("{:?} is answered with a file outside of the directory", t)); }
        match st { 200 if body.starts_with(b"inside") => Ok("inside".into()), 200 => Err(format!("{:?}: {}", t, esc(&body))), _ => Ok(format!("{}", st)) }
    }));
    // the tree changes between the requests: every response is about what is there now
    const STATES: [Option<&str>; 8] = [None, Some(""), Some("one"), Some("two"), Some("a longer content"), Some("D"), Some("D+"), Some("X")];
    let steps = if th { 4u32 } else { 3 };
    v.push(Scen::cases(format!("a tree that changes, {} steps", steps), 8u64.pow(steps) * 3 * 2, 32, move |i| {
        let mut d = Dig(i);
        let served = d.n(2) == 1;
        let target = *d.of(&["/f", "/sub/f", "/f/g"]);
        let dir = format!("{}/change-{}", std::env::var("MC_SCRATCH").expect("MC_SCRATCH"), std::process::id());
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(format!("{}/sub", dir)).unwrap();
        let f = format!("{}{}", dir, if target == "/sub/f" { target } else { "/f" });
        let root = dir.clone();
        let mut s = None;
        let mut c = None;
        if served { s = Some(start(routes(vec![("/", HttpMethod::GET, h(move |r| serve_static(&root, r)))]))); c = Some(Client::connect()); }
        let mut seen = vec![];
        for _ in 0..steps {
            let st = *d.of(&STATES);
            let _ = std::fs::remove_dir_all(&f);
            let _ = std::fs::remove_file(&f);
            std::fs::create_dir_all(std::path::Path::new(&f).parent().unwrap()).unwrap();
            // a file, a directory with or without the file g in it, or no parent at all
            let now = match st {
                None => None,
                Some("D") => { std::fs::create_dir(&f).unwrap(); None }
                Some("D+") => { std::fs::create_dir(&f).unwrap(); std::fs::write(format!("{}/g", f), "g").unwrap(); (target == "/f/g").then_some("g") }
                Some("X") => { if target == "/sub/f" { std::fs::remove_dir_all(format!("{}/sub", dir)).unwrap(); } None }
                Some(x) => { std::fs::write(&f, x).unwrap(); (target != "/f/g").then_some(x) }
            };
            seen.push(st);
            let (status, len, body) = match &mut c {
                Some(c) => {
                    must_send(c, format!("GET {} HTTP/1.1\r\n\r\n", target).as_bytes());
                    let r = c.resp().map_err(|e| format!("{} with {:?}: {:?}", target, seen, e))?;
                    (r.status, r.header("content-length").first().map(|x| x.to_string()), r.body)
                }
                None => {
                    let mut r = serve_static(&dir, &mk_get(target));
                    let mut b = vec![];
                    r.write(&mut b).map_err(|e| format!("{} with {:?}: {:?}", target, seen, e))?;
                    let head = b.windows(4).position(|w| w == b"\r\n\r\n").map_or(0, |p| p + 4);
                    (usize::from(&r.status) as u16, r.headers.get("Content-Length").map(|v| v.join(",")), b[head..].to_vec())
                }
            };
            let ok = match now { Some(x) => status == 200 && body == x.as_bytes() && len == Some(x.len().to_string()), None => (400..600).contains(&status) && !body.starts_with(b"one") && !body.starts_with(b"two") };
            if !ok { return Err(format!("{} when it was in turn {:?} (D: a directory, X: no directory): {} with length {:?}: {}", target, seen, status, len, esc(&body))); }
        }
        drop(c);
        if let Some(s) = s { finish(s); }
        let _ = std::fs::remove_dir_all(&dir);
        Ok(format!("{} different", { let mut x = seen.clone(); x.sort(); x.dedup(); x.len() }))
    }));
    // names of every length a file can have, and beyond
    v.push(Scen::cases("names of every length", 275 * 4 * 3, 32, |i| {
        let mut d = Dig(i);
        let (n, tail, form) = (d.n(275) as usize, *d.of(&["", "é", "€", "😀"]), d.n(3));
        let name: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).chain(tail.chars()).collect();
        if name.is_empty() { return Ok("-no name".into()); }
        let dir = format!("{}/long-{}", std::env::var("MC_SCRATCH").expect("MC_SCRATCH"), std::process::id());
        let _ = std::fs::remove_dir_all(&dir);
        let path = match form { 0 => name.clone(), 1 => format!("{}/f", name), _ => format!("s/{}/{}", name, name) };
        let full = format!("{}/{}", dir, path);
        std::fs::create_dir_all(&dir).unwrap();
        let there = name.len() <= 255;
        if there {
            std::fs::create_dir_all(std::path::Path::new(&full).parent().unwrap()).unwrap();
            std::fs::write(&full, format!("content {}", n)).unwrap();
            if n > 1 && form == 0 { std::fs::write(format!("{}/{}", dir, &name[..n - 1]), "a shorter name").unwrap(); }
        }
        let mut r = serve_static(&dir, &mk_get(&format!("/{}", path)));
        let st = usize::from(&r.status) as u16;
        let mut b = vec![];
        if let Some(x) = r.body.as_mut() { x.content.read_to_end(&mut b).map_err(|e| format!("a name of {} octets: {}", name.len(), e))?; }
        let _ = std::fs::remove_dir_all(&dir);
        let ok = if there { st == 200 && b == format!("content {}", n).as_bytes() } else { (400..600).contains(&st) };
        if !ok { return Err(format!("a name of {} octets ending in {:?}, form {}: {} {}", name.len(), tail, form, st, esc(&b))); }
        Ok(if there { "served".into() } else { "too long".into() })
    }));
    // every size around what fits in a buffer, in memory or in a number
    const SIZES: [u64; 31] = [0, 1, 2, 3, 4095, 4096, 4097, 8191, 8192, 8193, 65_535, 65_536, 65_537, 1_048_575, 1_048_576, 1_048_577, 2_097_151, 2_097_152, 2_097_153, 3_000_000,
        (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 12_345, 1 << 33, (1 << 33) + 1, (1 << 40) + 3, (1 << 42) - 1];
    v.push(Scen::cases("files of every size", 31 * 2, 1, move |i| {
        let mut d = Dig(i);
        let served = d.n(2) == 1;
        let n = *d.of(&SIZES);
        if served && n > 3_000_000 { return Ok("-too large to be sent".into()); }
        let dir = format!("{}/size-{}", std::env::var("MC_SCRATCH").expect("MC_SCRATCH"), std::process::id());
        std::fs::create_dir_all(&dir).unwrap();
        let f = std::fs::File::create(format!("{}/f", dir)).unwrap();
        let start_of: Vec<u8> = (0..n.min(3_000_000)).map(|i| (i * 7 + i / 251) as u8).collect();
        { use std::io::Write; (&f).write_all(&start_of).unwrap(); }
        // what follows is a hole that takes no room
        if f.set_len(n).is_err() { let _ = std::fs::remove_dir_all(&dir); return Ok("-the file system has no such files".into()); }
        drop(f);
        let r = if served {
            let root = dir.clone();
            let s = start(routes(vec![("/", HttpMethod::GET, h(move |r| serve_static(&root, r)))]));
            let mut c = Client::connect();
            must_send(&mut c, b"GET /f HTTP/1.1\r\nConnection: close\r\n\r\n");
            let r = c.resp().map_err(|e| format!("{} bytes: {:?}", n, e))?;
            let end = c.at_eof();
            drop(c);
            finish(s);
            if r.status == 200 && r.body == start_of && end { Ok("served".into()) } else { Err(format!("{} bytes: {} with {} bytes", n, r.status, r.body.len())) }
        } else {
            let mut r = serve_static(&dir, &mk_get("/f"));
            let mut to = Upto { buf: vec![], max: 3_001_000 };
            let w = r.write(&mut to);
            let head = to.buf.windows(4).position(|w| w == b"\r\n\r\n").map_or(0, |p| p + 4);
            let h = String::from_utf8_lossy(&to.buf[..head]).to_lowercase();
            let b = &to.buf[head..];
            if usize::from(&r.status) != 200 || !h.contains(&format!("\r\ncontent-length: {}\r\n", n)) || h.matches("content-length").count() != 1 { Err(format!("{} bytes: {}", n, h)) }
            else if b.len() < start_of.len() || b[..start_of.len()] != start_of[..] || b[start_of.len()..].iter().any(|x| *x != 0) { Err(format!("{} bytes: another content", n)) }
            else if n <= 3_000_000 && (w.is_err() || b.len() as u64 != n) { Err(format!("{} bytes: {:?}, {} bytes written", n, w, b.len())) }
            else if n > 3_000_000 && n <= (1 << 33) + 1 {
                // all of it, counted
                let mut r = serve_static(&dir, &mk_get("/f"));
                let (mut k, mut buf) = (0u64, vec![0u8; 1 << 20]);
                let mut calls = 0u64;
                loop {
                    calls += 1;
                    if calls % 64 == 0 { mcstd::rt::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
                    match r.body.as_mut().map_or(Ok(0), |b| b.content.read(&mut buf)) { Ok(0) => break, Ok(x) => k += x as u64, Err(e) => return Err(format!("{} bytes: {} after {}", n, e, k)) }
                    if k > n { break; }
                }
                if k == n { Ok("all of it".into()) } else { Err(format!("{} bytes: {} read from the body", n, k)) }
            }
            else { Ok(if n > 3_000_000 { "the beginning".into() } else { "all of it".into() }) }
        };
        let _ = std::fs::remove_dir_all(&dir);
        r
    }));
    // through the server
    for n in 1..=if th { 4u32 } else { 3 } {
        let all = all.clone();
        let k = if n < 3 { all.len() as u64 } else { S.len() as u64 };
        v.push(Scen::cases(format!("server, {} segments", n), k.pow(n) * LEAD.len() as u64, 64, move |i| {
            let mut d = Dig(i);
            let lead = *d.of(LEAD);
            let segs: Vec<&str> = (0..n).map(|_| all[d.n(k) as usize]).collect();
            let top = tree();
            let t = fill(expand(&segs, lead), &top);
            if t.contains(' ') || t.is_empty() { return Ok("-not a target".into()); }
            let root = format!("{}/root", top);
            let s = start(routes(vec![("/", HttpMethod::GET, h(move |r| serve_static(&root, r)))]));
            let mut c = Client::connect();
            must_send(&mut c, format!("GET {} HTTP/1.1\r\nConnection: close\r\n\r\n", t).as_bytes());
            let r = c.resp().map_err(|e| format!("{:?}: {:?}", t, e))?;
            if !c.at_eof() { return Err(format!("{:?}: more bytes than the response", t)); }
            drop(c);
            finish(s);
            let len = r.header("content-length").first().map(|x| x.to_string());
            // a target that is not absolute is refused
            if !t.starts_with('/') && r.status >= 400 { return Ok("-not absolute".into()); }
            judge(&t, r.status, len.as_deref(), &r.body)
        }));
    }
    v
}

// ------------------------------------------------------------------ C30
/// Formats every record, as a logger that prints does.
struct Formatter;
impl log::Log for Formatter {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let s = format!("{}", r.args()); std::hint::black_box(s); }
    fn flush(&self) {}
}
/// Every record is formatted, so what the arguments of a log call do is explored too; off where that is what is compared.
pub fn logging(on: bool) {
    let _ = log::set_logger(&Formatter);
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}
/// Counts how often it is read.
struct Watched { data: Cursor<Vec<u8>>, reads: Arc<Mutex<usize>>, fail: Option<io::ErrorKind> }
impl Read for Watched {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        *self.reads.lock().unwrap() += 1;
        let n = self.data.read(b)?;
        if n == 0 { if let Some(k) = self.fail { return Err(io::Error::from(k)); } }
        Ok(n)
    }
}
fn c30_one(i: u64, wrapped: bool) -> Result<String, String> {
    let mut d = Dig(i);
    let reads: Arc<Mutex<usize>> = Default::default();
    let out_reads: Arc<Mutex<usize>> = Default::default();
    let method = *d.of(&["GET", "POST", "DELETE"]);
    let body: Option<Vec<u8>> = match d.n(4) { 0 => None, 1 => Some(vec![]), 2 => Some(b"hello".to_vec()), _ => Some(vec![0xff; 9000]) };
    let fail = if d.n(2) == 1 { Some(io::ErrorKind::TimedOut) } else { None };
    let mut headers = Headers::new();
    for (n, x) in match d.n(3) { 0 => vec![], 1 => vec![("X-A", "b"), ("X-A", "c"), ("Host", "h")], _ => vec![("Connection", "close"), ("Authorization", "secret")] } { headers.add(Header { name: n.into(), value: x.into() }); }
    let uri = d.of(&["/", "/a/b?c=d", "/{}%s"]).to_string();
    let version = d.of(&["HTTP/1.1", "HTTP/1.0"]).to_string();
    let usage = d.n(5);
    let answer = d.n(7);
    let mut req = Request { method: HttpMethod::from_str(method).unwrap(), uri, version, headers, body: body.clone().map(|b| Body::new(Some(text()), b.len() as u64, Box::new(Watched { data: Cursor::new(b), reads: reads.clone(), fail }))) };
    let seen: Arc<Mutex<Vec<String>>> = Default::default();
    let (s2, r2, o2) = (seen.clone(), reads.clone(), out_reads.clone());
    let f: HttpHandler = Box::new(move |r: &mut Request| {
        let mut note = format!("{} {} {} {:?} body {:?} after {} reads", r.method, r.uri, r.version, hdrs(&r.headers), r.body.as_ref().map(|b| (b.content_length, b.content_type.clone())), *r2.lock().unwrap());
        match (usage, r.body.as_mut()) {
            (1, Some(b)) => { let mut v = vec![]; let e = b.content.read_to_end(&mut v).err().map(|e| e.kind()); note += &format!(" {} {:?}", esc(&v), e); }
            (2, Some(b)) => { let mut v = [0u8; 2]; let n = b.content.read(&mut v).ok(); note += &format!(" {:?} {:?}", n, v); }
            (3, _) => r.body = None,
            (4, _) => { r.headers.add(Header { name: "X-Mine".into(), value: "1".into() }); r.uri = "/changed".into(); }
            _ => {}
        }
        s2.lock().unwrap().push(note);
        let w = |b: &[u8], fail| Body::new(Some(text()), b.len() as u64, Box::new(Watched { data: Cursor::new(b.to_vec()), reads: o2.clone(), fail }));
        match answer {
            0 => Response::from_status(StatusCode::NoContent),
            1 => reply("text"),
            2 => Response { status: StatusCode::from(404), headers: Headers::new(), body: Some(w(b"gone", None)) },
            3 => { let mut r = Response { status: StatusCode::OK, headers: Headers::new(), body: Some(w(&[7; 20_000], None)) }; for v in ["1", "2"] { r.headers.add(Header { name: "Set-Cookie".into(), value: v.into() }); } r }
            4 => Response { status: StatusCode::OK, headers: Headers::new(), body: Some(w(b"cut", Some(io::ErrorKind::Other))) },
            5 => match r.body.take() { Some(b) => Response { status: StatusCode::OK, headers: Headers::new(), body: Some(b) }, None => Response::from_status(StatusCode::OK) },
            _ => panic!("expected panic"),
        }
    });
    let f = if wrapped { log_middleware(f) } else { f };
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut req)));
    let mut s = format!("handler {:?}", seen.lock().unwrap());
    s += &format!(" request afterwards {} {} {:?} {}", req.method, req.uri, hdrs(&req.headers), req.body.is_some());
    s += &format!(" reads {} {}", reads.lock().unwrap(), out_reads.lock().unwrap());
    match got {
        Err(e) => s += &format!(" panics {:?}", e.downcast_ref::<&str>()),
        Ok(mut r) => { let mut o = vec![]; let e = r.write(&mut o).err(); s += &format!(" {:?} {}", e, esc(&o)); s += &format!(" {}", o.len()); }
    }
    if let Some(b) = req.body.as_mut() { let mut v = vec![]; let e = b.content.read_to_end(&mut v).err().map(|e| e.kind()); s += &format!(" rest {} {:?}", v.len(), e); }
    Ok(s)
}
fn c30(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let n = 3 * 4 * 2 * 3 * 3 * 2 * 5 * 7;
    let mut v = vec![];
    v.push(Scen::cases("handler called directly", n * 2, 64, move |i| {
        logging(false);
        let plain = c30_one(i / 2, false)?;
        logging(i % 2 == 1);
        let w = c30_one(i / 2, true)?;
        logging(false);
        if plain != w { return Err(format!("without: {}\nwith: {}", plain, w)); }
        if plain.matches("after").count() > 2 { return Err(format!("called more than once: {}", plain)); }
        Ok(if plain.contains("body None") { "-no request body".into() } else { "same".into() })
    }));
    // every method and every status
    v.push(Scen::cases("every method and status", super::gen::METHODS.len() as u64 * 900 * 3 * 2, 200, move |i| {
        let mut d = Dig(i);
        let m = *d.of(&super::gen::METHODS);
        let code = 100 + d.n(900) as usize;
        let shape = d.n(3);
        logging(d.n(2) == 1);
        let one = |wrapped: bool| {
            let calls: Arc<Mutex<Vec<String>>> = Default::default();
            let c2 = calls.clone();
            let f: HttpHandler = Box::new(move |r: &mut Request| {
                let mut n = c2.lock().unwrap();
                n.push(format!("{} {} {:?}", r.method, r.uri, r.body.as_ref().map(|b| b.content_length)));
                let mut x = if shape == 2 { Response::from_status(StatusCode::OK) } else { reply(&format!("call {}", n.len())) };
                x.status = StatusCode::from(code);
                x
            });
            let f = if wrapped { log_middleware(f) } else { f };
            let mut r = mk_get("/x?y");
            r.method = HttpMethod::from_str(m).unwrap();
            if shape == 1 { r.body = Some(Body::new(None, 2, Box::new(Cursor::new(b"hi".to_vec())))); }
            let mut o = vec![];
            let e = f(&mut r).write(&mut o).err();
            let n = calls.lock().unwrap().len();
            (n, format!("{:?} {:?} {}", calls.lock().unwrap(), e, esc(&o)))
        };
        let (plain, w) = (one(false), one(true));
        logging(false);
        if w.0 != 1 || plain != w { return Err(format!("{} {}: without: {}\nwith: {}", m, code, plain.1, w.1)); }
        Ok("same".into())
    }));
    // through the server: the bytes the client gets and what the handler sees
    let depth = if th { 3u32 } else { 2 };
    const K: u64 = 9;
    let run = move |i: u64, wrapped: bool, on: bool| -> Result<String, String> {
        logging(on);
        let rec = Rec::default();
        let r2 = rec.clone();
        let f = h(move |r| {
            if r.uri == "/panic" { r2.push("panic"); panic!("expected panic"); }
            if r.uri == "/skip" { r2.push("skip"); return reply("skipped"); }
            if r.uri == "/part" { let mut b = [0u8; 2]; let n = r.body.as_mut().map(|x| x.content.read(&mut b).ok()); r2.push(format!("part {:?} {:?}", n, b)); return reply("part"); }
            if r.uri == "/none" { r2.push("none"); return Response::from_status(StatusCode::from(204)); }
            if r.uri == "/echo" { r2.push("echo"); return match r.body.take() { Some(b) => Response { status: StatusCode::OK, headers: Headers::new(), body: Some(b) }, None => reply("no body") }; }
            let d = describe_req(r);
            r2.push(&d);
            reply(&d)
        });
        let f = if wrapped { log_middleware(f) } else { f };
        let f2 = { let rec = rec.clone(); let g = echo(&rec); if wrapped { log_middleware(g) } else { g } };
        let s = start(routes(vec![("/", HttpMethod::POST, f), ("/", HttpMethod::GET, f2)]));
        let mut d = Dig(i);
        let mut b = vec![];
        for _ in 0..depth {
            let k = d.n(K);
            b.extend(match k { 0 => get("/1"), 1 => post("/2", "hello"), 2 => post("/skip", "unread body"), 3 => post("/part", "partly read"), 4 => post("/panic", "x"), 5 => post("/none", "y"), 6 => post("/echo", "echoed"), 7 => b"POST /3 HTTP/1.1\r\nContent-Length: 9\r\nConnection: close\r\n\r\ncut".to_vec(), _ => b"POST /4 HTTP/1.1\r\nbad header\r\n\r\n".to_vec() });
        }
        let mut c = Client::connect();
        let _ = c.send(&b);
        c.fin();
        let (got, e) = c.drain();
        drop(c);
        finish(s);
        logging(false);
        Ok(format!("{:?} {} {:?}", rec.get(), esc(&got), e))
    };
    v.push(Scen::cases(format!("server, {} requests", depth), K.pow(depth) * 2, 16, move |i| {
        let plain = run(i / 2, false, false)?;
        let w = run(i / 2, true, i % 2 == 1)?;
        if plain != w { return Err(format!("without: {}\nwith: {}", plain, w)); }
        Ok("same".into())
    }));
    v
}

// ------------------------------------------------------------------ programs
type App = fn();
/// Runs a program in a thread of its own. When it exits, `then` decides.
fn launch(app: App, then: impl FnOnce(i32) + Send + 'static) {
    mcstd::process::on_exit(Some(Box::new(then)));
    mcstd::thread::spawn(move || { app(); if mc::panics().is_empty() { mcstd::process::exit(0) } });
    mc::quiesce();
}
#[derive(Clone)]
struct Route { path: &'static str, method: &'static str, status: u16, ctype: String, content: String }
fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o.push('"');
    o
}
/// The same configuration in several forms.
fn document(r: &[Route], form: usize) -> String {
    let mut s = String::new();
    match form {
        0 => for (i, x) in r.iter().enumerate() { s += &format!("r{}:\n  path: {}\n  method: {}\n  response:\n    status: {}\n    content: {}\n    type: {}\n", i, quote(x.path), x.method, x.status, quote(&x.content), quote(&x.ctype)); },
        1 => for (i, x) in r.iter().enumerate() { s += &format!("\"route {}\": {{response: {{content_type: {}, content: {}, status: {}}}, method: {}, path: {}}}\n", i, quote(&x.ctype), quote(&x.content), x.status, x.method, quote(x.path)); },
        _ => { s.push('{'); for (i, x) in r.iter().enumerate() { if i > 0 { s.push(','); } s += &format!("\"{}\":{{\"path\":{},\"method\":\"{}\",\"response\":{{\"status\":{},\"content\":{},\"type\":{}}}}}", i, quote(x.path), x.method, x.status, quote(&x.content), quote(&x.ctype)); } s.push('}'); }
    }
    if s.is_empty() { s = "{}\n".into(); }
    s
}
fn config_file(text: &[u8]) -> String {
    let p = format!("{}/cfg-{}", std::env::var("MC_SCRATCH").expect("MC_SCRATCH"), std::process::id());
    std::fs::write(&p, text).unwrap();
    p
}
fn contents() -> Vec<String> { vec!["payload".into(), "".into(), "two\nlines\r\n\r\nand \"quotes\" \\ ".into(), "ünïcödé ✓".into(), "0123456789".repeat(3000)] }
const TYPES: &[&str] = &["text/plain", "application/json", "text/html; charset=utf-8", "image/svg+xml"];
/// Asks for everything twice on one connection and compares.
fn check_dummy(r: &[Route], asks: &[(&str, &str)]) {
    for round in 0..2 {
        let mut c = Client::connect();
        for (m, p) in asks {
            let under = |x: &&Route| x.method == *m && (x.path == *p || p.strip_prefix(x.path.trim_end_matches('/')).map_or(false, |t| t.starts_with('/')));
            let want = r.iter().filter(under).max_by_key(|x| x.path.len());
            must_send(&mut c, format!("{} {} HTTP/1.1\r\nHost: x\r\n{}", m, p, if *m == "POST" { "Content-Length: 3\r\n\r\nabc" } else { "\r\n" }).as_bytes());
            let got = c.resp().unwrap_or_else(|e| mc::fail(format!("{} {}: {:?}", m, p, e)));
            match want {
                None => if got.status != 404 { mc::fail(format!("{} {} is not configured: {} {}", m, p, got.status, esc(&got.body))) },
                Some(w) => {
                    let t: Vec<String> = got.header("content-type").iter().map(|x| x.to_ascii_lowercase().replace(' ', "")).collect();
                    if got.status != w.status || got.body != w.content.as_bytes() || t != [w.ctype.to_ascii_lowercase().replace(' ', "")] { mc::fail(format!("{} {} (round {}): {} {:?} {}, configured {} {} {}", m, p, round, got.status, t, esc(&got.body), w.status, w.ctype, esc(w.content.as_bytes()))); }
                    mc::tag("configured");
                }
            }
        }
    }
}
fn run_dummy(args: &[&str]) -> impl FnOnce(fn(i32)) {
    let v: Vec<String> = std::iter::once("wrusdummy").chain(args.iter().copied()).map(|s| s.to_string()).collect();
    move |then| { mcstd::env::set_args(Some(v)); launch(wrusdummy::__mc_main, then) }
}
fn must_not_exit(code: i32) { mc::fail(format!("the program exits with {}", code)) }
fn must_fail(code: i32) { if code == 0 { mc::fail("the program reports success") } mc::outcome(format!("exit {}", code)); mc::tag("failure status"); }

// ------------------------------------------------------------------ C31
fn c31(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let np = Config { preempt: false, ..Config::default() };
    const R: &[(&str, &str)] = &[("/", "GET"), ("/a", "GET"), ("/a", "POST"), ("/a/b", "GET"), ("/ab", "PUT"), ("/a%20b", "DELETE"), ("/", "PATCH"), ("/a", "OPTIONS")];
    const ASK: &[(&str, &str)] = &[("GET", "/"), ("GET", "/a"), ("POST", "/a"), ("GET", "/a/b"), ("GET", "/a/bc"), ("GET", "/ab"), ("PUT", "/ab"), ("DELETE", "/a%20b"), ("POST", "/"), ("PATCH", "/a/b/c"), ("OPTIONS", "/a"), ("OPTIONS", "/"), ("TRACE", "/a"), ("GET", "/c?x=/a")];
    let mut v = vec![];
    v.push(Scen::sched("every set of routes", 0, np.clone(), move || {
        let form = mc::choose(3, "form");
        let set = mc::choose(1 << R.len().min(if th { 8 } else { 7 }), "routes");
        let cs = contents();
        let r: Vec<Route> = R.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(i, (p, m))| Route { path: p, method: m, status: [200, 201, 404, 500, 299, 418, 302, 503][i], ctype: TYPES[i % TYPES.len()].into(), content: if i == 3 { cs[2].clone() } else { format!("{} {}", m, p) } }).collect();
        let f = config_file(document(&r, form).as_bytes());
        run_dummy(&[ADDR, &f])(must_not_exit);
        check_dummy(&r, ASK);
        mc::outcome(format!("{} routes", r.len()));
    }));
    v.push(Scen::sched("every response", 0, np.clone(), move || {
        let form = mc::choose(3, "form");
        let hundreds = 2 + mc::choose(if th { 8 } else { 4 }, "status/100");
        let status = (hundreds * 100 + mc::choose(if th { 100 } else { 32 }, "status")) as u16;
        let t = TYPES[mc::choose(TYPES.len(), "type")];
        let content = if status == 204 || status == 304 { String::new() } else { contents()[mc::choose(contents().len(), "content")].clone() };
        let m = if th { ["GET", "PUT", "POST"][mc::choose(3, "method")] } else { ["GET", "PUT", "POST"][status as usize % 3] };
        let r = vec![Route { path: "/x", method: m, status, ctype: t.into(), content }];
        let f = config_file(document(&r, form).as_bytes());
        run_dummy(&[ADDR, &f])(must_not_exit);
        check_dummy(&r, &[("GET", "/x"), ("PUT", "/x"), ("POST", "/x"), ("GET", "/y")]);
        mc::outcome(format!("{}", status / 100));
    }));
    // as many routes and as long contents as one likes
    v.push(Scen::sched("configurations of every size", 0, Config { switch_cost: 1, max_steps: 4_000_000, ..np.clone() }, move || {
        let form = mc::choose(3, "form");
        const N: [usize; 16] = [2, 9, 17, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1100];
        const LEN: [usize; 19] = [1, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 8100, 8192, 65_535, 65_536, 65_537, 131_073, 1_000_001, 1_048_577];
        let k = mc::choose(N.len() + 2 * LEN.len(), "size");
        let names: Vec<String> = (0..if k < N.len() { N[k] } else { 3 }).map(|i| if i % 5 == 4 { format!("/r{}/s{}", i - 1, i) } else { format!("/r{}", i - i % 2) }).collect();
        let names: &'static [String] = Box::leak(names.into_boxed_slice());
        let r: Vec<Route> = names.iter().enumerate().map(|(i, p)| {
            let content = if k < N.len() { format!("this is {}", i) } else { let n = LEN[(k - N.len()) / 2]; let one = if k % 2 == 0 { 'x' } else { 'é' }; if i == 1 { std::iter::repeat(one).take(n).collect() } else { "short".into() } };
            Route { path: p, method: ["GET", "PUT"][i % 2], status: 200 + (i % 3) as u16, ctype: TYPES[i % TYPES.len()].into(), content }
        }).collect();
        let f = config_file(document(&r, form).as_bytes());
        run_dummy(&[ADDR, &f])(must_not_exit);
        let mut asks: Vec<(&str, &str)> = r.iter().map(|x| (x.method, x.path)).collect();
        asks.extend([("GET", "/none"), ("DELETE", names[0].as_str())]);
        check_dummy(&r, &asks);
        mc::outcome(format!("{} routes", r.len()));
    }));
    // every character in a content
    v.push(Scen::sched("every character in a content", 0, Config { switch_cost: 1, ..np.clone() }, move || {
        let form = mc::choose(3, "form");
        let block = mc::choose(if th { 64 } else { 22 }, "characters") as u32;
        let content: String = (block * 100..(block + 1) * 100).map(|c| if block >= 20 { c * 517 } else { c }).filter(|c| *c >= 32 || matches!(*c, 9 | 10 | 13)).filter_map(char::from_u32).filter(|c| !c.is_control() || (*c as u32) < 32).filter(|c| !matches!(*c as u32, 0xfeff | 0xfffe | 0xffff)).collect();
        let r = vec![Route { path: "/x", method: "GET", status: 200, ctype: "text/plain".into(), content: content.clone() }, Route { path: "/y", method: "GET", status: 200, ctype: "text/plain".into(), content: content.chars().rev().collect() }];
        let f = config_file(document(&r, form).as_bytes());
        run_dummy(&[ADDR, &f])(must_not_exit);
        check_dummy(&r, &[("GET", "/x"), ("GET", "/y")]);
        mc::outcome("served");
    }));
    // contents put together from pieces that mean something to somebody
    const PIECES: &[&str] = &["", " ", "\n", "\r\n", "\t", "a", "B", "\"", "'", "#", "- x", ": ", "${HOME}", "{{x}}", "%20", "\\n", "\\", "null", "1", "~", "&amp;", "<b>", "é", "{}"];
    v.push(Scen::sched("contents of pieces", 0, Config { switch_cost: 1, ..np.clone() }, move || {
        let form = mc::choose(3, "form");
        let n = PIECES.len();
        let (x, y) = (PIECES[mc::choose(n, "first")], PIECES[mc::choose(if th { n } else { 5 }, "second")]);
        let names: Vec<String> = (0..n).map(|i| format!("/c{}", i)).collect();
        let names: &'static [String] = Box::leak(names.into_boxed_slice());
        let r: Vec<Route> = names.iter().enumerate().map(|(i, p)| Route { path: p, method: "GET", status: 200, ctype: TYPES[i % TYPES.len()].into(), content: format!("{}{}{}", x, y, PIECES[i]) }).collect();
        let f = config_file(document(&r, form).as_bytes());
        run_dummy(&[ADDR, &f])(must_not_exit);
        let asks: Vec<(&str, &str)> = r.iter().map(|x| (x.method, x.path)).collect();
        check_dummy(&r, &asks);
        mc::outcome("served");
    }));
    // schedules: two clients at once
    v.push(Scen::sched("two clients at once under preemption", if th { 2 } else { 1 }, Config { switch_cost: 1, ..Config::default() }, move || {
        let r = vec![Route { path: "/", method: "GET", status: 200, ctype: "text/plain".into(), content: "root".into() }, Route { path: "/a", method: "POST", status: 201, ctype: "text/plain".into(), content: "made".into() }];
        let f = config_file(document(&r, 0).as_bytes());
        run_dummy(&[ADDR, &f])(must_not_exit);
        let hs: Vec<_> = (0..2).map(|k| { let r = r.clone(); mc::client(&format!("client{}", k), move || check_dummy(&r, &[("GET", "/a"), ("POST", "/a"), ("PUT", "/a")][k..k + 2])) }).collect();
        for x in hs { x.join().unwrap(); }
        mc::outcome("served");
    }));
    // what is not a configuration
    let good = "r:\n  path: /\n  method: GET\n  response:\n    status: 200\n    content: c\n    type: text/plain\n";
    let bad: Vec<Vec<u8>> = {
        let mut b: Vec<String> = vec!["nonsense".into(), "[]".into(), "- a\n- b\n".into(), "r: 1\n".into(), "r: [1, 2]\n".into(), "{".into(), "a: b: c\n".into(), "r:\n\t- x\n".into(), "r: {}\n".into(), "\"".into(), "&a *b".into()];
        for l in ["  path: /\n", "  method: GET\n", "    content: c\n", "    type: text/plain\n"] { b.push(good.replace(l, "")); }
        for m in ["get", "Get", "FETCH", "\"\"", "\"GET \"", "\" GET\"", "\"GET\\n\"", "1", "null", "[GET]", "GET,POST", "G", "GETT"] { b.push(good.replace("GET", m)); }
        for t in ["text", "\"\"", "/plain", "\"text plain\"", "text/plain/x", "a/b/c", "\"text/plain; charset\"", "\";\""] { b.push(good.replace("text/plain", t)); }
        for s in ["-1", "65536", "abc", "200.5", "\"200\"", "[200]", "null", "99999999999999999999"] { b.push(good.replace("200", s)); }
        // a good route and a bad one
        let more: Vec<String> = b.iter().skip(11).map(|x| format!("{}{}", good.replace("r:", "first:"), x)).collect();
        let more2: Vec<String> = b.iter().skip(11).map(|x| format!("{}{}", x, good.replace("r:", "second:").replace("path: /", "path: /other"))).collect();
        b.extend(more);
        b.extend(more2);
        let mut b: Vec<Vec<u8>> = b.into_iter().map(|s| s.into_bytes()).collect();
        b.push(vec![0xff, 0xfe, 0x00]);
        b.push(vec![0]);
        // cut in the middle of the last route
        for n in 4..good.len() - 12 { b.push(good.as_bytes()[..n].to_vec()); }
        b
    };
    let bad = Arc::new(bad);
    v.push(Scen::sched("invalid configurations", 0, np.clone(), move || {
        let k = mc::choose((bad.len() + 15) / 16, "document/16") * 16 + mc::choose(16, "document");
        let Some(t) = bad.get(k) else { return };
        let f = config_file(t);
        run_dummy(&[ADDR, &f])(must_fail);
        mc::fail(format!("the program goes on with the configuration {}", esc(t)));
    }));
    v.push(Scen::sched("arguments and addresses", 0, np.clone(), move || {
        let f = config_file(good.as_bytes());
        let d = std::env::var("MC_SCRATCH").unwrap();
        let none = format!("{}/none", d);
        let args: Vec<Vec<&str>> = vec![vec![], vec![ADDR], vec![ADDR, &f, "x"], vec![ADDR, &none], vec![ADDR, &d], vec!["nonsense", &f], vec!["127.0.0.1", &f], vec!["", &f], vec!["8.8.8.8:80", &f], vec!["127.0.0.1:99999", &f], vec![&f, ADDR], vec![ADDR, ""]];
        let k = mc::choose(args.len() + 1, "arguments");
        if k == args.len() {
            let l = mcstd::net::TcpListener::bind(ADDR).unwrap();
            run_dummy(&[ADDR, &f])(must_fail);
            drop(l);
            mc::fail("the program goes on although the address is in use");
        }
        run_dummy(&args[k])(must_fail);
        mc::fail(format!("the program goes on with the arguments {:?}", args[k]));
    }));
    v.push(Scen::sched("a failing accept or poll does not end the program", 1, Config { faults: vec![Fault::AcceptAborted, Fault::AcceptEmfile, Fault::AcceptWouldBlock, Fault::AcceptIntr, Fault::PollWaitIntr], ..np.clone() }, move || {
        let r = vec![Route { path: "/", method: "GET", status: 200, ctype: "text/plain".into(), content: "root".into() }];
        let f = config_file(document(&r, 0).as_bytes());
        run_dummy(&[ADDR, &f])(must_not_exit);
        // the connection that is hit is lost
        for _ in 0..2 { if let Ok(mut c) = Client::try_to(ADDR) { let _ = c.send(&get("/")); let _ = c.resp(); } }
        mc::set_faults(&[]);
        check_dummy(&r, &[("GET", "/"), ("POST", "/")]);
        mc::outcome("served");
    }));
    v
}

// ------------------------------------------------------------------ C32
fn data(n: &str) -> String { format!("{}/../data/{}", env!("CARGO_MANIFEST_DIR"), n) }
const SITE: &[&str] = &["/index.html", "/a/t.txt", "/a/b/data.bin", "/nothing", "/big.bin"];
fn c32_groups(tier: &str) -> Groups {
    let site = data("site");
    let a = |v: &[&str]| Some(std::iter::once("wrustatic").chain(v.iter().copied()).map(|s| s.to_string()).collect::<Vec<String>>());
    let mut g: Groups = vec![("args".into(), None), ("plain".into(), a(&[ADDR, &site]))];
    for k in if tier == "thorough" { vec!["ed25519", "rsa"] } else { vec!["ed25519"] } {
        g.push((format!("tls {}", k), a(&["--tls-cert", &data(&format!("{}.crt", k)), ADDR, &site, "--tls-private", &data(&format!("{}.key", k))])));
    }
    g
}
enum Conn { Plain(Client), Tls(Tls) }
impl Conn {
    fn new(tls: bool, v12: bool) -> Conn {
        if !tls { return Conn::Plain(Client::connect()); }
        let mut t = Tls::new(&client_cfg(v12, None));
        if let Err(e) = t.handshake() { mc::fail(format!("the handshake fails: {:?}", e)); }
        Conn::Tls(t)
    }
    fn ask(&mut self, b: &[u8]) -> Result<Resp, RErr> {
        match self { Conn::Plain(c) => { must_send(c, b); c.resp() } Conn::Tls(t) => { t.send(b).map_err(|e| RErr::Io(e.kind()))?; t.resp() } }
    }
}
fn ask_site(c: &mut Conn, m: &str, p: &str) {
    let r = c.ask(format!("{} {} HTTP/1.1\r\nHost: localhost\r\n\r\n", m, p).as_bytes()).unwrap_or_else(|e| mc::fail(format!("{} {}: {:?}", m, p, e)));
    let f = if m == "GET" && SITE.contains(&p) { std::fs::read(format!("{}{}", data("site"), p)).ok() } else { None };
    if r.text().contains("OUTSIDE") { mc::fail(format!("{} {} serves a file outside the directory", m, p)); }
    match f {
        Some(f) => { if r.status != 200 || r.body != f { mc::fail(format!("{} {}: {} with {} bytes, the file has {}", m, p, r.status, r.body.len(), f.len())); } mc::tag("file served"); }
        None => if !(400..600).contains(&r.status) { mc::fail(format!("{} {}: {} {}", m, p, r.status, esc(&r.body))); },
    }
}
const OTHER: &[(&str, &str)] = &[("GET", "/"), ("GET", "/a"), ("GET", "/none"), ("GET", "/../outside.txt"), ("GET", "/a/../../outside.txt"), ("GET", "/%2e%2e/outside.txt"), ("POST", "/index.html"), ("DELETE", "/a/t.txt"), ("GET", "/empty.dir"), ("GET", "/index.html/x")];
fn c32(tier: &str, group: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    if group == "args" { return c32_args(th); }
    let tls = group.starts_with("tls");
    let np = Config { preempt: false, ..Config::default() };
    let mut v = vec![];
    v.push(Scen::sched(format!("{}: every pair of requests on one connection", group), 0, np.clone(), move || {
        launch(wrustatic::__mc_main, must_not_exit);
        let all: Vec<(&str, &str)> = SITE.iter().map(|p| ("GET", *p)).chain(OTHER.iter().copied()).collect();
        let v12 = tls && mc::choose(2, "TLS 1.2") == 1;
        let mut c = Conn::new(tls, v12);
        for _ in 0..2 { let (m, p) = all[mc::choose(all.len(), "request")]; ask_site(&mut c, m, p); }
        drop(c);
        mc::outcome("served");
    }));
    v.push(Scen::sched(format!("{}: two clients at once under preemption", group), if th { 2 } else { 1 }, Config { switch_cost: 1, ..Config::default() }, move || {
        launch(wrustatic::__mc_main, must_not_exit);
        let hs: Vec<_> = (0..2).map(|k| mc::client(&format!("client{}", k), move || { let mut c = Conn::new(tls, false); for p in [SITE[k], SITE[k + 1]] { ask_site(&mut c, "GET", p); } })).collect();
        for x in hs { x.join().unwrap(); }
        mc::outcome("served");
    }));
    v.push(Scen::sched(format!("{}: a client of the other protocol, a silent one and a closed one do not matter", group), if th { 2 } else { 1 }, Config { switch_cost: 1, ..Config::default() }, move || {
        launch(wrustatic::__mc_main, must_not_exit);
        let mut bad = Client::connect();
        match mc::choose(4, "other client") {
            0 => { let _ = bad.send(if tls { b"GET /index.html HTTP/1.1\r\n\r\n" } else { b"\x16\x03\x01\x00\x05\x01\x00\x00\x01\x00\r\n\r\n" }); }
            1 => {}
            2 => bad.fin(),
            _ => { let c = Client::connect(); c.s.mc_reset(); }
        }
        let mut c = Conn::new(tls, false);
        ask_site(&mut c, "GET", SITE[0]);
        drop(c);
        // the program gives up on it some time
        bad.timeout(120_000);
        let (got, e) = bad.drain();
        if e.is_some() && e != Some(io::ErrorKind::ConnectionReset) { mc::fail(format!("the other client is not closed: {} {:?}", esc(&got), e)); }
        mc::outcome(format!("{:?}", e));
    }));
    v.push(Scen::sched(format!("{}: the address is in use", group), 0, np, move || {
        let l = mcstd::net::TcpListener::bind(ADDR).unwrap();
        launch(wrustatic::__mc_main, must_fail);
        drop(l);
        mc::fail("the program goes on although the address is in use");
    }));
    v
}
/// Entry point of the process the argument enumeration starts: one execution of the program with the arguments of the process.
pub fn static_main() -> ! {
    let o = mcstd::rt::run(Config { preempt: false, ..Config::default() }, &[], 0, || {
        launch(wrustatic::__mc_main, |c| { println!("exit {}", c); });
        let mut c = Client::try_to(ADDR).unwrap_or_else(|e| mc::fail(format!("nobody listens: {}", e)));
        let _ = c.send(&get("/index.html"));
        match c.resp() {
            Ok(r) if r.status == 200 && r.body == b"index of the site\n" => { println!("plain"); return; }
            Ok(r) => { println!("plain {}", r.status); return; }
            Err(_) => {}
        }
        let mut t = Tls::new(&client_cfg(false, None));
        if let Err(e) = t.handshake() { println!("neither plain nor TLS: {:?}", e); return; }
        let _ = t.send(&get("/index.html"));
        match t.resp() { Ok(r) if r.status == 200 && r.body == b"index of the site\n" => println!("tls"), x => println!("tls {:?}", x.map(|r| r.status)) }
    });
    if let Some(v) = o.violation { println!("violation {}", v); }
    unsafe { libc::fflush(std::ptr::null_mut()) };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}
/// What the program does with these arguments: what it printed and how it ended.
fn static_with(args: &[String]) -> (String, Option<i32>) {
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg0("wrustatic").args(args).env_remove("MC_WORKER").env("MC_APP", "wrustatic").stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    let o = c.output().expect("wrustatic");
    (String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").to_string(), o.status.code())
}
fn c32_args(th: bool) -> Vec<Scen> {
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum T { Addr, Dir, Key(usize), Cert(usize), Both }
    let keys: Vec<(String, bool)> = vec![(data("ed25519.key"), true), (data("none.key"), false), (data("site"), false), (data("ed25519.crt"), false), (data("site/nothing"), false), (data("req.pem"), false)];
    let certs: Vec<(String, bool)> = vec![(data("ed25519.crt"), true), (data("none.crt"), false), (data("site"), false), (data("ed25519.key"), false), (data("site/nothing"), false), (data("req.pem"), false)];
    let verdict = |args: &[String], want: &str| -> Result<String, String> {
        let (out, code) = static_with(args);
        let got = if let Some(c) = out.strip_prefix("exit ") { if c == "0" { "success".into() } else { "failure".to_string() } } else if out == "plain" || out == "tls" { out.clone() } else if code.map_or(true, |c| c != 0) { if code == Some(101) || code.is_none() { format!("crash {:?}", code) } else { "failure".into() } } else { format!("{:?} {:?}", out, code) };
        if got != want { return Err(format!("wrustatic {:?}: {} instead of {}", args, got, want)); }
        Ok(want.to_string())
    };
    let mut v = vec![];
    // key and certificate files, in every order of the arguments, both ways of writing an option
    let orders: Vec<Vec<usize>> = { let mut o = vec![]; for a in 0..4 { for b in 0..4 { for c in 0..4 { for d in 0..4 { let x = vec![a, b, c, d]; let mut s = x.clone(); s.sort(); if s == [0, 1, 2, 3] && x.iter().position(|k| *k == 0) < x.iter().position(|k| *k == 1) { o.push(x); } } } } } o };
    let (k2, c2) = (keys.clone(), certs.clone());
    let no = if th { orders.len() } else { 3 };
    v.push(Scen::cases("key and certificate files", (k2.len() * c2.len() * no * 2) as u64, 4, move |i| {
        let mut d = Dig(i);
        let (k, kok) = d.of(&k2).clone();
        let (c, cok) = d.of(&c2).clone();
        let o = &orders[d.n(no as u64) as usize * (orders.len() / no)];
        let eq = d.n(2) == 1;
        let parts: [Vec<String>; 4] = [vec![ADDR.into()], vec![data("site")], if eq { vec![format!("--tls-private={}", k)] } else { vec!["--tls-private".into(), k.clone()] }, if eq { vec![format!("--tls-cert={}", c)] } else { vec!["--tls-cert".into(), c.clone()] }];
        let args: Vec<String> = o.iter().flat_map(|x| parts[*x].clone()).collect();
        verdict(&args, if kok && cok { "tls" } else { "failure" })
    }));
    v.push(Scen::cases("pairs of key and certificate", 5, 1, move |i| {
        let (k, c) = [("ed25519.key", "ed25519.crt"), ("ec.key", "ec.crt"), ("ec8.key", "ec.crt"), ("rsa.key", "rsa.crt"), ("rsa8.key", "rsa.crt")][i as usize];
        verdict(&[ADDR.to_string(), data("site"), "--tls-private".into(), data(k), "--tls-cert".into(), data(c)], "tls")
    }));
    // every sequence of arguments
    let toks: Vec<(T, Vec<String>)> = vec![(T::Addr, vec![ADDR.into()]), (T::Dir, vec![data("site")]), (T::Key(0), vec!["--tls-private".into(), keys[0].0.clone()]), (T::Cert(0), vec!["--tls-cert".into(), certs[0].0.clone()]), (T::Both, vec!["--bogus".into()])];
    for n in 0..=if th { 5u32 } else { 4 } {
        let toks = toks.clone();
        v.push(Scen::cases(format!("sequences of {} arguments", n), (toks.len() as u64).pow(n), 8, move |i| {
            let mut d = Dig(i);
            let seq: Vec<&(T, Vec<String>)> = (0..n).map(|_| d.of(&toks)).collect();
            let args: Vec<String> = seq.iter().flat_map(|x| x.1.clone()).collect();
            let pos: Vec<T> = seq.iter().map(|x| x.0).filter(|t| matches!(t, T::Addr | T::Dir)).collect();
            let nk = seq.iter().filter(|x| matches!(x.0, T::Key(_))).count();
            let nc = seq.iter().filter(|x| matches!(x.0, T::Cert(_))).count();
            let bogus = seq.iter().any(|x| x.0 == T::Both);
            let ok = pos == [T::Addr, T::Dir] && !bogus && nk == nc && nk <= 1;
            // an address for the directory: nothing is served, as with every directory that is not there
            if pos == [T::Addr, T::Addr] && !bogus && nk == nc && nk <= 1 { return Ok("-no such directory".into()); }
            verdict(&args, if !ok { "failure" } else if nk == 1 { "tls" } else { "plain" })
        }));
    }
    v.push(Scen::cases("other addresses", 7, 1, move |i| {
        let a = ["nonsense", "", "127.0.0.1", "127.0.0.1:99999", "8.8.8.8:80", ":8082", "127.0.0.1:8082:1"][i as usize];
        verdict(&[a.to_string(), data("site")], "failure")
    }));
    v
}
