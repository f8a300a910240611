//! Message level properties: C05, C06, C08, C09, C29.
use super::gen::*;
use super::util::*;
use super::{one_group, Prop, P0};
use crate::engine::Scen;
use std::io::{self, Cursor, Read};
use std::str::FromStr;
use std::sync::Arc;
use wruster::http::errors::HttpError;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode, Version};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C05", level: "exploration", scen: c05, rule: "every generated message (grammar product, all one-site corruptions, all byte strings over a token alphabet), each delivered whole, byte by byte and (base messages) split at every position; inputs are deduplicated; non-trivial: the reference parser gives a verdict (accept or reject), i.e. not left open by the grammar", groups: one_group,
            assumptions: &["the reference parser in harness/src/props/gen.rs states the grammar (RFC 7230)", "inputs outside the generated sets are not covered", "obs-text, chunked encoding, repeated equal Content-Length and unusual media types are left open"], ..P0 },
        Prop { id: "C06", level: "exploration", scen: c06, rule: "all letter-case patterns of the framing header names, all repetitions and white-space paddings over small alphabets, each parsed by the real code and compared with the reference; every case is distinct by construction (mixed-radix index) and non-trivial (it has a header whose spelling or padding varies)", groups: one_group, assumptions: &["non-ASCII header values are outside the domain"], ..P0 },
        Prop { id: "C08", level: "fault_enumeration", scen: c08, rule: "messages x short-write patterns x an error (or a write of zero bytes) injected at every write call; messages read back under short-read patterns; indices are distinct by construction, a case is non-trivial when the message was written at least in part", groups: one_group, assumptions: &["header order on the wire is whatever the map yields", "Request::from (a body without Content-Length, pinned by an existing test) is outside the domain"], ..P0 },
        Prop { id: "C09", level: "exploration", scen: c09, rule: "all codes 100..=999 through parse, print and clone; all known names; all strings up to length 4 over a small alphabet plus every case variant and one-letter edit of the names; distinct by construction, all non-trivial", groups: one_group, assumptions: &["reason phrases follow the RFC 7231 names used by the crate; only their uniqueness per known code and stability are checked, and the RFC words case-insensitively"], ..P0 },
        Prop { id: "C36", level: "exploration", scen: c36, rule: "every generated response (grammar product, all one-site corruptions, all token sequences, every status line, every pair of bytes at every place), delivered whole and in pieces; non-trivial: the reference parser gives a verdict (accept or reject), i.e. not left open by the grammar", groups: one_group,
            assumptions: &["the reference parser in harness/src/props/gen.rs states the grammar (RFC 7230)", "inputs outside the generated sets are not covered", "1xx, 204 and 304 responses, codes below 100, obs-text and control characters in the reason phrase, chunked encoding and unusual media types are left open"], ..P0 },
        Prop { id: "C29", level: "fault_enumeration", scen: c29, rule: "message x chunk size x error kind (or end of input) injected at every read or write call; non-trivial when the fault was reached", groups: one_group, assumptions: &["reset is accepted as any error", "errors other than TimedOut and a close before the message may map to any error variant"], ..P0 },
    ]
}

fn got(r: Request) -> Result<RefReq, String> {
    let mut headers = vec![];
    for (n, vs) in hdrs(&r.headers) { for v in vs { headers.push((n.to_ascii_lowercase(), v)); } }
    let mut body = vec![];
    if let Some(mut b) = r.body {
        if let Err(e) = b.content.read_to_end(&mut body) { return Err(format!("body: {:?}", e.kind())); }
        if body.len() as u64 != b.content_length { return Err(format!("body of {} bytes with length {}", body.len(), b.content_length)); }
    }
    Ok(RefReq { method: r.method.to_string(), target: r.uri, version: r.version, headers, body, consumed: 0 })
}
fn norm(mut r: RefReq) -> RefReq {
    r.consumed = 0;
    // the order between different names is not observable, the order within a name is
    r.headers.sort_by(|a, b| a.0.cmp(&b.0));
    r
}
fn parse(b: &[u8], cuts: Vec<usize>, max: usize) -> Result<RefReq, String> { REQ.parse(b, cuts, max) }
fn got_response(r: Response) -> Result<RefReq, String> {
    let code = usize::from(&r.status).to_string();
    let mut q = got(Request { method: HttpMethod::GET, uri: code, version: String::new(), headers: r.headers, body: r.body })?;
    q.method = String::new();
    Ok(q)
}
/// A reader of messages and what it must make of them.
#[derive(Clone, Copy)]
struct Msg { read: fn(Pieces) -> Result<RefReq, String>, want: fn(&[u8]) -> Verdict }
const REQ: Msg = Msg { read: |p| match Request::read_from(p) { Ok(r) => got(r), Err(e) => Err(format!("{:?}", e)) }, want: ref_request };
const RESP: Msg = Msg { read: |p| match Response::read_from(p) { Ok(r) => got_response(r), Err(e) => Err(format!("{:?}", e)) }, want: ref_response };
impl Msg {
    fn parse(&self, b: &[u8], cuts: Vec<usize>, max: usize) -> Result<RefReq, String> {
        let mut p = Pieces::new(b, cuts);
        p.max = max;
        (self.read)(p)
    }
    /// One input, in one piece and in pieces of at most `max`.
    fn check(&self, b: &[u8], max: Option<usize>) -> Result<String, String> {
        let v = (self.want)(b);
        judge(b, &v, &self.parse(b, vec![], usize::MAX), "in one piece")?;
        if let Some(m) = max { judge(b, &v, &self.parse(b, vec![], m), &format!("in pieces of {}", m))?; }
        Ok(class(&v))
    }
}
/// Long tokens of every length, with every kind of octet behind them, in every place.
fn long_tokens(msg: Msg, places: &'static [(&'static str, &'static str)], th: bool) -> Scen {
    let ns = Arc::new(lengths(if th { 700 } else { 260 }, if th { 18 } else { 14 }));
    let (n, p) = (ns.len() as u64, places.len() as u64);
    Scen::cases("long tokens with other characters", n * p * 12 * 2, 60, move |i| {
        let mut d = Dig(i);
        let at = places[d.n(p) as usize];
        let tail = TAILS[d.n(12) as usize];
        let after = d.n(2) == 1;
        let mut t = tail.to_vec();
        if after { t.extend(b"zyx"); }
        msg.check(&mixed(at, ns[d.n(n) as usize], &t), Some(61))
    })
}
/// Compare one delivery of an input with the reference verdict.
fn judge(b: &[u8], v: &Verdict, res: &Result<RefReq, String>, how: &str) -> Result<(), String> {
    let bad = |m: &str| Err(format!("{} ({}): input \"{}\" -> {:?}", m, how, esc(b), res));
    match (v, res) {
        (Verdict::Ok(r), Ok(g)) => { let (r, g) = (norm(r.clone()), norm(g.clone())); if r != g { return Err(format!("parsed differently ({}): input \"{}\"\n expected {:?}\n got {:?}", how, esc(b), r, g)); } }
        (Verdict::Ok(_), Err(_)) => return bad("a well-formed message is rejected"),
        (Verdict::ShortBody(..), Ok(_)) => return bad("a truncated body is taken for a complete one"),
        (Verdict::Reject(w), Ok(_)) => return bad(&format!("a malformed message is accepted: {}", w)),
        (Verdict::Incomplete, Ok(_)) => return bad("an incomplete message is accepted"),
        _ => {}
    }
    Ok(())
}
fn class(v: &Verdict) -> String {
    match v { Verdict::Ok(_) => "well formed".into(), Verdict::ShortBody(..) => "short body".into(), Verdict::Reject(w) => format!("malformed: {}", w), Verdict::Incomplete => "incomplete".into(), Verdict::Either(w) => format!("-open: {}", w) }
}
/// Lengths and numbers around every power of two, which is where buffers, counters and limits end.
fn powers(msg: Msg, start: &'static str, has_target: bool, th: bool) -> Scen {
    let mut ns: Vec<usize> = (8..if th { 21 } else { 18 }).flat_map(|k| [-1i64, 0, 1].map(|o| ((1i64 << k) + o) as usize)).collect();
    ns.extend([1000, 1001, 10_000, 10_001, 100_000, 100_001]);
    let ns = Arc::new(ns);
    let n = ns.len() as u64;
    Scen::cases("lengths and numbers around powers of two", n * 8 * 2, 4, move |i| {
        let mut d = Dig(i);
        let n = ns[d.n(ns.len() as u64) as usize];
        let kind = d.n(8);
        let m = *d.of(&[usize::MAX, 1000]);
        let x = || -> String { (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect() };
        if !has_target && (kind == 0 || kind == 6) { return Ok("-requests only".into()); }
        let line = if has_target && kind == 0 { format!("GET /{} HTTP/1.1\r\n", x()) } else if has_target && kind == 6 { format!("GET {} HTTP/1.1\r\n", "/s".repeat(n)) } else { start.to_string() };
        let (fields, body) = match kind {
            1 => (format!("N{}: v\r\nLast: 1\r\n", x()), String::new()),
            2 => (format!("N: {}\r\nLast: 1\r\n", x()), String::new()),
            3 => (String::new(), x()),
            4 => ((0..n).map(|k| format!("N{}: {}\r\n", k, k * 3)).collect(), "ab".into()),
            5 => ((0..n).map(|k| format!("{}: {}\r\n", if k % 2 == 0 { "Same" } else { "sAME" }, k)).collect(), String::new()),
            7 => (format!("N:{}v\r\nM:w{}\r\n", " ".repeat(n), "\t".repeat(n)), String::new()),
            _ => (String::new(), String::new()),
        };
        let b = format!("{}{}Content-Length: {}\r\n\r\n{}NEXT", line, fields, body.len(), body).into_bytes();
        let v = (msg.want)(&b);
        let r = msg.parse(&b, vec![], m);
        if let (Verdict::Ok(_), Ok(_)) = (&v, &r) { judge(&b, &v, &r, "").map_err(|_| format!("kind {} of {} in chunks of {}: parsed differently", kind, n, m))?; return Ok(class(&v)); }
        judge(&b[..b.len().min(100)], &v, &r, "").map_err(|e| format!("kind {} of {} in chunks of {}: {}", kind, n, m, e))?;
        Ok(class(&v))
    })
}
/// Fields with a meaning of their own, absent, once or twice, two names at a time: only the framing fields steer the reader.
const KNOWN: [&str; 42] = ["Accept", "Accept-Charset", "Accept-Encoding", "Accept-Language", "Accept-Ranges", "Age", "Allow", "Authorization", "Cache-Control", "Connection", "Content-Encoding", "Content-Language", "Content-Location", "Content-MD5", "Content-Range", "Content-Type", "Cookie", "Date", "ETag", "Expect", "Expires",
    "From", "If-Match", "If-Modified-Since", "If-None-Match", "Keep-Alive", "Last-Modified", "Location", "Max-Forwards", "Origin", "Pragma", "Proxy-Connection", "Range", "Referer", "Server", "Set-Cookie", "TE", "Trailer", "Upgrade", "User-Agent", "Via", "X-Forwarded-For"];
fn known(msg: Msg, start: &'static str) -> Scen {
    const VALUES: [[&str; 2]; 8] = [["text/plain", "application/json"], ["0", "5"], ["100-continue", "100-continue"], ["a, b", "close"], ["bytes=0-1", "gzip;q=0.5"], ["h2c", "chunked"], ["", "x"], ["Mon, 01 Jan 2020 00:00:00 GMT", "http://h/?a=b#c"]];
    Scen::cases("fields that have a meaning", 42 * 42 * 8 * 4, 2000, move |i| {
        let mut d = Dig(i);
        let (a, b) = (KNOWN[d.n(42) as usize], KNOWN[d.n(42) as usize]);
        let v = *d.of(&VALUES);
        let (order, body) = (d.n(2), *d.of(&["", "hello"]));
        let f = |n: &str, k: usize| format!("{}: {}\r\n", n, if n == "Content-Type" { ["text/plain", "application/json"][k] } else { v[k] });
        let len = format!("Content-Length: {}\r\n", body.len());
        let s = if order == 0 { format!("{}{}{}{}\r\n{}NEXT", start, f(a, 0), f(b, 1), len, body) } else { format!("{}{}{}{}\r\n{}NEXT", start, len, f(b, 0), f(a, 1), body) };
        msg.check(s.as_bytes(), None)
    })
}
fn set_scen(name: &str, inputs: Vec<Vec<u8>>, splits: bool) -> Scen { set_scen_of(REQ, name, inputs, splits) }
fn set_scen_of(msg: Msg, name: &str, inputs: Vec<Vec<u8>>, splits: bool) -> Scen {
    let inputs = Arc::new(dedup(inputs));
    let n = inputs.len() as u64;
    Scen::cases(name, n, if splits { 200 } else { 4000 }, move |i| {
        let b = &inputs[i as usize];
        let v = (msg.want)(b);
        let whole = msg.parse(b, vec![], usize::MAX);
        judge(b, &v, &whole, "in one piece")?;
        let same = |cuts: Vec<usize>, max: usize, how: String| -> Result<(), String> {
            let r = msg.parse(b, cuts, max);
            judge(b, &v, &r, &how)?;
            if r.is_ok() != whole.is_ok() || (r.is_ok() && r != whole) { return Err(format!("the result depends on the chunks ({}): input \"{}\"\n whole {:?}\n chunked {:?}", how, esc(b), whole, r)); }
            Ok(())
        };
        same(vec![], 1, "byte by byte".into())?;
        if splits { for c in 1..b.len() { same(vec![c], usize::MAX, format!("split at {}", c))?; } }
        Ok(class(&v))
    })
}
fn c05(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let mut one = vec![];
    for b in base_requests() { one.extend(corrupt(&b, ADVERSARIAL)); }
    let mut two = vec![];
    for b in ["GET / HTTP/1.1\r\nA:b\r\n\r\n", "PUT / HTTP/1.0\r\nContent-Length:2\r\n\r\nhi"].iter().take(if th { 2 } else { 1 }) {
        for c in dedup(corrupt(b.as_bytes(), if th { ADVERSARIAL } else { ADV_SMALL })) { two.extend(corrupt(&c, if th { ADVERSARIAL } else { b"\r\n :" })); }
        if !th { two = dedup(two); }
    }
    // all sequences of tokens
    let toks: &[&str] = &["GET", " ", "/", "HTTP/1.1", "\r\n", "a:b", ":", "x", "\n", "Content-Length: 1\r\n"];
    let k = if th { 8u32 } else { 6 };
    let mut total = 0u64;
    for j in 0..=k { total += 10u64.pow(j); }
    let tokens = Scen::cases("all token sequences", total, 8000, move |i| {
        let (mut i, mut l) = (i, 0u32);
        while i >= 10u64.pow(l) { i -= 10u64.pow(l); l += 1; }
        let mut b = vec![];
        let mut d = Dig(i);
        // half of the sequences start behind a valid start line
        let pre: &[u8] = if l % 2 == 0 { b"GET / HTTP/1.1\r\n" } else { b"" };
        b.extend(pre);
        for _ in 0..l { b.extend(d.of(toks).as_bytes()); }
        let v = ref_request(&b);
        let whole = parse(&b, vec![], usize::MAX);
        judge(&b, &v, &whole, "in one piece")?;
        let r = parse(&b, vec![], 1);
        judge(&b, &v, &r, "byte by byte")?;
        Ok(class(&v))
    });
    // Content-Length values
    let cl = Scen::cases("content-length values", 14u64.pow(if th { 5 } else { 4 }), 4000, move |i| {
        let alpha = b"0123456789+-, ";
        let mut d = Dig(i);
        let mut s = vec![];
        for _ in 0..if th { 5 } else { 4 } { s.push(*d.of(alpha)); }
        let body = b"0123456789abcdef";
        let mut b = b"POST / HTTP/1.1\r\nContent-Length:".to_vec();
        b.extend(&s);
        b.extend(b"\r\n\r\n");
        b.extend(body);
        let v = ref_request(&b);
        judge(&b, &v, &parse(&b, vec![], usize::MAX), "in one piece")?;
        Ok(class(&v))
    });
    let big: Vec<Vec<u8>> = ["18446744073709551615", "18446744073709551616", "99999999999999999999999", "9223372036854775808", "0x5", "5\t", "\t5", "", "5;", "٥", "1e1", "5.0", "0005", "00000000000000000000000000000005"].iter()
        .map(|s| format!("POST / HTTP/1.1\r\nContent-Length: {}\r\n\r\nhello", s).into_bytes()).collect();
    // long messages: buffers of the reader are crossed
    let mut long = vec![];
    for n in [100usize, 4090, 8180, 8191, 8192, 8193, 20000] {
        let x = "x".repeat(n);
        long.push(format!("GET /{} HTTP/1.1\r\n\r\n", x).into_bytes());
        long.push(format!("GET / HTTP/1.1\r\nLong: {}\r\nLast: y\r\n\r\n", x).into_bytes());
        long.push(format!("POST / HTTP/1.1\r\n{}: v\r\nContent-Length: 3\r\n\r\nabc", x).into_bytes());
        long.push(format!("POST / HTTP/1.1\r\nContent-Length: {}\r\n\r\n{}", n, x).into_bytes());
    }
    let long = Arc::new(long);
    let nl = long.len() as u64;
    let longs = Scen::cases("long messages", nl * 6, 4, move |i| {
        let b = &long[(i / 6) as usize];
        let m = [usize::MAX, 1, 7, 1000, 8191, 8192][(i % 6) as usize];
        let v = ref_request(b);
        judge(b, &v, &parse(b, vec![], m), &format!("chunks of {}", m))?;
        Ok(class(&v))
    });
    // every pair of bytes at every place of a request
    const PLACES: [(&str, &str); 16] = [("GET /", " HTTP/1.1\r\n\r\n"), ("GET ", " HTTP/1.1\r\n\r\n"), ("GET /a?b=c", " HTTP/1.0\r\n\r\n"), ("POST /a", "/b HTTP/1.1\r\nContent-Length: 2\r\n\r\nhi"), ("GET http://h/", " HTTP/1.1\r\n\r\n"),
        ("GET / HTTP/1.1\r\n", ": v\r\n\r\n"), ("GET / HTTP/1.1\r\nX", "Y: v\r\n\r\n"), ("GET / HTTP/1.1\r\nX", ": v\r\n\r\n"), ("GET / HTTP/1.1\r\nX: ", "\r\n\r\n"), ("GET / HTTP/1.1\r\nX: v", "w\r\nY: z\r\n\r\n"), ("GET / HTTP/1.1\r\nX:", "v\r\n\r\n"), ("GET / HTTP/1.1\r\nHost: a", "\r\n\r\n"),
        ("", " / HTTP/1.1\r\n\r\n"), ("GET / HTTP/", ".1\r\n\r\n"), ("GET / HTTP/1", "\r\n\r\n"), ("POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\n", "")];
    let pairs = Scen::cases("every pair of bytes at every place", 65536 * 16, 4000, move |i| {
        let mut d = Dig(i);
        let (pre, post) = PLACES[d.n(16) as usize];
        let b = [pre.as_bytes(), &[d.n(256) as u8, d.n(256) as u8], post.as_bytes()].concat();
        let v = ref_request(&b);
        judge(&b, &v, &parse(&b, vec![], usize::MAX), "in one piece")?;
        if th { judge(&b, &v, &parse(&b, vec![], 1), "byte by byte")?; }
        Ok(class(&v))
    });
    // lengths and numbers of everything, one by one
    let top = if th { 1200 } else { 300u64 };
    let counts = Scen::cases("lengths and numbers", top * 8 * 3, 100, move |i| {
        let mut d = Dig(i);
        let kind = d.n(8);
        let m = [usize::MAX, 1, 13][d.n(3) as usize];
        let n = d.n(top) as usize;
        let x: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
        let b = match kind {
            0 => format!("GET /{} HTTP/1.1\r\n\r\n", x),
            1 => format!("GET / HTTP/1.1\r\nN{}: v\r\nLast: 1\r\n\r\n", x),
            2 => format!("GET / HTTP/1.1\r\nN: {}\r\nLast: 1\r\n\r\n", x),
            3 => format!("POST / HTTP/1.1\r\nContent-Length: {}\r\n\r\n{}GET /", n, x),
            4 => format!("GET / HTTP/1.1\r\n{}\r\n", (0..n).map(|k| format!("N{}: {}\r\n", k, k * 3)).collect::<String>()),
            5 => format!("GET / HTTP/1.1\r\n{}\r\n", (0..n).map(|k| format!("{}: {}\r\n", if k % 2 == 0 { "Same" } else { "sAME" }, k % 7)).collect::<String>()),
            6 => format!("GET /{} HTTP/1.1\r\n\r\n", (0..n).map(|k| format!("{}/", k)).collect::<String>()),
            _ => format!("GET / HTTP/1.1\r\nN:{}v{}\r\n\r\n", " ".repeat(n), " \t".repeat(n / 2)),
        }.into_bytes();
        let v = ref_request(&b);
        judge(&b, &v, &parse(&b, vec![], m), &format!("chunks of {}", m))?;
        Ok(class(&v))
    });
    vec![
        pairs, counts, long_tokens(REQ, &LONG_REQ, th), powers(REQ, "POST / HTTP/1.1\r\n", true, th), known(REQ, "PUT / HTTP/1.1\r\n"),
        set_scen("base messages", base_requests().into_iter().chain(big).collect(), true),
        set_scen("grammar product", product_requests(), false),
        set_scen("one corruption", one, th),
        set_scen("two corruptions", two, false),
        set_scen("transfer codings", transfer_codings("POST /a HTTP/1.1\r\nHost: h\r\n", "GET /b HTTP/1.1\r\n\r\n"), false),
        tokens, cl, longs,
    ]
}

/// C36: the same for responses.
fn c36(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let mut one = vec![];
    for b in base_responses() { one.extend(corrupt(&b, ADVERSARIAL)); }
    let mut two = vec![];
    for b in ["HTTP/1.1 200 OK\r\nA:b\r\nContent-Length:1\r\n\r\nx", "HTTP/1.0 404 \r\nContent-Length: 2\r\n\r\nhi"].iter().take(if th { 2 } else { 1 }) {
        for c in dedup(corrupt(b.as_bytes(), if th { ADVERSARIAL } else { ADV_SMALL })) { two.extend(corrupt(&c, if th { ADVERSARIAL } else { b"\r\n :" })); }
    }
    let mut product = vec![];
    for v in ["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/0.9"] { for c in [200u32, 201, 299, 301, 400, 404, 418, 499, 500, 503, 599, 600, 999] { for reason in ["OK", "", "Not Found", " ", "a b  c", "200", "\t~", "caf\u{e9}", ":", "HTTP/1.1 200 OK"] {
        for h in ["", "Host: h\r\n", "X: \r\nY:v\r\n", "A: 1\r\nB: 2\r\nA: 3\r\na: 4\r\n", "Content-Type: text/plain\r\n", "Connection: close\r\nSet-Cookie: a=b; c\r\nSet-Cookie: d\r\n"] {
            for body in ["", "x", "hello", "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"] { for trail in ["", "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"] {
                product.push(format!("{} {} {}\r\n{}Content-Length: {}\r\n\r\n{}{}", v, c, reason, h, body.len(), body, trail).into_bytes());
            } }
        }
    } } }
    let toks: &[&str] = &["HTTP/1.1", " ", "200", "OK", "\r\n", "a:b", "\n", "20", "Content-Length: 1\r\n", "x"];
    let k = if th { 8u32 } else { 6 };
    let total: u64 = (0..=k).map(|j| 10u64.pow(j)).sum();
    let tokens = Scen::cases("all token sequences", total, 8000, move |i| {
        let (mut i, mut l) = (i, 0u32);
        while i >= 10u64.pow(l) { i -= 10u64.pow(l); l += 1; }
        let mut d = Dig(i);
        let pre: &[u8] = if l % 2 == 0 { b"HTTP/1.1 404 Not Found\r\n" } else { b"" };
        let b: Vec<u8> = pre.iter().copied().chain((0..l).flat_map(|_| d.of(toks).bytes())).collect();
        RESP.check(&b, Some(1))
    });
    let codes = Scen::cases("every status line", 1000 * 10 * 10 * 3, 4000, |i| {
        let mut d = Dig(i);
        let c = d.n(1000);
        let (a, b) = (d.n(10), d.n(10));
        RESP.check(format!("HTTP/{}.{} {:03} {}\r\nContent-Length: 2\r\n\r\nhi", a, b, c, d.of(&["OK", "", "not so good"])).as_bytes(), None)
    });
    const PLACES: [(&str, &str); 13] = [("", " 200 OK\r\nContent-Length: 0\r\n\r\n"), ("HTTP/", " 200 OK\r\nContent-Length: 0\r\n\r\n"), ("HTTP/1.1", " 200 OK\r\nContent-Length: 0\r\n\r\n"), ("HTTP/1.1", "200 OK\r\nContent-Length: 0\r\n\r\n"), ("HTTP/1.1 2", " OK\r\nContent-Length: 0\r\n\r\n"), ("HTTP/1.1 ", "0 OK\r\nContent-Length: 0\r\n\r\n"), ("HTTP/1.1 200", "OK\r\nContent-Length: 0\r\n\r\n"),
        ("HTTP/1.1 200 O", "K\r\nContent-Length: 0\r\n\r\n"), ("HTTP/1.1 200 OK", "\r\nContent-Length: 0\r\n\r\n"), ("HTTP/1.1 200 OK\r\nX", "Y: v\r\nContent-Length: 0\r\n\r\n"), ("HTTP/1.1 200 OK\r\nContent-Length: 0\r\nX: v", "w\r\n\r\n"), ("HTTP/1.1 200 OK\r\nContent-Length: ", "\r\n\r\nhi"), ("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n", "")];
    let pairs = Scen::cases("every pair of bytes at every place", 65536 * 13, 4000, move |i| {
        let mut d = Dig(i);
        let (pre, post) = PLACES[d.n(13) as usize];
        RESP.check(&[pre.as_bytes(), &[d.n(256) as u8, d.n(256) as u8], post.as_bytes()].concat(), th.then_some(1))
    });
    let top = if th { 1200 } else { 300u64 };
    let counts = Scen::cases("lengths and numbers", top * 6 * 3, 100, move |i| {
        let mut d = Dig(i);
        let kind = d.n(6);
        let m = [4096, 1, 13][d.n(3) as usize];
        let n = d.n(top) as usize;
        let x: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
        let b = match kind {
            0 => format!("HTTP/1.1 200 {}\r\nContent-Length: 0\r\n\r\n", x),
            1 => format!("HTTP/1.1 404 No\r\nN{}: v\r\nContent-Length: 0\r\n\r\n", x),
            2 => format!("HTTP/1.1 404 No\r\nN: {}\r\nContent-Length: 0\r\n\r\n", x),
            3 => format!("HTTP/1.1 503 No\r\nContent-Length: {}\r\n\r\n{}HTTP/", n, x),
            4 => format!("HTTP/1.1 404 No\r\n{}Content-Length: 0\r\n\r\n", (0..n).map(|k| format!("N{}: {}\r\n", k, k * 3)).collect::<String>()),
            _ => format!("HTTP/1.1 404 No\r\nContent-Length: 0\r\n{}\r\n", (0..n).map(|k| format!("{}: {}\r\n", if k % 2 == 0 { "Same" } else { "sAME" }, k % 7)).collect::<String>()),
        };
        RESP.check(b.as_bytes(), Some(m))
    });
    let longs = Scen::cases("long messages", 9 * 5 * 5, 4, |i| {
        let mut d = Dig(i);
        let n = *d.of(&[4090usize, 8180, 8190, 8191, 8192, 8193, 20_000, 100_000, 1_500_000]);
        let x = "x".repeat(n);
        let b = match d.n(5) {
            0 => format!("HTTP/1.1 200 {}\r\nContent-Length: 0\r\n\r\n", x),
            1 => format!("HTTP/1.1 200 OK\r\nLong: {}\r\nContent-Length: 1\r\n\r\ny", x),
            2 => format!("HTTP/1.1 200 OK\r\n{}: v\r\nContent-Length: 3\r\n\r\nabc", x),
            3 => format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{}z", n, x),
            _ => format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{}", n + 1, x),
        };
        RESP.check(b.as_bytes(), Some(*d.of(&[7usize, 1000, 8191, 8192, 60_000])))
    });
    vec![
        set_scen_of(RESP, "base messages", base_responses(), true),
        set_scen_of(RESP, "grammar product", product, false),
        set_scen_of(RESP, "one corruption", one, th),
        set_scen_of(RESP, "two corruptions", two, false),
        set_scen_of(RESP, "transfer codings", transfer_codings("HTTP/1.1 200 OK\r\nX: y\r\n", "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"), false),
        tokens, codes, pairs, counts, longs, long_tokens(RESP, &LONG_RESP, th), powers(RESP, "HTTP/1.1 200 OK\r\n", false, th), known(RESP, "HTTP/1.0 404 Not Found\r\n"),
    ]
}

fn cased(name: &str, mask: u64) -> String {
    let mut k = 0;
    name.chars().map(|c| if c.is_ascii_alphabetic() { let up = mask >> k & 1 == 1; k += 1; if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect()
}
fn letters(name: &str) -> u32 { name.chars().filter(|c| c.is_ascii_alphabetic()).count() as u32 }

fn c06(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let mut v = vec![];
    for name in ["Content-Length", "Connection", "Content-Type", "Transfer-Encoding"] {
        v.push(Scen::cases(format!("case patterns of {}", name), 1 << letters(name), 2000, move |i| {
            let n = cased(name, i);
            let bad = |m: String| Err(format!("{} spelled {}: {}", name, n, m));
            match name {
                "Content-Length" => {
                    let s = format!("POST / HTTP/1.1\r\n{}: 5\r\n\r\nhelloREST", n);
                    match Request::read_from_str(&s) {
                        Ok(r) => {
                            if r.headers.get("Content-Length") != Some(&vec!["5".to_string()]) { return bad("not found under its usual name".into()); }
                            let g = got(r)?;
                            if g.body != b"hello" { return bad(format!("body {:?}", esc(&g.body))); }
                        }
                        Err(e) => return bad(format!("{:?}", e)),
                    }
                    // two spellings are the same field
                    for second in ["Content-Length", "content-length", "CONTENT-LENGTH"] {
                        let s = format!("POST / HTTP/1.1\r\n{}: 5\r\n{}: 4\r\n\r\nhello", n, second);
                        if Request::read_from_str(&s).is_ok() { return bad(format!("accepted together with a different {}", second)); }
                    }
                    let s = format!("HTTP/1.1 200 OK\r\n{}: 5\r\n\r\nhelloREST", n);
                    match Response::read_from(Cursor::new(s)) {
                        Ok(r) => { let mut b = vec![]; r.body.ok_or("no body")?.content.read_to_end(&mut b).map_err(|e| e.to_string())?; if b != b"hello" { return bad(format!("response body {:?}", esc(&b))); } }
                        Err(e) => return bad(format!("response {:?}", e)),
                    }
                }
                "Connection" => for (ver, opt, want) in [("HTTP/1.1", "close", false), ("HTTP/1.1", "keep-alive", true), ("HTTP/1.0", "keep-alive", true), ("HTTP/1.0", "close", false), ("HTTP/1.1", "x", true), ("HTTP/1.0", "x", false)] {
                    let s = format!("GET / {}\r\n{}: {}\r\n\r\n", ver, n, opt);
                    let r = Request::read_from_str(&s).map_err(|e| format!("{:?}", e))?;
                    if r.is_connection_persistent() != want { return bad(format!("{} {} persistent {}", ver, opt, !want)); }
                },
                "Content-Type" => {
                    let s = format!("POST / HTTP/1.1\r\n{}: application/json\r\nContent-Length: 2\r\n\r\n{{}}", n);
                    let r = Request::read_from_str(&s).map_err(|e| format!("{:?}", e))?;
                    if r.body.as_ref().and_then(|b| b.content_type.as_ref()).map(|m| m.to_string()) != Some("application/json".into()) { return bad("content type of the body".into()); }
                    if r.headers.get("Content-Type") != Some(&vec!["application/json".to_string()]) { return bad("not found under its usual name".into()); }
                }
                _ => {
                    for extra in ["", "Content-Length: 5\r\n"] {
                        let s = format!("POST / HTTP/1.1\r\n{}{}: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n", extra, n);
                        // not supported: must not be ignored
                        if let Ok(r) = Request::read_from_str(&s) {
                            let b = got(r)?;
                            if b.body != b"hello" { return bad(format!("ignored, body {:?}", esc(&b.body))); }
                        }
                    }
                }
            }
            Ok(name.to_string())
        }));
    }
    // option lists
    let opts = ["close", "keep-alive", "x", "Close", "KEEP-ALIVE", "closed", ""];
    let seps = [",", ", ", " ,\t", "\r\nConnection: "];
    v.push(Scen::cases("connection option lists", 2 * 3 * 7 * 7 * 7 * 4 * 4, 500, move |i| {
        let mut d = Dig(i);
        let ver = *d.of(&["HTTP/1.1", "HTTP/1.0"]);
        let n = 1 + d.n(3) as usize;
        let (a, b, c) = (*d.of(&opts), *d.of(&opts), *d.of(&opts));
        let (s1, s2) = (*d.of(&seps), *d.of(&seps));
        if (n < 2 && (b != opts[0] || s1 != seps[0])) || (n < 3 && (c != opts[0] || s2 != seps[0])) { return Ok("-duplicate".into()); }
        let l = [a, b, c];
        let mut val = a.to_string();
        if n > 1 { val += s1; val += b; }
        if n > 2 { val += s2; val += c; }
        let s = format!("GET / {}\r\nConnection: {}\r\n\r\n", ver, val);
        let r = Request::read_from_str(&s).map_err(|e| format!("{:?} for {:?}", e, s))?;
        let has = |o: &str| l[..n].iter().any(|x| x.eq_ignore_ascii_case(o));
        let want = !has("close") && (ver == "HTTP/1.1" || has("keep-alive"));
        if r.is_connection_persistent() != want { return Err(format!("{:?}: persistent {}", s, !want)); }
        Ok(format!("persistent {}", want))
    }));
    // repeated fields, white space
    let names: [&'static str; 8] = ["X-Ab", "x-ab", "X-AB", "x-Ab", "Y", "y", "X-Abc", "Etag"];
    let vals: [&'static str; 8] = ["v", "v w", "v \t w", "", ":", "a:b, c", "\"q \"", "="];
    let ows: [&'static str; 6] = ["", " ", "\t", "  ", " \t", "\t "];
    let reps = if th { 4 } else { 3 };
    let per = 8 * 8u64;
    v.push(Scen::cases("repeated fields", per.pow(reps) * 2, 4000, move |i| {
        let mut d = Dig(i);
        let k = reps - d.n(2) as u32;
        let mut s = String::from("GET / HTTP/1.1\r\n");
        let mut want: Vec<(String, Vec<String>)> = vec![];
        for j in 0..reps {
            let (n, x) = (*d.of(&names), *d.of(&vals));
            if j >= k { if n != names[0] || x != vals[0] { return Ok("-duplicate".into()); } continue; }
            s += &format!("{}: {}\r\n", n, x);
            match want.iter_mut().find(|w| w.0 == n.to_ascii_lowercase()) { Some(w) => w.1.push(x.into()), None => want.push((n.to_ascii_lowercase(), vec![x.into()])) }
        }
        s += "\r\n";
        let r = Request::read_from_str(&s).map_err(|e| format!("{:?} for {:?}", e, s))?;
        for (n, w) in &want {
            for look in [n.clone(), n.to_ascii_uppercase(), usual(n)] {
                if r.headers.get(&look) != Some(w) { return Err(format!("{:?}: get({:?}) = {:?}, expected {:?}", s, look, r.headers.get(&look), w)); }
            }
        }
        if hdrs(&r.headers).len() != want.len() { return Err(format!("{:?}: {:?}", s, hdrs(&r.headers))); }
        Ok(format!("{} names", want.len()))
    }));
    // names that differ in one character are different names
    const TCHARS: &[u8] = b"!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyz";
    v.push(Scen::cases("names that differ in one character", 52 * 52 * 3 * 2, 500, |i| {
        let mut d = Dig(i);
        let (a, b) = (*d.of(TCHARS) as char, *d.of(TCHARS) as char);
        if a == b { return Ok("-the same".into()); }
        let (pre, post) = *d.of(&[("X", "Y"), ("", ""), ("X-A", "")]);
        let resp = d.n(2) == 1;
        let (x, y) = (format!("{}{}{}", pre, a, post), format!("{}{}{}", pre, b, post));
        let s = format!("{}{}: one\r\n{}: two\r\n{}: three\r\n\r\n", if resp { "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n" } else { "GET / HTTP/1.1\r\n" }, x, y, x.to_ascii_uppercase());
        let hs = if resp { Response::read_from(Cursor::new(s.clone())).map_err(|e| format!("{:?} for {:?}", e, s))?.headers } else { Request::read_from_str(&s).map_err(|e| format!("{:?} for {:?}", e, s))?.headers };
        for (n, want) in [(x, vec!["one".to_string(), "three".to_string()]), (y, vec!["two".to_string()])] {
            for look in [n.clone(), n.to_ascii_uppercase(), usual(&n)] {
                if hs.get(&look) != Some(&want) { return Err(format!("{:?}: get({:?}) = {:?}, expected {:?}", s, look, hs.get(&look), want)); }
            }
        }
        Ok("different".into())
    }));
    // fields that a program adds: every sequence of additions, looked up after each one
    let add_names: [&'static str; 7] = ["X-Ab", "x-ab", "X-AB", "Y", "y", "connection", "X-Abc"];
    let add_vals: [&'static str; 3] = ["v", "close", ""];
    let len = if th { 5 } else { 4 };
    v.push(Scen::cases("fields added by a program", 21u64.pow(len) * 2, 2000, move |i| {
        let mut d = Dig(i);
        let resp = d.n(2) == 1;
        let mut h = Headers::new();
        let mut want: Vec<(String, Vec<String>)> = vec![];
        let mut said = String::new();
        for _ in 0..len {
            let (n, x) = (*d.of(&add_names), *d.of(&add_vals));
            h.add(Header { name: n.into(), value: x.into() });
            said += &format!("{}: {}; ", n, x);
            match want.iter_mut().find(|w| w.0 == n.to_ascii_lowercase()) { Some(w) => w.1.push(x.into()), None => want.push((n.to_ascii_lowercase(), vec![x.into()])) }
            for k in add_names {
                let w = want.iter().find(|w| w.0 == k.to_ascii_lowercase()).map(|w| &w.1);
                if h.get(k) != w { return Err(format!("added {}get({:?}) = {:?}, expected {:?}", said, k, h.get(k), w)); }
            }
            let mut names: Vec<String> = h.iter().map(|(n, _)| n.to_ascii_lowercase()).collect();
            names.sort();
            let mut w: Vec<&String> = want.iter().map(|w| &w.0).collect();
            w.sort();
            if names.iter().ne(w) { return Err(format!("added {}the names are {:?}", said, names)); }
        }
        let mut b = if resp { b"HTTP/1.1 200 OK\r\n".to_vec() } else { b"GET / HTTP/1.1\r\n".to_vec() };
        h.write(&mut b).map_err(|e| format!("{:?}", e))?;
        let back = if resp { Response::read_from(Cursor::new(b)).map_err(|e| format!("added {}read back: {:?}", said, e))?.headers } else { Request::read_from(Cursor::new(b)).map_err(|e| format!("added {}read back: {:?}", said, e))?.headers };
        for (n, w) in &want { if back.get(n) != Some(w) { return Err(format!("added {}read back: {} is {:?}", said, n, back.get(n))); } }
        if !resp {
            // and they count as the ones that are received
            let mut r = Request { body: None, headers: h, method: HttpMethod::GET, uri: "/".into(), version: "HTTP/1.1".into() };
            let close = want.iter().any(|w| w.0 == "connection" && w.1.iter().any(|x| x == "close"));
            if r.is_connection_persistent() == close { return Err(format!("added {}persistent {}", said, !close)); }
            r.headers = Headers::new();
        }
        Ok(format!("{} names", want.len()))
    }));
    // any number of values of one name, alone or between others
    let mut ns: Vec<usize> = (0..200).collect();
    ns.extend((8..if th { 18 } else { 15 }).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]));
    ns.extend([1000, 1001, 10_001]);
    let nn = ns.len() as u64;
    v.push(Scen::cases("many values of one name", nn * 4 * 2, 40, move |i| {
        let mut d = Dig(i);
        let n = ns[d.n(nn) as usize];
        let (shape, resp) = (d.n(4), d.n(2) == 1);
        let mut s = String::from(if resp { "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n" } else { "GET / HTTP/1.1\r\n" });
        let mut want = vec![];
        let mut other = vec![];
        for k in 0..n {
            let x = match shape { 1 => "v".to_string(), 2 => if k % 3 == 0 { String::new() } else { format!("{}, {}", k, k) }, _ => format!("v{}", k) };
            s += &format!("{}: {}\r\n", ["X-Many", "x-many", "X-MANY"][k % 3], x);
            want.push(x);
            if shape == 3 { s += &format!("Cookie: c{}\r\nX-{}: y\r\n", k, k); other.push(format!("c{}", k)); }
        }
        s += "\r\n";
        let hs = if resp { Response::read_from(Cursor::new(s)).map_err(|e| format!("{} fields: {:?}", n, e))?.headers } else { Request::read_from_str(&s).map_err(|e| format!("{} fields: {:?}", n, e))?.headers };
        for (name, w) in [("X-Many", &want), ("Cookie", &other)] {
            let g = hs.get(name).cloned().unwrap_or_default();
            if g != *w { return Err(format!("{} fields named {}: {} values kept, the first difference is at {:?}", w.len(), name, g.len(), g.iter().zip(w.iter()).position(|(a, b)| a != b))); }
        }
        let names = (n > 0) as usize + if shape == 3 { n + (n > 0) as usize } else { 0 } + resp as usize;
        if hdrs(&hs).len() != names { return Err(format!("{} fields, shape {}: {} names", n, shape, hdrs(&hs).len())); }
        Ok(if n > 0 { "many".into() } else { "-none".into() })
    }));
    v.push(Scen::cases("white space around values", 6 * 6 * 8 * 8 * 3, 1000, move |i| {
        let mut d = Dig(i);
        let (a, b, x, n) = (*d.of(&ows), *d.of(&ows), *d.of(&vals), *d.of(&names));
        let pos = d.n(3);
        let line = format!("{}:{}{}{}\r\n", n, a, x, b);
        let s = match pos { 0 => format!("GET / HTTP/1.1\r\n{}\r\n", line), 1 => format!("GET / HTTP/1.1\r\nFirst: 1\r\n{}\r\n", line), _ => format!("GET / HTTP/1.1\r\n{}Last: 1\r\n\r\n", line) };
        let r = Request::read_from_str(&s).map_err(|e| format!("{:?} for {:?}", e, s))?;
        if r.headers.get(&usual(n)) != Some(&vec![x.to_string()]) { return Err(format!("{:?}: {:?}", s, r.headers.get(&usual(n)))); }
        let resp = format!("HTTP/1.1 200 OK\r\n{}Content-Length:{}0{}\r\n\r\n", line, a, b);
        let r = Response::read_from(Cursor::new(resp.clone())).map_err(|e| format!("{:?} for {:?}", e, resp))?;
        if r.headers.get(&usual(n)) != Some(&vec![x.to_string()]) { return Err(format!("{:?}: {:?}", resp, r.headers.get(&usual(n)))); }
        Ok("padded".into())
    }));
    v
}
fn usual(n: &str) -> String {
    let mut up = true;
    n.chars().map(|c| { let r = if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }; up = c == '-'; r }).collect()
}

// ------------------------------------------------------------------ C08
struct SlowSrc { left: usize, step: usize, fill: u8 }
impl Read for SlowSrc {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.left.min(self.step).min(b.len());
        for x in &mut b[..n] { *x = self.fill; self.fill = if self.fill == b'z' { b'a' } else { self.fill + 1 }; }
        self.left -= n;
        Ok(n)
    }
}
fn pattern(n: usize) -> Vec<u8> { (0..n).map(|i| b'a' + (i % 26) as u8).collect() }
const HSETS: usize = 6;
fn add_headers(h: &mut Headers, k: usize) -> Vec<(String, Vec<String>)> {
    let v: Vec<(&str, Vec<&str>)> = match k {
        0 => vec![],
        1 => vec![("Host", vec!["h:80"])],
        2 => vec![("X-A", vec!["1", "2, 3", ""]), ("Accept", vec!["*/*"])],
        3 => vec![("Connection", vec!["close"]), ("Date", vec!["Mon, 01 Jan 2020 00:00:00 GMT"])],
        4 => vec![("Set-Cookie", vec!["a=b; c", "a=c"]), ("X-T", vec!["a \t b"])],
        _ => vec![("Etag", vec!["\"x:y\""]), ("X-~!#", vec![":"])],
    };
    for (n, vs) in &v { for x in vs { h.add(Header { name: n.to_string(), value: x.to_string() }); } }
    v.into_iter().map(|(n, vs)| (n.to_string(), vs.into_iter().map(String::from).collect())).collect()
}
const SIZES: [usize; 6] = [0, 1, 2, 5, 300, 9000];
fn mk_request(i: u64) -> (Request, RefReq) {
    let mut d = Dig(i);
    let m = HttpMethod::from_str(METHODS[d.n(9) as usize]).unwrap();
    let t = *d.of(&["/", "/a/b?c=d", "*"]);
    let ver = *d.of(&[Version::HTTP1_1, Version::HTTP1_0].map(|v| v.to_string()).each_ref().map(|s| s.as_str()).map(|s| if s == "HTTP/1.1" { "HTTP/1.1" } else { "HTTP/1.0" }));
    let hs = d.n(HSETS as u64) as usize;
    let kind = d.n(3);
    let n = *d.of(&SIZES);
    let step = *d.of(&[1usize, 4096]);
    let data = pattern(n);
    let mut r = match kind {
        0 => Request { method: m, uri: t.into(), version: ver.into(), headers: Headers::new(), body: None },
        1 => Request::from_body(Body::new(None, n as u64, Box::new(SlowSrc { left: n, step, fill: b'a' })), m, t),
        _ => Request::from_body(Body::new(Some(text()), n as u64, Box::new(SlowSrc { left: n, step, fill: b'a' })), m, t),
    };
    r.version = ver.into();
    add_headers(&mut r.headers, hs);
    let mut headers: Vec<(String, String)> = vec![];
    let mut tmp = Headers::new();
    for (k, vs) in add_headers(&mut tmp, hs) { for v in vs { headers.push((k.to_ascii_lowercase(), v)); } }
    let body = if kind == 0 { vec![] } else { data };
    let e = RefReq { method: m.to_string(), target: t.into(), version: ver.into(), headers, body, consumed: 0 };
    (r, e)
}
const NREQ: u64 = 9 * 3 * 2 * HSETS as u64 * 3 * 6 * 2;
fn strip(mut r: RefReq, names: &[&str]) -> RefReq { r.headers.retain(|h| !names.contains(&h.0.as_str())); norm(r) }
const FRAMING: [&str; 2] = ["content-length", "content-type"];

fn mk_response(i: u64) -> (Response, u16, Vec<(String, Vec<String>)>, Vec<u8>) {
    let mut d = Dig(i);
    let code = *d.of(&[200usize, 100, 204, 301, 404, 503, 299, 599, 999]);
    let hs = d.n(HSETS as u64) as usize;
    let kind = d.n(4);
    let n = *d.of(&SIZES);
    let step = *d.of(&[1usize, 4096]);
    let data = pattern(n);
    let mut r = match kind {
        0 => Response::from_status(StatusCode::from(code)),
        1 => Response::from_content(SlowSrc { left: n, step, fill: b'a' }, n as u64, text()),
        2 => Response::from_str(std::str::from_utf8(&data).unwrap()).unwrap(),
        _ => Response { status: StatusCode::from(code), headers: Headers::new(), body: Some(Body::new(None, n as u64, Box::new(SlowSrc { left: n, step, fill: b'a' }))) },
    };
    r.status = StatusCode::from(code);
    let w = add_headers(&mut r.headers, hs);
    (r, code as u16, w, if kind == 0 { vec![] } else { data })
}
const NRESP: u64 = 9 * HSETS as u64 * 4 * 6 * 2;
const LENS: [&[usize]; 5] = [&[usize::MAX], &[1], &[3, 1, 50], &[7], &[4096]];

fn check_resp(b: &[u8], code: u16, w: &[(String, Vec<String>)], data: &[u8]) -> Result<(), String> {
    let (r, n) = crate::net::parse_resp(b)?.ok_or(format!("incomplete response {:?}", esc(b)))?;
    if n != b.len() { return Err(format!("{} extra bytes after the response", b.len() - n)); }
    if r.status != code || r.version != "HTTP/1.1" { return Err(format!("status line {} {}", r.version, r.status)); }
    if r.body != data { return Err(format!("body of {} bytes, expected {}", r.body.len(), data.len())); }
    for (n, vs) in w { if r.header(n) != *vs { return Err(format!("header {}: {:?} expected {:?}", n, r.header(n), vs)); } }
    Ok(())
}
fn read_back(b: &[u8], max: usize, code: u16, w: &[(String, Vec<String>)], data: &[u8]) -> Result<(), String> {
    let mut p = Pieces::new(b, vec![]);
    p.max = max;
    let r = Response::read_from(p).map_err(|e| format!("reading back: {:?}", e))?;
    let c: usize = (&r.status).into();
    if c != code as usize { return Err(format!("read back status {}", c)); }
    for (n, vs) in w { if r.headers.get(n) != Some(vs) { return Err(format!("read back header {}: {:?} expected {:?}", n, r.headers.get(n), vs)); } }
    let mut body = vec![];
    if let Some(mut x) = r.body { x.content.read_to_end(&mut body).map_err(|e| e.to_string())?; }
    if body != data { return Err(format!("read back a body of {} bytes, expected {}", body.len(), data.len())); }
    Ok(())
}

fn c08(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let mut v = vec![];
    v.push(Scen::cases("requests", NREQ * 5, 2000, |i| {
        let (r, e) = mk_request(i / 5);
        let lens = LENS[(i % 5) as usize];
        let mut s = Sink::new(lens);
        r.write(&mut s).map_err(|x| format!("write: {:?}", x))?;
        let (r2, _) = mk_request(i / 5);
        let mut whole = vec![];
        r2.write(&mut whole).map_err(|x| format!("write: {:?}", x))?;
        if s.out != whole { return Err(format!("bytes differ with pieces {:?}: \"{}\" / \"{}\"", lens, esc(&s.out), esc(&whole))); }
        let v = ref_request(&whole);
        let Verdict::Ok(r) = v else { return Err(format!("not a well-formed request: {:?} \"{}\"", v, esc(&whole))) };
        if r.consumed != whole.len() { return Err(format!("bytes after the request: \"{}\"", esc(&whole))); }
        if r.headers.iter().filter(|h| h.0 == "content-length").count() > 1 { return Err(format!("several Content-Length: \"{}\"", esc(&whole))); }
        if strip(r.clone(), &FRAMING) != norm(e.clone()) { return Err(format!("written as {:?}, expected {:?}", strip(r, &FRAMING), norm(e))); }
        for max in [usize::MAX, 1, 3] {
            let g = parse(&whole, vec![], max).map_err(|x| format!("reading back in chunks of {}: {}", max, x))?;
            if strip(g.clone(), &FRAMING) != norm(e.clone()) { return Err(format!("read back {:?}, expected {:?}", g, e)); }
        }
        Ok(format!("request, body {}", e.body.len()))
    }));
    v.push(Scen::cases("responses", NRESP * 5, 2000, |i| {
        let (mut r, code, w, data) = mk_response(i / 5);
        let lens = LENS[(i % 5) as usize];
        let mut s = Sink::new(lens);
        r.write(&mut s).map_err(|x| format!("write: {:?}", x))?;
        let (mut r2, ..) = mk_response(i / 5);
        let mut whole = vec![];
        r2.write(&mut whole).map_err(|x| format!("write: {:?}", x))?;
        if s.out != whole { return Err(format!("bytes differ with pieces {:?}", lens)); }
        check_resp(&whole, code, &w, &data)?;
        for max in [usize::MAX, 1, 3] { read_back(&whole, max, code, &w, &data)?; }
        Ok(format!("response, body {}", data.len()))
    }));
    // any number of headers and of values of one header
    let mut ns: Vec<usize> = (0..200).collect();
    ns.extend((8..if th { 17 } else { 14 }).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]));
    ns.extend([1000, 1001]);
    let nn = ns.len() as u64;
    v.push(Scen::cases("many headers and values", nn * 4 * 2 * 3, 40, move |i| {
        let mut d = Dig(i);
        let n = ns[d.n(nn) as usize];
        let (shape, req, lens) = (d.n(4), d.n(2) == 0, [LENS[0], LENS[2], LENS[4]][d.n(3) as usize]);
        let mut h = Headers::new();
        let mut want: Vec<(String, String)> = vec![];
        for k in 0..n {
            let (name, value) = match shape { 0 => ("X-Many".to_string(), format!("v{}", k)), 1 => (format!("X-N{}", k), format!("{}", k)), 2 => (format!("X-M{}", k % 5), format!("w{}", k)), _ => ("X".to_string() + &"y".repeat(k % 40), "z".repeat(k)) };
            if shape == 3 && k > 300 { break; }
            h.add(Header { name: name.clone(), value: value.clone() });
            want.push((name.to_ascii_lowercase(), value));
        }
        want.sort_by(|a, b| a.0.cmp(&b.0));
        let mut s = Sink::new(lens);
        let body = || Body::new(Some(text()), 5, Box::new(Cursor::new("hello")));
        let got = if req {
            let mut r = Request::from_body(body(), HttpMethod::POST, "/");
            for (n, vs) in hdrs(&h) { for v in vs { r.headers.add(Header { name: n.clone(), value: v }); } }
            r.write(&mut s).map_err(|e| format!("{:?}", e))?;
            match ref_request(&s.out) { Verdict::Ok(x) if x.consumed == s.out.len() => {} x => return Err(format!("{} headers, shape {}: written as {}", n, shape, class(&x))) }
            parse(&s.out, vec![], 1000)?
        } else {
            let mut r = Response { status: StatusCode::OK, headers: h, body: Some(body()) };
            r.write(&mut s).map_err(|e| format!("{:?}", e))?;
            match ref_response(&s.out) { Verdict::Ok(x) if x.consumed == s.out.len() => {} x => return Err(format!("{} headers, shape {}: written as {}", n, shape, class(&x))) }
            RESP.parse(&s.out, vec![], 1000)?
        };
        if got.body != b"hello" { return Err(format!("{} headers, shape {}: body {:?}", n, shape, esc(&got.body))); }
        let g = strip(got, &FRAMING).headers;
        if g != want { return Err(format!("{} values, shape {}: {} are read back, the first difference is at {:?}", want.len(), shape, g.len(), g.iter().zip(want.iter()).position(|(a, b)| a != b))); }
        Ok("headers".into())
    }));
    // an error at every call
    let kinds = [io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut, io::ErrorKind::ConnectionReset, io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock, io::ErrorKind::Other];
    let step_r: u64 = if th { 1 } else { 7 };
    let faults = move |what: &'static str, n: u64| {
        Scen::cases(format!("{} with an error at every write call", what), n / step_r * 5 * 7, 200, move |i| {
            let mut d = Dig(i);
            let lens = LENS[d.n(5) as usize];
            let k = d.n(7) as usize;
            let m = d.0 * step_r;
            let write = |s: &mut Sink| -> Result<(), HttpError> { if what == "requests" { mk_request(m).0.write(s) } else { mk_response(m).0.write(s) } };
            let mut full = Sink::new(lens);
            write(&mut full).map_err(|x| format!("write: {:?}", x))?;
            let calls = full.calls;
            let mut any = false;
            let limit = 60usize;
            for at in 0..calls {
                if calls > 2 * limit && at > limit && at + limit < calls { continue; }
                let mut s = Sink::new(lens);
                if k < 6 { s.fail_at = Some((at, kinds[k])); } else { s.zero_at = Some(at); }
                let r = write(&mut s);
                let intr = k < 6 && kinds[k] == io::ErrorKind::Interrupted;
                if intr {
                    if r.is_err() || s.out.len() != full.out.len() { return Err(format!("message {}: interrupted at call {}: {:?}, {} of {} bytes", m, at, r, s.out.len(), full.out.len())); }
                } else if r.is_ok() {
                    return Err(format!("message {} in pieces {:?}: {} at call {} of {} is reported as success", m, lens, if k < 6 { format!("{:?}", kinds[k]) } else { "a write of zero bytes".into() }, at, calls));
                }
                if !full.out.starts_with(&s.out) { return Err(format!("message {}: bytes written before the error differ", m)); }
                any = true;
            }
            Ok(if any { "fault reached".into() } else { "-no call".into() })
        })
    };
    v.push(faults("requests", NREQ));
    v.push(faults("responses", NRESP));
    // large bodies use another path
    let big = [(1usize << 21) - 1, 1 << 21, (1 << 21) + 1, (1 << 21) + 12345, 5 << 20];
    v.push(Scen::cases("large bodies", 5 * 3 * 2, 1, move |i| {
        let mut d = Dig(i);
        let n = *d.of(&big);
        let lens = *d.of(&[&[usize::MAX][..], &[100_000, 7][..], &[1 << 20][..]]);
        let req = d.n(2) == 0;
        let mut s = Sink::new(lens);
        let mk = || Body::new(None, n as u64, Box::new(SlowSrc { left: n, step: 65536, fill: b'a' }));
        let run = |s: &mut Sink| if req { Request::from_body(mk(), HttpMethod::POST, "/").write(s) } else { Response { status: StatusCode::OK, headers: Headers::new(), body: Some(mk()) }.write(s) };
        run(&mut s).map_err(|e| format!("{:?}", e))?;
        let h = s.out.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
        if s.out[h..] != pattern(n)[..] { return Err(format!("body of {} bytes written as {} bytes", n, s.out.len() - h)); }
        let calls = s.calls;
        for k in [io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut] { for back in 1..=4usize {
            let mut s = Sink::new(lens);
            s.fail_at = Some((calls.saturating_sub(back), k));
            if run(&mut s).is_ok() { return Err(format!("an error at call {} of {} is reported as success", calls - back, calls)); }
        } }
        Ok("large".into())
    }));
    // body sources that do not match the declared length
    let srcs = [(0usize, 1usize), (1, 2), (3, 5), (5, 3), (1, 0), (9000, 9001), (9001, 9000), (2, 1 << 22), ((1 << 21) + 10, (1 << 21) + 11), ((1 << 21) + 11, (1 << 21) + 10)];
    v.push(Scen::cases("body source shorter or longer than declared", srcs.len() as u64 * 5 * 2 * 2, 4, move |i| {
        let mut d = Dig(i);
        let (have, decl) = *d.of(&srcs);
        let lens = LENS[d.n(5) as usize];
        if have.min(decl) > 100_000 && lens[0] < 4096 { return Ok("-skipped: byte-wise large body".into()); }
        let req = d.n(2) == 0;
        let step = *d.of(&[1usize, 100_000]);
        let mut s = Sink::new(lens);
        let b = Body::new(None, decl as u64, Box::new(SlowSrc { left: have, step, fill: b'a' }));
        let r = if req { Request::from_body(b, HttpMethod::PUT, "/").write(&mut s) } else { Response { status: StatusCode::OK, headers: Headers::new(), body: Some(b) }.write(&mut s) };
        let h = s.out.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
        if req && decl == 0 { return Ok("-empty body".into()); }
        if have < decl && r.is_ok() { return Err(format!("a body of {} bytes declared as {} is reported as written", have, decl)); }
        if have >= decl && (r.is_err() || s.out.len() - h != decl) { return Err(format!("a source of {} bytes with declared length {}: {:?}, {} body bytes", have, decl, r, s.out.len() - h)); }
        if s.out.len() - h > decl { return Err("body bytes beyond the declared length".into()); }
        Ok("mismatch".into())
    }));
    v
}

// ------------------------------------------------------------------ C09
const REASONS: [(usize, &str); 40] = [
    (100, "continue"), (101, "switching protocols"), (200, "ok"), (201, "created"), (202, "accepted"), (203, "non-authoritative information"), (204, "no content"), (205, "reset content"), (206, "partial content"),
    (300, "multiple choices"), (301, "moved permanently"), (302, "found"), (303, "see other"), (304, "not modified"), (305, "use proxy"), (307, "temporary redirect"),
    (400, "bad request"), (401, "unauthorized"), (402, "payment required"), (403, "forbidden"), (404, "not found"), (405, "method not allowed"), (406, "not acceptable"), (407, "proxy authentication required"), (408, "request time-out"), (409, "conflict"), (410, "gone"), (411, "length required"), (412, "precondition failed"), (413, "request entity too large"), (414, "request-uri too large"), (415, "unsupported media type"), (416, "requested range not satisfiable"), (417, "expectation failed"),
    (500, "internal server error"), (501, "not implemented"), (502, "bad gateway"), (503, "service unavailable"), (504, "gateway time-out"), (505, "http version not supported"),
];
fn words(s: &str) -> String { s.to_ascii_lowercase().chars().filter(|c| c.is_ascii_alphabetic()).collect() }
fn c09(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let codes = Scen::cases("status codes", 900, 100, |i| {
        let code = 100 + i as usize;
        let s = StatusCode::from(code);
        let back: usize = (&s).into();
        if back != code { return Err(format!("{} maps to {:?} which maps back to {}", code, s, back)); }
        if s.clone() != s { return Err(format!("clone of {:?} is {:?}", s, s.clone())); }
        let back: usize = (&s.clone()).into();
        if back != code { return Err(format!("the clone of {} maps to {}", code, back)); }
        let known = REASONS.iter().find(|r| r.0 == code);
        let ext = matches!(s, StatusCode::ExtensionCode(_));
        if known.is_some() == ext { return Err(format!("{} maps to {:?}", code, s)); }
        if let Some((_, r)) = known {
            // the phrase of the code, up to case, hyphens and the RFC 2616/7231 variants
            let w = words(s.reason());
            let alt = match code { 408 => "requesttimeout", 504 => "gatewaytimeout", 413 => "payloadtoolarge", 414 => "uritoolong", 416 => "rangenotsatisfiable", _ => "" };
            if w != words(r) && w != alt { return Err(format!("{} has the reason {:?}", code, s.reason())); }
        }
        let text = s.to_string();
        if !text.starts_with(&format!("{} ", code)) { return Err(format!("{} prints as {:?}", code, text)); }
        let st: String = s.clone().into();
        if st != text { return Err(format!("String::from gives {:?}", st)); }
        // on the wire and back
        let mut out = vec![];
        Response::from_status(s.clone()).write(&mut out).map_err(|e| format!("{:?}", e))?;
        if !out.starts_with(format!("HTTP/1.1 {} {}\r\n", code, s.reason()).as_bytes()) { return Err(format!("{} is written as {:?}", code, esc(&out))); }
        let r = Response::read_from(Cursor::new(out)).map_err(|e| format!("{} can not be read back: {:?}", code, e))?;
        if r.status != s { return Err(format!("{} is read back as {:?}", code, r.status)); }
        // any reason phrase from a peer
        for phrase in ["", "X", "Not Found", "a b\tc", "é"] {
            let t = format!("HTTP/1.0 {} {}\r\nContent-Length: 0\r\n\r\n", code, phrase);
            let r = Response::read_from(Cursor::new(t)).map_err(|e| format!("{} {:?}: {:?}", code, phrase, e))?;
            if r.status != s { return Err(format!("{} {:?} is read as {:?}", code, phrase, r.status)); }
        }
        Ok(if ext { "extension".into() } else { "known".into() })
    });
    let distinct = Scen::cases("reason phrases are distinct", 40 * 40, 1600, |i| {
        let (a, b) = (REASONS[(i / 40) as usize].0, REASONS[(i % 40) as usize].0);
        let same = StatusCode::from(a).reason() == StatusCode::from(b).reason();
        if same != (a == b) { return Err(format!("{} and {} have the same reason", a, b)); }
        if (StatusCode::from(a) == StatusCode::from(b)) != (a == b) { return Err(format!("equality of {} and {}", a, b)); }
        Ok("pair".into())
    });
    let methods = Scen::cases("methods", 81, 9, |i| {
        let (a, b) = (METHODS[(i / 9) as usize], METHODS[(i % 9) as usize]);
        let (x, y) = (HttpMethod::from_str(a)?, HttpMethod::from_str(b)?);
        if x.to_string() != a { return Err(format!("{} prints as {}", a, x)); }
        if (x == y) != (a == b) { return Err(format!("{} == {}", a, b)); }
        if ((x as u16) == (y as u16)) != (a == b) || x as u16 > HttpMethod::get_last() as u16 { return Err(format!("the indices of {} and {}", a, b)); }
        Ok("pair".into())
    });
    let versions = Scen::cases("versions", 3, 3, |i| {
        let s = ["HTTP/1.0", "HTTP/1.1", "HTTP/2"][i as usize];
        let v = Version::from_str(s).map_err(|e| e.to_string())?;
        if v.to_string() != s { return Err(format!("{} prints as {}", s, v)); }
        if v != [Version::HTTP1_0, Version::HTTP1_1, Version::HTTP2][i as usize] { return Err(format!("{} parses to {:?}", s, v)); }
        Ok("version".into())
    });
    // everything else is rejected
    let mut names: Vec<String> = vec![];
    for n in METHODS.iter().copied().chain(["HTTP/1.0", "HTTP/1.1", "HTTP/2"]) {
        for m in 0..1u64 << letters(n) { names.push(cased(n, m)); }
        let b = n.as_bytes();
        for x in corrupt(b, b" \tAGETPOSZ/.019\0\r\n") { if let Ok(s) = String::from_utf8(x) { names.push(s); } }
    }
    names.sort();
    names.dedup();
    let names = Arc::new(names);
    let n = names.len() as u64;
    let chk = |s: &str| -> Result<String, String> {
        let known = METHODS.contains(&s);
        match HttpMethod::from_str(s) { Ok(m) => if !known || m.to_string() != s { return Err(format!("method {:?} accepted as {}", s, m)); }, Err(_) => if known { return Err(format!("method {} rejected", s)); } }
        let vk = ["HTTP/1.0", "HTTP/1.1", "HTTP/2"].contains(&s);
        match Version::from_str(s) { Ok(v) => if !vk || v.to_string() != s { return Err(format!("version {:?} accepted as {}", s, v)); }, Err(_) => if vk { return Err(format!("version {} rejected", s)); } }
        Ok(if known || vk { "name".into() } else { "not a name".into() })
    };
    let near = Scen::cases("names and near misses", n, 500, move |i| chk(&names[i as usize]));
    let alpha = b"GETPUSHOD /";
    let k = if th { 6u32 } else { 4 };
    let strings = Scen::cases("all short strings", 11u64.pow(k), 4000, move |i| {
        let mut d = Dig(i);
        let s: String = (0..k).map(|_| *d.of(alpha) as char).collect();
        chk(s.trim_end_matches('/'))
    });
    // status lines: codes that are not three digits are rejected
    let codes2 = Scen::cases("malformed status codes", 13u64.pow(3) * 3, 1000, |i| {
        let mut d = Dig(i);
        let n = 2 + d.n(3);
        let s: String = (0..n).map(|_| *d.of(b"0123456789+-x") as char).collect();
        let s = if n == 4 { s } else { s };
        let ok = s.len() == 3 && s.bytes().all(|c| c.is_ascii_digit());
        let t = format!("HTTP/1.1 {} R\r\nContent-Length: 0\r\n\r\n", s);
        match Response::read_from(Cursor::new(t)) {
            Ok(r) => {
                let c: usize = (&r.status).into();
                if !ok { if s.len() == 3 && s.starts_with('+') { return Ok("-signed".into()); } return Err(format!("status code {:?} is read as {}", s, c)); }
                if c != s.parse::<usize>().unwrap() { return Err(format!("status code {:?} is read as {}", s, c)); }
            }
            Err(e) => if ok && s.as_str() >= "100" { return Err(format!("status code {:?} is rejected: {:?}", s, e)); },
        }
        Ok(if ok { "three digits".into() } else { "other".into() })
    });
    vec![codes, distinct, methods, versions, near, strings, codes2]
}

// ------------------------------------------------------------------ C29
fn c29(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let mut reqs: Vec<Vec<u8>> = base_requests();
    reqs.push(b"POST / HTTP/1.1\r\nContent-Length: 40\r\n\r\n0123456789012345678901234567890123456789".to_vec());
    let resps: Vec<Vec<u8>> = ["HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhello", "HTTP/1.1 404 Not Found\r\nContent-Type: text/plain\r\nX: y\r\nContent-Length: 0\r\n\r\n", "HTTP/1.0 500 \r\nContent-Length: 12\r\n\r\nhello\r\nworld"].iter().map(|s| s.as_bytes().to_vec()).collect();
    let kinds = [io::ErrorKind::TimedOut, io::ErrorKind::NotConnected, io::ErrorKind::ConnectionReset, io::ErrorKind::BrokenPipe, io::ErrorKind::ConnectionAborted, io::ErrorKind::Other, io::ErrorKind::Interrupted];
    let chunks: &'static [usize] = if th { &[1, 2, 3, 5, 7, 16, 1000] } else { &[1, 3, 16, 1000] };
    let (rq, rs) = (Arc::new(reqs), Arc::new(resps));
    let total = (rq.len() + rs.len()) as u64 * 8 * chunks.len() as u64 * 120;
    let reads = Scen::cases("errors while reading", total, 500, move |i| {
        let mut d = Dig(i);
        let at = d.n(120) as usize;
        let chunk = *d.of(chunks);
        let k = d.n(8) as usize;
        let m = d.0 as usize;
        let is_req = m < rq.len();
        let b: Vec<u8> = if is_req { rq[m].clone() } else { rs[m - rq.len()].clone() };
        let kind = kinds.get(k).copied();
        // kind None: the input ends at byte `at`
        let mut p = Pieces::new(&b, vec![]);
        p.max = chunk;
        let head = b.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
        let struck: usize; // bytes delivered before the fault
        match kind {
            Some(x) => { p.fail_at = Some((at, x)); struck = at * chunk; if at > b.len().div_ceil(chunk) { return Ok("-not reached".into()); } }
            None => { if at >= b.len() { return Ok("-not reached".into()); } p.data.truncate(at); struck = at; }
        }
        if struck >= b.len() { return Ok("-not reached".into()); }
        #[derive(Debug)]
        enum R { Head(HttpError), Body(io::ErrorKind, HttpError), Good(usize) }
        let body_of = |body: Option<Body>| -> R {
            let Some(mut x) = body else { return R::Good(0) };
            let mut v = vec![];
            match x.content.read_to_end(&mut v) { Ok(n) => R::Good(n), Err(e) => { let k = e.kind(); R::Body(k, HttpError::from(e)) } }
        };
        let p2 = p.clone();
        let r = if is_req { match Request::read_from(p) { Ok(r) => body_of(r.body), Err(e) => R::Head(e) } } else { match Response::read_from(p) { Ok(r) => body_of(r.body), Err(e) => R::Head(e) } };
        // and through ensure_read
        let r2: Result<(), HttpError> = if is_req { Request::read_from(p2).and_then(|r| r.body.map_or(Ok(()), |mut b| b.ensure_read())) } else { Response::read_from(p2).and_then(|r| r.body.map_or(Ok(()), |mut b| b.ensure_read())) };
        let bad = |m: &str| Err(format!("{}: {:?} after {} bytes (chunks of {}) of \"{}\" -> {:?} / ensure_read {:?}", m, kind, struck, chunk, esc(&b), r, r2));
        let want_len = b.len() - head;
        match kind {
            Some(io::ErrorKind::Interrupted) => {
                // retried: everything is read. A body reader may see it as an error of the read call itself.
                if !matches!(r, R::Good(n) if n == want_len) || r2.is_err() { return bad("an interrupted read is not retried"); }
            }
            Some(io::ErrorKind::TimedOut) => {
                match &r { R::Head(HttpError::Timeout) => {} R::Body(io::ErrorKind::TimedOut, HttpError::Timeout) => {} R::Good(_) if struck >= b.len() => {} _ => return bad("a timeout is not reported as such") }
                if r2 != Err(HttpError::Timeout) { return bad("a timeout is not reported as such"); }
            }
            Some(io::ErrorKind::NotConnected) if struck == 0 => {
                if !matches!(r, R::Head(HttpError::ConnectionClosed)) { return bad("a closed connection is not reported as such"); }
            }
            None if struck == 0 => {
                if !matches!(r, R::Head(HttpError::ConnectionClosed)) { return bad("a closed connection is not reported as such"); }
            }
            _ => {
                if matches!(r, R::Good(_)) || r2.is_ok() { return bad("a failed message is reported as success"); }
            }
        }
        if struck < head && !matches!(r, R::Head(_)) && kind != Some(io::ErrorKind::Interrupted) { return bad("the error before the end of the headers is lost"); }
        Ok(format!("{:?} in the {}", kind, if struck == 0 { "beginning" } else if struck < head { "head" } else { "body" }))
    });
    // bad syntax is InvalidRequest
    let mut bad = vec![];
    for b in base_requests() { bad.extend(corrupt(&b, ADVERSARIAL)); }
    let bad = Arc::new(dedup(bad).into_iter().filter(|b| matches!(ref_request(b), Verdict::Reject(_))).collect::<Vec<_>>());
    let n = bad.len() as u64;
    let syntax = Scen::cases("malformed requests", n, 2000, move |i| {
        let b = &bad[i as usize];
        for max in [usize::MAX, 1] {
            let mut p = Pieces::new(b, vec![]);
            p.max = max;
            match Request::read_from(p) { Err(HttpError::InvalidRequest(_)) => {} r => return Err(format!("malformed ({:?}) input \"{}\" is reported as {:?}", ref_request(b), esc(b), r)) }
        }
        Ok("malformed".into())
    });
    let writes = Scen::cases("errors while writing", (NREQ / 41 + NRESP / 11) * 4 * 3, 50, move |i| {
        let mut d = Dig(i);
        let lens = LENS[[0, 1, 2][d.n(3) as usize]];
        let kind = *d.of(&[io::ErrorKind::TimedOut, io::ErrorKind::NotConnected, io::ErrorKind::BrokenPipe, io::ErrorKind::Other]);
        let m = d.0;
        let run = |s: &mut Sink| if m < NREQ / 41 { mk_request(m * 41).0.write(s) } else { mk_response((m - NREQ / 41) * 11).0.write(s) };
        let mut f = Sink::new(lens);
        run(&mut f).map_err(|e| format!("{:?}", e))?;
        for at in 0..f.calls.min(150) {
            let mut s = Sink::new(lens);
            s.fail_at = Some((at, kind));
            let r = run(&mut s);
            match (kind, &r) {
                (_, Ok(())) => return Err(format!("{:?} at write call {} of {} is reported as success", kind, at, f.calls)),
                (io::ErrorKind::TimedOut, Err(e)) if *e != HttpError::Timeout => return Err(format!("a timeout at write call {} of {} is reported as {:?}", at, f.calls, e)),
                (io::ErrorKind::NotConnected, Err(e)) if *e != HttpError::ConnectionClosed => return Err(format!("a closed connection at write call {} of {} is reported as {:?}", at, f.calls, e)),
                _ => {}
            }
        }
        Ok(format!("{:?} while writing", kind))
    });
    // every kind of error the system knows, once or after an interruption
    use io::ErrorKind::*;
    let all: &'static [io::ErrorKind] = &[NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Unsupported, UnexpectedEof, OutOfMemory, StorageFull, QuotaExceeded, FileTooLarge, ResourceBusy, Deadlock, StaleNetworkFileHandle, Interrupted, Other];
    // a source that gives `left` bytes and then fails `times` times before it goes on to `total`
    struct Failing { at: usize, fail: usize, kind: io::ErrorKind, times: usize, total: usize }
    impl Read for Failing {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if self.at == self.fail && self.times > 0 { self.times -= 1; return Err(io::Error::from(self.kind)); }
            let end = if self.at < self.fail { self.fail.min(self.total) } else { self.total };
            let n = (end - self.at).min(b.len());
            b[..n].fill(b'y');
            self.at += n;
            Ok(n)
        }
    }
    let sizes: &'static [usize] = &[1, 10, 100, 8191, 8192, 8193, 65_536, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 3 << 20];
    let sources = Scen::cases("bodies whose source fails", 3 * 7 * sizes.len() as u64 * all.len() as u64, 20, move |i| {
        let mut d = Dig(i);
        let how = d.n(3);
        let at = d.n(7);
        let size = *d.of(sizes);
        let kind = all[d.0 as usize];
        let fail = [0, 1, size / 2, size - 1, size.saturating_sub(8192), 1 << 20, 8192 * 3 + 1][at as usize].min(size - 1);
        let src = Failing { at: 0, fail, kind, times: 1, total: size };
        let mut s = Sink::new(LENS[4]);
        s.lens = vec![usize::MAX];
        let body = Body::new(Some(mime::TEXT_PLAIN), size as u64, Box::new(src));
        let r = match how {
            0 => Request::from_body(body, HttpMethod::POST, "/").write(&mut s),
            1 => Response { status: StatusCode::OK, headers: Headers::new(), body: Some(body) }.write(&mut s),
            _ => { let mut b = body; b.write(&mut s) }
        };
        let bad = |m: &str| Err(format!("{}: {:?} after {} of {} bytes of a body being written ({}) -> {:?}", m, kind, fail, size, how, r));
        let sent = s.out.iter().rev().take_while(|c| **c == b'y').count();
        match (kind, &r) {
            (Interrupted, Ok(())) => { if sent != size { return bad("bytes are lost"); } }
            (Interrupted, Err(_)) => return bad("an interruption is not retried"),
            (_, Ok(())) => return bad("a failed message is reported as success"),
            (TimedOut, Err(e)) if *e != HttpError::Timeout => return bad("a timeout is not reported as such"),
            (NotConnected, Err(e)) if *e != HttpError::ConnectionClosed => return bad("a closed connection is not reported as such"),
            (_, Err(_)) => {}
        }
        if sent > size { return bad("more than the body is sent"); }
        Ok(format!("{:?} of a source", kind))
    });
    // every kind while reading a message in pieces and while writing a large one
    let msgs: Arc<Vec<(bool, Vec<u8>)>> = Arc::new(vec![
        (true, b"POST /a?b HTTP/1.1\r\nHost: x\r\nContent-Length: 10\r\n\r\n0123456789".to_vec()),
        (false, b"HTTP/1.1 200 OK\r\nServer: x\r\nContent-Length: 10\r\n\r\n0123456789".to_vec()),
        (true, [b"GET / HTTP/1.1\r\n".to_vec(), (0..40).flat_map(|k| format!("X-{}: {}\r\n", k, "v".repeat(300)).into_bytes()).collect(), b"\r\n".to_vec()].concat()),
    ]);
    let m2 = msgs.clone();
    let every = Scen::cases("every kind of error at every byte", all.len() as u64 * 3 * 2 * 100, 100, move |i| {
        let mut d = Dig(i);
        let kind = *d.of(all);
        let (req, b) = &m2[d.n(3) as usize];
        let twice = d.n(2) == 1;
        let step = b.len().div_ceil(100);
        let at = d.0 as usize * step;
        if at >= b.len() { return Ok("-not reached".into()); }
        struct Once { data: Vec<u8>, pos: usize, at: usize, errs: Vec<io::ErrorKind> }
        impl Read for Once {
            fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                if self.pos == self.at { if let Some(k) = self.errs.pop() { return Err(io::Error::from(k)); } }
                let end = if self.pos < self.at { self.at } else { self.data.len() };
                let n = (end - self.pos).min(b.len());
                b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
        let mk = || Once { data: b.clone(), pos: 0, at, errs: if twice { vec![kind, Interrupted] } else { vec![kind] } };
        let head = b.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
        let body = |x: Option<Body>| -> Result<(), HttpError> { x.map_or(Ok(()), |mut x| { let mut v = vec![]; x.read_to_end(&mut v).map(|_| ()).map_err(HttpError::from) }) };
        for by in 0..2 {
            let r = match (*req, by) {
                (true, 0) => Request::read_from(mk()).and_then(|r| body(r.body)),
                (true, _) => Request::read_from(mk()).and_then(|r| r.body.map_or(Ok(()), |mut b| b.ensure_read())),
                (false, 0) => Response::read_from(mk()).and_then(|r| body(r.body)),
                (false, _) => Response::read_from(mk()).and_then(|r| r.body.map_or(Ok(()), |mut b| b.ensure_read())),
            };
            let bad = |m: &str| Err(format!("{}: {:?}{} after {} bytes (head {}) -> {:?}", m, kind, if twice { " after an interruption" } else { "" }, at, head, r));
            match (kind, &r) {
                (Interrupted, Err(_)) => return bad("an interruption is not retried"),
                (Interrupted, Ok(())) => {}
                (_, Ok(())) => return bad("a failed message is reported as success"),
                (TimedOut, Err(e)) if *e != HttpError::Timeout => return bad("a timeout is not reported as such"),
                (NotConnected, Err(e)) if at == 0 && *e != HttpError::ConnectionClosed => return bad("a closed connection is not reported as such"),
                (k, Err(HttpError::Timeout)) if !matches!(k, TimedOut | WouldBlock) => return bad("nothing timed out"),
                (k, Err(HttpError::InvalidRequest(_))) => { let _ = k; return bad("the syntax is fine"); }
                (_, Err(_)) => {}
            }
        }
        Ok(format!("{:?} while reading", kind))
    });
    let bigs = Scen::cases("every kind of error while writing a large body", sizes.len() as u64 * all.len() as u64 * 2, 10, move |i| {
        let mut d = Dig(i);
        let size = *d.of(sizes);
        let resp = d.n(2) == 1;
        let kind = all[d.0 as usize];
        let run = |s: &mut Sink| {
            let body = Body::new(Some(mime::TEXT_PLAIN), size as u64, Box::new(io::repeat(b'z').take(size as u64)));
            if resp { Response { status: StatusCode::OK, headers: Headers::new(), body: Some(body) }.write(s) } else { Request::from_body(body, HttpMethod::POST, "/").write(s) }
        };
        let mut f = Sink::new(&[usize::MAX]);
        // in pieces, so that the end of the body takes some calls
        let lens: Vec<usize> = vec![if size > 100_000 { 300_000 } else { 5000 }];
        f.lens = lens.clone();
        run(&mut f).map_err(|e| format!("{:?}", e))?;
        for at in 0..f.calls {
            if at > 12 && at + 12 < f.calls && at % 37 != 0 { continue; }
            let mut s = Sink::new(&lens);
            s.fail_at = Some((at, kind));
            let r = run(&mut s);
            match (kind, &r) {
                (Interrupted, Ok(())) => { if s.out != f.out { return Err(format!("an interruption at write call {} of {} changes the bytes", at, f.calls)); } }
                (Interrupted, Err(e)) => return Err(format!("an interruption at write call {} of {} is reported as {:?}", at, f.calls, e)),
                (_, Ok(())) => return Err(format!("{:?} at write call {} of {} (body of {}) is reported as success", kind, at, f.calls, size)),
                (TimedOut, Err(e)) if *e != HttpError::Timeout => return Err(format!("a timeout at write call {} of {} (body of {}) is reported as {:?}", at, f.calls, size, e)),
                (NotConnected, Err(e)) if *e != HttpError::ConnectionClosed => return Err(format!("a closed connection at write call {} of {} (body of {}) is reported as {:?}", at, f.calls, size, e)),
                _ => {}
            }
        }
        Ok(format!("{:?} while writing", kind))
    });
    // a large body that ends or fails somewhere, however it is read
    let readers = Scen::cases("large bodies that end or fail, however they are read", sizes.len() as u64 * 9 * 8 * 2 * 5, 20, move |i| {
        let mut d = Dig(i);
        let size = *d.of(sizes);
        let at = d.n(9);
        let how = d.n(8);
        let req = d.n(2) == 1;
        let kind = [None, Some(UnexpectedEof), Some(ConnectionReset), Some(TimedOut), Some(Interrupted)][d.0 as usize];
        let fail = [0, 1, size / 2, size - 1, size.saturating_sub(8192), 65_536, 1 << 20, 8192 * 3 + 1, size][at as usize].min(size);
        if how == 2 && size > 70_000 { return Ok("-too long for single bytes".into()); }
        struct Src { head: io::Cursor<Vec<u8>>, b: Failing }
        impl Read for Src { fn read(&mut self, x: &mut [u8]) -> io::Result<usize> { match self.head.read(x)? { 0 => self.b.read(x), n => Ok(n) } } }
        let head = if req { format!("POST / HTTP/1.1\r\nContent-Length: {}\r\n\r\n", size) } else { format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", size) };
        let src = Src { head: io::Cursor::new(head.into_bytes()), b: match kind { None => Failing { at: 0, fail: 0, kind: Other, times: 0, total: fail }, Some(k) => Failing { at: 0, fail, kind: k, times: if k == Interrupted { 1 } else { usize::MAX }, total: size } } };
        let b = if req { Request::read_from(src).map(|r| r.body) } else { Response::read_from(src).map(|r| r.body) };
        let mut b = match b { Ok(Some(b)) => b, x => return Err(format!("the head is complete, but {:?}", x.map(|b| b.is_some()))) };
        fn all(r: &mut dyn Read, step: usize, max: usize) -> Result<usize, HttpError> {
            let mut x = vec![0u8; step];
            let mut n = 0;
            while n < max { match r.read(&mut x) { Ok(0) => break, Ok(k) => n += k, Err(e) if e.kind() == io::ErrorKind::Interrupted => {} Err(e) => return Err(e.into()) } }
            Ok(n)
        }
        let r: Result<Option<usize>, HttpError> = match how {
            0 => all(&mut b.content, 100_000, usize::MAX).map(Some),
            1 => all(&mut b, 8192, usize::MAX).map(Some),
            2 => all(&mut b.content, 1, usize::MAX).map(Some),
            3 => b.ensure_read().map(|_| None),
            4 => all(&mut b, size.div_ceil(3), size / 2).and_then(|_| b.ensure_read()).map(|_| None),
            5 => all(&mut b.content, size.div_ceil(3), size / 2).and_then(|_| b.ensure_read()).map(|_| None),
            6 => { let mut v = vec![]; b.content.read_to_end(&mut v).map(Some).map_err(|e| e.into()) }
            _ => { let mut v = vec![]; b.write(&mut v).map(|_| Some(v.len())) }
        };
        let bad = |m: &str| Err(format!("{}: a body of {} bytes, {:?} after {}, read in way {} -> {:?}", m, size, kind, fail, how, r));
        match (&r, kind) {
            (Ok(Some(n)), _) if *n != size => return bad("not the declared number of bytes"),
            (Ok(_), Some(Interrupted)) => {}
            (Ok(_), _) if fail == size => {}
            (Ok(_), _) => return bad("a truncated message is reported as success"),
            (Err(_), Some(Interrupted)) => return bad("an interruption is not retried"),
            (Err(_), None) if fail == size => return bad("a complete body fails"),
            (Err(e), Some(TimedOut)) if *e != HttpError::Timeout => return bad("a timeout is not reported as such"),
            (Err(HttpError::Timeout), k) if k != Some(TimedOut) => return bad("nothing timed out"),
            (Err(_), _) if fail == size => return bad("a complete body fails"),
            _ => {}
        }
        Ok(format!("{:?} in a body", kind))
    });
    let mut v = vec![reads, syntax, writes, sources, every, bigs, readers];
    v.extend(super::cli::c29_calls(th));
    v
}
