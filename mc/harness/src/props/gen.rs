//! Generators of messages and a reference parser written from the grammar alone (RFC 7230).
use std::collections::HashSet;

pub const METHODS: [&str; 9] = ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"];

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RefReq { pub method: String, pub target: String, pub version: String, pub headers: Vec<(String, String)>, pub body: Vec<u8>, pub consumed: usize }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Verdict {
    /// well formed
    Ok(RefReq),
    /// well formed up to a body that ends early
    ShortBody(RefReq, usize),
    /// outside the grammar (or supported set)
    Reject(&'static str),
    /// the input ends before the end of the header section
    Incomplete,
    /// the grammar leaves it open, or it is outside the domain of the property
    Either(&'static str),
}
fn is_tchar(c: u8) -> bool { c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c) }
/// Reference: what a request reader must make of `b`.
pub fn ref_request(b: &[u8]) -> Verdict {
    use Verdict::*;
    let mut open: Option<&'static str> = None;
    // The request line. Everything that is already wrong in the bytes present is wrong whatever follows.
    let Some(lf) = b.iter().position(|c| *c == b'\n') else { return Incomplete };
    let line = &b[..lf];
    if line.last() != Some(&b'\r') { return Reject("request line without CRLF"); }
    let line = &line[..line.len() - 1];
    if line.iter().any(|c| *c == b'\r') { return Reject("CR in request line"); }
    let parts: Vec<&[u8]> = line.split(|c| *c == b' ').collect();
    if parts.len() != 3 { return Reject("request line"); }
    let m = parts[0];
    if !METHODS.iter().any(|x| x.as_bytes() == m) { return Reject("method"); }
    let t = parts[1];
    if t.is_empty() { return Reject("empty target"); }
    if t.iter().any(|c| *c < 0x21 || *c == 0x7f) { return Reject("control or white space in target"); }
    if t.iter().any(|c| *c >= 0x80) { open = Some("non-ASCII target"); }
    let v = parts[2];
    let vok = v.len() == 8 && v.starts_with(b"HTTP/") && v[5].is_ascii_digit() && v[6] == b'.' && v[7].is_ascii_digit();
    if v == b"HTTP/2" { open = Some("HTTP/2"); } else if !vok { return Reject("version"); }
    rest(b, lf + 1, [m, t, v].map(|x| String::from_utf8_lossy(x).into_owned()), open)
}
/// Reference: what a response reader must make of `b`; the code is in `target`.
pub fn ref_response(b: &[u8]) -> Verdict {
    use Verdict::*;
    let mut open: Option<&'static str> = None;
    let Some(lf) = b.iter().position(|c| *c == b'\n') else { return Incomplete };
    let line = &b[..lf];
    if line.last() != Some(&b'\r') { return Reject("status line without CRLF"); }
    let line = &line[..line.len() - 1];
    let mut parts = line.splitn(3, |c| *c == b' ');
    let (Some(v), Some(c), Some(reason)) = (parts.next(), parts.next(), parts.next()) else { return Reject("status line") };
    let num = |x: &[u8]| !x.is_empty() && x.iter().all(|c| c.is_ascii_digit());
    let Some(n) = v.strip_prefix(b"HTTP/") else { return Reject("version") };
    let n: Vec<&[u8]> = n.split(|c| *c == b'.').collect();
    if n.len() != 2 || !num(n[0]) || !num(n[1]) { return Reject("version"); }
    if v.len() != 8 { open = Some("version of several digits"); }
    if c.len() != 3 || !num(c) { return Reject("status code"); }
    if c[0] == b'0' { open = Some("status code below 100"); }
    if c[0] == b'1' { open = Some("informational response"); }
    if c == b"204" || c == b"304" { open = Some("response that cannot have a body"); }
    if reason.iter().any(|c| *c < 0x20 && *c != b'\t' || *c == 0x7f) { open = Some("control character in the reason phrase"); }
    rest(b, lf + 1, [String::new(), String::from_utf8_lossy(c).into_owned(), String::new()], open)
}
/// Header section and body.
fn rest(b: &[u8], mut pos: usize, first: [String; 3], mut open: Option<&'static str>) -> Verdict {
    use Verdict::*;
    let mut headers: Vec<(String, String)> = vec![];
    loop {
        let rest = &b[pos..];
        let Some(end) = rest.windows(2).position(|w| w == b"\r\n") else {
            return Incomplete;
        };
        let l = &rest[..end];
        pos += end + 2;
        if l.is_empty() { break; }
        let Some(c) = l.iter().position(|c| *c == b':') else { return Reject("header without colon") };
        let n = &l[..c];
        if n.is_empty() || !n.iter().all(|c| is_tchar(*c)) { return Reject("header name"); }
        let mut v = &l[c + 1..];
        while let [b' ' | b'\t', r @ ..] = v { v = r; }
        while let [r @ .., b' ' | b'\t'] = v { v = r; }
        if v.iter().any(|c| (*c < 0x20 && *c != b'\t') || *c == 0x7f) { return Reject("header value"); }
        if v.iter().any(|c| *c >= 0x80) { open = Some("non-ASCII header value"); }
        headers.push((String::from_utf8_lossy(n).to_ascii_lowercase(), String::from_utf8_lossy(v).into_owned()));
    }
    let get = |n: &str| -> Vec<&str> { headers.iter().filter(|h| h.0 == n).map(|h| h.1.as_str()).collect() };
    // a body in a coding that is not supported must never be taken for none, or for one of Content-Length octets
    let te = get("transfer-encoding");
    if te.iter().flat_map(|v| v.split(',')).map(|v| v.trim_matches([' ', '\t'])).any(|v| !v.is_empty() && !v.eq_ignore_ascii_case("identity")) && open.is_none() { return Reject("transfer coding"); }
    if !te.is_empty() { return Either("transfer-encoding"); }
    let cl = get("content-length");
    let mut len = 0usize;
    if !cl.is_empty() {
        let all: Vec<&str> = cl.iter().flat_map(|v| v.split(',')).map(|v| v.trim_matches([' ', '\t'])).collect();
        if all.iter().any(|v| v.is_empty() || !v.bytes().all(|c| c.is_ascii_digit())) { return Reject("content-length"); }
        if all.len() > 1 {
            let n: Vec<&str> = all.iter().map(|v| v.trim_start_matches('0')).collect();
            if n.windows(2).any(|w| w[0] != w[1]) { return Reject("differing content-lengths"); }
            return Either("repeated content-length");
        }
        match all[0].parse::<usize>() { Result::Ok(n) => len = n, Err(_) => return Reject("content-length too large") }
    }
    if len > 0 {
        let ct = get("content-type");
        if let Some(c) = ct.first() {
            // type "/" subtype and simple parameters are always acceptable, the rest is left open
            if !["text/plain", "application/json", "text/plain; charset=utf-8"].contains(c) { open = Some("content-type"); }
        }
    }
    let avail = b.len() - pos;
    let r = RefReq {
        method: first[0].clone(), target: first[1].clone(), version: first[2].clone(),
        headers, body: b[pos..pos + len.min(avail)].to_vec(), consumed: pos + len.min(avail),
    };
    if let Some(o) = open { return Either(o); }
    if avail < len { return ShortBody(r, len); }
    Ok(r)
}

pub fn base_responses() -> Vec<Vec<u8>> {
    [
        "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhello",
        "HTTP/1.0 404 Not Found\r\ncontent-length:0\r\nX-A: 1\r\nX-A: 2\r\n\r\n",
        "HTTP/1.1 999 \r\nContent-Type: text/plain\r\nContent-Length: 12\r\n\r\nhello\r\nworld",
        "HTTP/1.1 500 Internal Server  Error!\r\nX-Empty:\r\nX-Tab:\tv \t w\t\r\nContent-Length: 3\r\n\r\nabcHTTP/1.1 200 OK\r\n",
        "HTTP/2.0 301 Moved\r\nLocation: http://h:1/x y?z\r\nContent-Length: 1\r\nConnection: close, x\r\n\r\nz",
        "HTTP/1.1 200 OK\r\n\r\n",
    ].iter().map(|s| s.as_bytes().to_vec()).collect()
}
/// All byte strings made from `base` by one corruption.
pub fn corrupt(base: &[u8], alphabet: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for i in 0..=base.len() {
        v.push(base[..i].to_vec());
        for a in alphabet {
            let mut x = base.to_vec();
            x.insert(i, *a);
            v.push(x);
        }
        if i == base.len() { break; }
        let mut x = base.to_vec();
        x.remove(i);
        v.push(x);
        let mut x = base.to_vec();
        x.insert(i, base[i]);
        v.push(x);
        if i + 1 < base.len() {
            let mut x = base.to_vec();
            x.swap(i, i + 1);
            v.push(x);
        }
        for a in alphabet {
            let mut x = base.to_vec();
            x[i] = *a;
            v.push(x);
        }
    }
    v
}
/// Lengths looked at one by one: every one up to `top`, and the ones around larger powers of two.
pub fn lengths(top: usize, powers: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..top).collect();
    v.extend((8..powers).flat_map(|k| [-3i64, -2, -1, 0, 1].map(|o| ((1i64 << k) + o) as usize)).filter(|n| *n >= top));
    v.extend([1000, 1001, 10_000, 100_000].into_iter().filter(|n| *n < 1 << powers));
    v
}
/// What can stand behind `n` plain octets: characters of two, three and four octets, parts of one, and octets that are none.
pub const TAILS: [&[u8]; 12] = ["é".as_bytes(), "€".as_bytes(), "😀".as_bytes(), b"\x80", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", "ééé".as_bytes(), b"%c3%a9", b"'\"", b""];
/// Places of a message where a long token can stand.
pub const LONG_REQ: [(&str, &str); 11] = [("GET /", " HTTP/1.1\r\n\r\n"), ("GET /a/b/", "/c/.. HTTP/1.1\r\n\r\n"), ("GET /?", " HTTP/1.1\r\n\r\n"), ("GET http://", "/ HTTP/1.1\r\n\r\n"), ("GET / HTTP/1.1\r\nX", ": v\r\n\r\n"), ("GET / HTTP/1.1\r\nX: ", "\r\n\r\n"), ("PUT / HTTP/1.1\r\nX: a\r\nX: ", "\r\nContent-Length: 2\r\n\r\nhi"),
    ("POST / HTTP/1.1\r\nContent-Type: text/plain\r\nContent-Length: ", "\r\n\r\nhi"), ("GET / HTTP/1.1\r\nConnection: ", "\r\n\r\n"), ("", " / HTTP/1.1\r\n\r\n"), ("GET / HTTP/1.", "\r\n\r\n")];
pub const LONG_RESP: [(&str, &str); 7] = [("HTTP/1.1 200 ", "\r\nContent-Length: 2\r\n\r\nhi"), ("HTTP/1.1 200 OK\r\nX", ": v\r\nContent-Length: 2\r\n\r\nhi"), ("HTTP/1.1 200 OK\r\nX: ", "\r\nContent-Length: 2\r\n\r\nhi"), ("HTTP/1.1 200 OK\r\nContent-Length: ", "\r\n\r\nhi"), ("HTTP/1.1 200 OK\r\nConnection: ", "\r\nContent-Length: 2\r\n\r\nhi"), ("HTTP/1.", " 200 OK\r\nContent-Length: 0\r\n\r\n"), ("HTTP/1.1 2", " OK\r\nContent-Length: 0\r\n\r\n")];
/// `n` plain octets (digits where only a number makes sense) with something else behind them, in one of the places.
pub fn mixed((pre, post): (&str, &str), n: usize, tail: &[u8]) -> Vec<u8> {
    let digit = pre.ends_with("Length: ") || pre.ends_with("HTTP/1.") || pre.ends_with(" 2");
    let x: Vec<u8> = (0..n).map(|i| if digit { b'0' } else { b'a' + (i * 7 % 26) as u8 }).collect();
    let end: &[u8] = if digit && tail.is_empty() { b"2" } else { b"" };
    [pre.as_bytes(), &x, tail, end, post.as_bytes()].concat()
}
pub fn dedup(v: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    let mut seen = HashSet::new();
    v.into_iter().filter(|x| seen.insert(x.clone())).collect()
}
pub const ADVERSARIAL: &[u8] = b" \t\r\n\0:,;=\"/.-+0915AGazH?*\x7f\x80\xff";
pub const ADV_SMALL: &[u8] = b" \t\r\n\0:,/+0H\x80";

pub fn base_requests() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for s in [
        "GET / HTTP/1.1\r\n\r\n",
        "GET /a/b?c=d HTTP/1.0\r\nHost: h\r\n\r\n",
        "POST / HTTP/1.1\r\nContent-Length: 5\r\n\r\nhello",
        "PUT /x HTTP/1.1\r\nContent-Type: text/plain\r\nContent-Length: 3\r\nX-A: 1\r\nX-A: 2\r\n\r\nabc",
        "OPTIONS * HTTP/1.1\r\nAccept: a, b;q=0.5\r\nConnection: keep-alive, close\r\n\r\n",
        "DELETE /d HTTP/1.1\r\nX-Empty:\r\nX-Tab:\tv \t w\t\r\nContent-Length: 0\r\n\r\n",
        "PATCH http://host:80/p HTTP/1.1\r\nHost: host:80\r\ncontent-length: 12\r\n\r\nhello\r\nworld",
    ] { v.push(s.as_bytes().to_vec()); }
    v
}
pub fn product_requests() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for m in METHODS {
        for t in ["/", "/a/b?c=d", "*", "http://h/x", "/%20;,:@"] {
            for ver in ["HTTP/1.1", "HTTP/1.0", "HTTP/1.2", "HTTP/2.0"] {
                for h in ["", "Host: h\r\n", "X: \r\nY:v\r\n", "A: 1\r\nB: 2\r\nA: 3\r\na: 4\r\n", "Content-Type: text/plain\r\n", "X-~!#: \"q\"\t;x=y \r\n"] {
                    for body in ["", "x", "hello", "GET / HTTP/1.1\r\n\r\n"] {
                        for zero in [false, true] {
                            if zero && !body.is_empty() { continue; }
                            let cl = if zero || !body.is_empty() { format!("Content-Length: {}\r\n", body.len()) } else { String::new() };
                            for trail in ["", "GET /next HTTP/1.1\r\n\r\n"] {
                                v.push(format!("{} {} {}\r\n{}{}\r\n{}{}", m, t, ver, h, cl, body, trail).into_bytes());
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

/// Messages with one or two Transfer-Encoding fields, and something behind them that looks like a body in chunks or the next message.
pub fn transfer_codings(start: &str, next: &str) -> Vec<Vec<u8>> {
    let values = ["chunked", "Chunked", "CHUNKED", "identity", "gzip", "x", "gzip, chunked", "chunked, identity", "identity, chunked", "identity,identity", "chunked;q=1", "\tchunked ", "identityx", "xidentity", "i", "0"];
    let names = ["Transfer-Encoding", "transfer-encoding", "TRANSFER-ENCODING"];
    let mut v = vec![];
    for a in values { for b in [""].into_iter().chain(values) { for (k, n) in names.iter().enumerate() {
        let two = if b.is_empty() { String::new() } else { format!("{}: {}\r\n", names[(k + 1) % 3], b) };
        for len in ["", "Content-Length: 0\r\n", "Content-Length: 5\r\n"] { for body in ["", "5\r\nhello\r\n0\r\n\r\n", "0\r\n\r\n", "hello"] {
            if !b.is_empty() && body.len() < 6 && k != 0 { continue; }
            v.push(format!("{}{}{}: {}\r\n{}\r\n{}{}", start, len, n, a, two, body, next).into_bytes());
            if len.len() > 0 { v.push(format!("{}{}: {}\r\n{}{}\r\n{}{}", start, n, a, len, two, body, next).into_bytes()); }
        } }
    } } }
    v
}
