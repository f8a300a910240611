//! C37: a body is a stream of exactly its content, whatever is done with it.
use super::srv::*;
use super::util::*;
use super::{one_group, Prop, P0};
use crate::engine::Scen;
use crate::net::*;
use mcstd::mc;
use std::io::{self, Cursor, Read};
use wruster::http::{Body, HttpMethod, Request, Response};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C37", level: "exploration", scen: c37, groups: one_group,
        rule: "every sequence of operations on a body up to the bound, for every kind of body (received in a request or a response, in pieces, interrupted, truncated, or built by a program) and inside a handler of a real server; after every operation the bytes obtained are compared with a position in the content; distinct by construction, non-trivial: some byte of the content is obtained or its loss is reported",
        assumptions: &["what an operation that failed has consumed is left open where std leaves it open (read_exact)", "the error a second operation gets after a failure is not compared", "reads of a body that a program built with a source longer than declared are not limited"], ..P0 }]
}

/// Delivers its bytes in pieces of at most `max`; at the positions of `intr` it is interrupted once.
struct Src { data: Vec<u8>, pos: usize, max: usize, intr: Vec<usize> }
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if let Some(k) = self.intr.iter().position(|p| *p == self.pos) { self.intr.remove(k); return Err(io::ErrorKind::Interrupted.into()); }
        let next = self.intr.iter().copied().filter(|p| *p > self.pos).min().unwrap_or(usize::MAX);
        let n = b.len().min(self.max).min(self.data.len() - self.pos).min(next - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub const OPS: u64 = 12;
/// Where a body is: what was obtained so far, and what must still come.
pub struct At<'a> { content: &'a [u8], /// the content has this length
    len: usize, /// whether the end before `len` is an error
    sized: bool, pos: usize, failed: bool }
impl<'a> At<'a> {
    pub fn new(content: &'a [u8], len: usize, sized: bool) -> At<'a> { At { content, len, sized, pos: 0, failed: false } }
    fn have(&self) -> usize { self.content.len() }
    fn whole(&self) -> bool { self.have() >= self.len }
    fn took(&mut self, op: &str, b: &[u8]) -> Result<(), String> {
        let end = self.pos + b.len();
        if end > self.have() { return Err(format!("{} yields {} bytes at {} of a body of {}", op, b.len(), self.pos, self.have())); }
        if b != &self.content[self.pos..end] { return Err(format!("{} at {} yields {:?} instead of {:?}", op, self.pos, esc(b), esc(&self.content[self.pos..end]))); }
        self.pos = end;
        Ok(())
    }
    /// One read with a buffer of k bytes.
    fn one(&mut self, op: &str, k: usize, r: io::Result<Vec<u8>>) -> Result<(), String> {
        match r {
            Ok(b) => {
                if b.is_empty() && k > 0 && self.pos < self.have() { return Err(format!("{} at {} of {} says the body ends", op, self.pos, self.have())); }
                if b.is_empty() && k > 0 && self.sized && !self.whole() { return Err(format!("{}: a body of {} bytes that ends after {} has a regular end", op, self.len, self.have())); }
                self.took(op, &b)
            }
            Err(e) if e.kind() == io::ErrorKind::Interrupted => Ok(()),
            Err(e) => if self.sized && !self.whole() && self.pos == self.have() { self.failed = true; Ok(()) } else { Err(format!("{} at {} of {}: {:?}", op, self.pos, self.have(), e)) },
        }
    }
    /// Everything that is left.
    fn rest(&mut self, op: &str, b: Vec<u8>, ok: bool) -> Result<(), String> {
        self.took(op, &b)?;
        if self.pos != self.have() { return Err(format!("{} ends at {} of {}", op, self.pos, self.have())); }
        let want = self.whole() || !self.sized;
        if ok != want { return Err(format!("{} of a body of {} bytes that ends after {}: success {}", op, self.len, self.have(), ok)); }
        if !ok { self.failed = true; }
        Ok(())
    }
    pub fn apply(&mut self, op: u64, body: &mut Body) -> Result<(), String> {
        let read = |r: &mut dyn Read, k: usize| { let mut b = vec![0; k]; r.read(&mut b).map(|n| { b.truncate(n); b }) };
        match op {
            0 => { let r = read(body, 1); self.one("read of 1", 1, r) }
            1 => { let r = read(body, 3); self.one("read of 3", 3, r) }
            2 => { let r = read(body, 10_000); self.one("read of 10000", 10_000, r) }
            3 => { let r = read(body, 0); self.one("read of 0", 0, r) }
            4 => { let r = read(&mut body.content, 2); self.one("read of 2 from the content", 2, r) }
            5 => {
                let mut b = [0; 2];
                match body.read_exact(&mut b) {
                    Ok(()) => self.took("read_exact", &b),
                    Err(e) if self.pos + 2 <= self.have() => Err(format!("read_exact of 2 at {} of {}: {:?}", self.pos, self.have(), e)),
                    Err(_) => { self.pos = self.have(); self.failed |= self.sized && !self.whole(); Ok(()) }
                }
            }
            6 => { let mut b = vec![]; let r = body.read_to_end(&mut b); self.rest("read_to_end", b, r.is_ok()) }
            7 => {
                let mut b = vec![];
                let r = body.by_ref().take(2).read_to_end(&mut b);
                let n = 2.min(self.have() - self.pos);
                if b.len() != n { return Err(format!("take(2) at {} of {} yields {} bytes", self.pos, self.have(), b.len())); }
                self.took("take(2)", &b)?;
                if r.is_err() && (n == 2 || !self.sized || self.whole()) { return Err(format!("take(2) at {} of {}: {:?}", self.pos, self.have(), r)); }
                if r.is_ok() && n < 2 && self.sized && !self.whole() { return Err(format!("take(2) does not see that the body of {} bytes ends after {}", self.len, self.have())); }
                Ok(())
            }
            8 => match body.by_ref().bytes().next() {
                None => self.one("bytes()", 1, Ok(vec![])),
                Some(r) => { let r = r.map(|b| vec![b]); self.one("bytes()", 1, r) }
            },
            9 => {
                let r = body.ensure_read();
                if self.sized && r.is_ok() != self.whole() { return Err(format!("ensure_read at {} of a body of {} bytes that ends after {}: {:?}", self.pos, self.len, self.have(), r)); }
                if r.is_err() { if !self.sized { return Err(format!("ensure_read at {} of a body built by a program: {:?}", self.pos, r)); } self.failed = true; }
                self.pos = self.have();
                Ok(())
            }
            10 => {
                let mut s = Sink::new(&[1, 7, 1000]);
                let from = self.pos;
                let r = body.write(&mut s);
                self.took("write", &s.out)?;
                if self.pos != self.have() { return Err(format!("write at {} ends at {} of {}", from, self.pos, self.have())); }
                if from == 0 && r.is_ok() != self.whole() { return Err(format!("write of a body of {} bytes that has {}: {:?}", self.len, self.have(), r)); }
                if from > 0 && r.is_ok() && !self.whole() { return Err(format!("write of what is left of a truncated body: {:?}", r)); }
                if r.is_err() && self.sized && !self.whole() { self.failed = true; }
                Ok(())
            }
            _ => { let _ = format!("{:?}", body); if body.content_length != self.len as u64 { return Err(format!("content_length {} instead of {}", body.content_length, self.len)); } Ok(()) }
        }
    }
    /// In the end everything that was left comes, and then nothing.
    pub fn end(&mut self, body: &mut Body) -> Result<(), String> {
        if self.failed { return Ok(()); }
        let mut b = vec![];
        let r = body.read_to_end(&mut b);
        self.rest("the last read", b, r.is_ok())?;
        if self.failed { return Ok(()); }
        body.ensure_read().map_err(|e| format!("ensure_read at the end: {:?}", e))?;
        match body.read(&mut [0; 4]) { Ok(0) => Ok(()), x => Err(format!("a read after the end: {:?}", x)) }
    }
}
pub fn op_name(op: u64) -> &'static str { ["read1", "read3", "read10000", "read0", "content2", "exact2", "to_end", "take2", "bytes", "ensure", "write", "debug"][op as usize] }
fn content(n: usize) -> Vec<u8> { (0..n).map(|i| b'!' + (i % 90) as u8).collect() }
fn run(body: &mut Body, data: &[u8], len: usize, sized: bool, ops: &[u64]) -> Result<(), String> {
    let mut at = At::new(data, len, sized);
    for (k, op) in ops.iter().enumerate() {
        if at.failed { break; }
        at.apply(*op, body).map_err(|e| format!("{} (operation {} of {:?})", e, k, ops.iter().map(|o| op_name(*o)).collect::<Vec<_>>()))?;
    }
    at.end(body).map_err(|e| format!("{} (after {:?})", e, ops.iter().map(|o| op_name(*o)).collect::<Vec<_>>()))
}

fn c37(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    let mut v = vec![];
    let len = if th { 5 } else { 4 };
    // kinds: request, response; short or long bodies; what is missing at the end
    let sizes: Vec<usize> = if th { vec![1, 2, 3, 4, 5, 8, 9, 8191, 8192, 8193, 20_000] } else { vec![1, 2, 3, 5, 8, 8192, 9001] };
    let ns = sizes.len() as u64;
    v.push(Scen::cases("bodies received", OPS.pow(len) * ns * 3 * 3 * 2 * 2, 2000, move |i| {
        let mut d = Dig(i);
        let n = sizes[d.n(ns) as usize];
        let resp = d.n(2) == 1;
        let max = *d.of(&[usize::MAX, 1, 3]);
        let missing = [0, 1, n][d.n(3) as usize];
        let intr = d.n(2) == 1;
        let ops: Vec<u64> = (0..len).map(|_| d.n(OPS)).collect();
        if missing == 1 && n == 1 || (n > 1000 && max < 100 && ops[0] > 2 && !th) { return Ok("-duplicate or long".into()); }
        let data = &content(n)[..n - missing];
        let head = format!("{}Content-Length: {}\r\n\r\n", if resp { "HTTP/1.1 200 OK\r\n" } else { "POST / HTTP/1.1\r\n" }, n);
        let mut m = head.clone().into_bytes();
        m.extend(data);
        // what follows the body is not part of it
        if missing == 0 { m.extend(b"GET /next HTTP/1.1\r\n\r\n"); }
        let h = head.len();
        let src = Src { data: m, pos: 0, max, intr: if intr { vec![3, h, h + 1, h + n / 2, h + n] } else { vec![] } };
        let mut body = if resp { Response::read_from(src).map_err(|e| format!("{:?}", e))?.body } else { Request::read_from(src).map_err(|e| format!("{:?}", e))?.body }.ok_or("no body")?;
        run(&mut body, data, n, true, &ops)?;
        Ok(format!("{} missing {}", if resp { "response" } else { "request" }, missing.min(2)))
    }));
    v.push(Scen::cases("bodies built by a program", OPS.pow(len) * 6 * 3 * 7, 2000, move |i| {
        let mut d = Dig(i);
        let n = *d.of(&[0usize, 1, 2, 4, 7, 300]);
        let short = [0, 1, n][d.n(3) as usize];
        let how = d.n(7);
        let ops: Vec<u64> = (0..len).map(|_| d.n(OPS)).collect();
        if short > n || (short > 0 && how > 1) || (n == 0 && short > 0) { return Ok("-not possible".into()); }
        // as a string: characters of one byte, or of one to four
        let s = if how < 5 { String::from_utf8(content(n)[..n - short].to_vec()).unwrap() } else { ['é', 'x', '語', '😀'].into_iter().cycle().take(n).collect::<String>() };
        let data = s.clone().into_bytes();
        let n = if how < 2 { n } else { data.len() };
        let mut body = match how {
            0 => Body::new(Some(text()), n as u64, Box::new(Cursor::new(data.clone()))),
            1 => Body::new(None, n as u64, Box::new(Src { data: data.clone(), pos: 0, max: 1, intr: vec![0, n / 2] })),
            2 => Body::from(s, text()),
            3 => Body::from(s.as_str(), text()),
            4 | 5 => <Body as From<&str>>::from(&s),
            _ => <Response as std::str::FromStr>::from_str(&s).unwrap().body.ok_or("no body")?,
        };
        if how > 3 && body.content_type.as_ref().map(|m| m.essence_str().to_string()).as_deref() != Some("text/plain") { return Err(format!("a string has the type {:?}", body.content_type)); }
        run(&mut body, &data, n, false, &ops)?;
        Ok(format!("built {}", how))
    }));
    // a source longer than declared: nothing beyond the length is written, nothing panics
    v.push(Scen::cases("a source longer than declared", OPS.pow(3) * 4 * 3, 500, move |i| {
        let mut d = Dig(i);
        let (n, more) = (*d.of(&[0usize, 1, 4, 9]), *d.of(&[1usize, 2, 5000]));
        let ops: Vec<u64> = (0..3).map(|_| d.n(OPS)).collect();
        let data = content(n + more);
        let mut body = Body::new(Some(text()), n as u64, Box::new(Cursor::new(data.clone())));
        let mut whole = Body::new(Some(text()), n as u64, Box::new(Cursor::new(data.clone())));
        let mut out = vec![];
        whole.write(&mut out).map_err(|e| format!("write: {:?}", e))?;
        if out != data[..n] { return Err(format!("a body of {} bytes is written as {}", n, out.len())); }
        for op in ops {
            let mut b = vec![0; 3];
            match op {
                0 | 1 | 3 | 4 => { let _ = body.read(&mut b[..op.min(3) as usize]); }
                5 => { let _ = body.read_exact(&mut b); }
                2 | 6 => { let _ = body.read_to_end(&mut b); }
                7 | 8 => { let _ = body.by_ref().take(op - 6).read_to_end(&mut b); }
                9 => body.ensure_read().map_err(|e| format!("ensure_read: {:?}", e))?,
                10 => { let mut o = vec![]; let _ = body.write(&mut o); if o.len() > n { return Err(format!("a body of {} bytes is written as {}", n, o.len())); } }
                _ => { let _ = format!("{:?}", body); }
            }
        }
        Ok("longer".into())
    }));
    // inside a handler: the body comes from the connection, which goes on afterwards
    let len = if th { 4 } else { 3 };
    v.push(Scen::cases("bodies in a handler", OPS.pow(len) * 4 * 5 * 2, 40, move |i| {
        let mut d = Dig(i);
        let n = *d.of(&[1usize, 4, 9, 9000]);
        let how = d.n(5);
        let glued = d.n(2) == 1;
        let ops: Vec<u64> = (0..len).map(|_| d.n(OPS)).collect();
        if glued && how == 4 { return Ok("-nothing follows".into()); }
        let rec = Rec::default();
        let rec2 = rec.clone();
        let data = content(n);
        let have = if how == 4 { n - 1 } else { n };
        let seen = data[..have].to_vec();
        let ops2 = ops.clone();
        let s = start_t(routes(vec![("/", HttpMethod::POST, h(move |r| {
            rec2.push(&r.uri);
            let mut b = r.body.take().unwrap_or_else(|| mc::fail("no body"));
            let mut at = At::new(&seen, n, true);
            for op in &ops2 { if at.failed { break; } if let Err(e) = at.apply(*op, &mut b) { mc::fail(format!("{} in {:?}", e, ops2.iter().map(|o| op_name(*o)).collect::<Vec<_>>())); } }
            // put back or kept
            if ops2[0] % 2 == 0 { r.body = Some(b); }
            reply("handled")
        })), ("/", HttpMethod::GET, echo(&rec))]), 5000, 5000);
        let mut c = Client::connect();
        let head = format!("POST /b HTTP/1.1\r\nContent-Length: {}\r\n\r\n", n);
        let mut m = head.clone().into_bytes();
        m.extend(&data[..have]);
        if glued { m.extend(get("/next")); }
        let cut = match how { 0 => m.len(), 1 => head.len(), 2 => head.len() + n / 2, 3 => head.len() + 1, _ => m.len() };
        must_send(&mut c, &m[..cut]);
        if cut < m.len() { mc::sleep_ms(10); must_send(&mut c, &m[cut..]); }
        if how == 4 {
            c.fin();
            let (_, _) = c.drain();
        } else {
            if !glued { must_send(&mut c, &get("/next")); }
            expect_text(&mut c, "handled");
            expect_text(&mut c, "GET /next");
        }
        drop(c);
        mc::quiesce();
        finish(s);
        if rec.len() != if how == 4 { 1 } else { 2 } { return Err(format!("handled {:?}", rec.get())); }
        if !mc::panics().is_empty() { return Err(format!("panic {:?}", mc::panics())); }
        Ok(format!("handler {}", how))
    }));
    v
}
