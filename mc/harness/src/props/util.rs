//! Shared pieces of the scenarios.
use std::io::{self, Read, Write};
use mcstd::sync as fs;
use std::str::FromStr;
use std::sync::Arc;

pub fn text() -> mime::Mime { mime::Mime::from_str("text/plain").unwrap() }
pub fn esc(b: &[u8]) -> String { b.iter().take(400).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect() }

/// Mixed radix decoding of a case number.
pub struct Dig(pub u64);
impl Dig {
    pub fn n(&mut self, k: u64) -> u64 { let r = self.0 % k; self.0 /= k; r }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len() as u64) as usize] }
}

/// Delivers `data` in pieces: cuts[i] is the position where the i-th piece ends.
#[derive(Clone)]
pub struct Pieces { pub data: Vec<u8>, pub pos: usize, pub cuts: Vec<usize>, pub calls: usize, pub fail_at: Option<(usize, io::ErrorKind)>, pub max: usize }
impl Pieces {
    pub fn new(data: &[u8], cuts: Vec<usize>) -> Pieces { Pieces { data: data.to_vec(), pos: 0, cuts, calls: 0, fail_at: None, max: usize::MAX } }
}
impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        if let Some((n, k)) = self.fail_at { if c == n { return Err(io::Error::from(k)); } }
        let next = self.cuts.iter().copied().filter(|x| *x > self.pos).min().unwrap_or(self.data.len()).min(self.data.len());
        let n = (next - self.pos).min(b.len()).min(self.max);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Accepts at most lens[i % len] bytes per call and can fail at one call.
pub struct Sink { pub out: Vec<u8>, pub lens: Vec<usize>, pub calls: usize, pub fail_at: Option<(usize, io::ErrorKind)>, pub zero_at: Option<usize> }
impl Sink {
    pub fn new(lens: &[usize]) -> Sink { Sink { out: vec![], lens: lens.to_vec(), calls: 0, fail_at: None, zero_at: None } }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        if let Some((n, k)) = self.fail_at { if c == n { return Err(io::Error::from(k)); } }
        if self.zero_at == Some(c) { return Ok(0); }
        let n = self.lens[c % self.lens.len()].min(b.len());
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

pub fn hdrs(h: &wruster::http::headers::Headers) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = h.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    v.sort();
    v
}

/// Lets threads through once it is open.
pub struct Gate(fs::Mutex<bool>, fs::Condvar);
impl Gate {
    pub fn new(open: bool) -> Arc<Gate> { Arc::new(Gate(fs::Mutex::new(open), fs::Condvar::new())) }
    pub fn open(&self) { *self.0.lock().unwrap() = true; self.1.notify_all(); }
    pub fn close(&self) { *self.0.lock().unwrap() = false; }
    pub fn pass(&self) { let mut g = self.0.lock().unwrap(); while !*g { g = self.1.wait(g).unwrap(); } }
}

/// What the system may say of a call that fails (errno): accept(2), read(2), write(2), epoll_ctl(2), dup(2).
pub const ERRORS: &[i32] = &[
    1, 5, 12, 13, 19, 23, 24, 28, 32, 64, 71, 74, 75, 92, 95, 99, 100, 101, 102, 103, 104, 105, 107, 108, 110, 111, 112, 113, 121, 125,
];
