//! Client-side helpers of the harness and an independent HTTP/1.1 response reader.
use mcstd::mc;
use mcstd::net::{Shutdown, TcpStream};
use std::io::{self, Read, Write};
use std::time::Duration;

pub const ADDR: &str = "127.0.0.1:8082";

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Resp { pub version: String, pub status: u16, pub reason: String, pub headers: Vec<(String, String)>, pub body: Vec<u8> }
impl Resp {
    pub fn header(&self, n: &str) -> Vec<&str> { self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.as_str()).collect() }
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.body).into_owned() }
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum RErr {
    /// end of stream before the first byte of a response
    Eof,
    /// end of stream in the middle of a response
    Cut(Vec<u8>),
    Bad(String),
    Io(io::ErrorKind),
}

/// A strict incremental response reader over raw bytes.
/// Ok(None): more bytes needed.
pub fn parse_resp(b: &[u8]) -> Result<Option<(Resp, usize)>, String> {
    let Some(h) = b.windows(4).position(|w| w == b"\r\n\r\n") else {
        if b.len() > 65536 { return Err("endless header section".into()); }
        return Ok(None);
    };
    let head = std::str::from_utf8(&b[..h]).map_err(|_| "header section is not text".to_string())?;
    let mut lines = head.split("\r\n");
    let sl = lines.next().unwrap();
    let mut p = sl.splitn(3, ' ');
    let version = p.next().unwrap_or("").to_string();
    if !version.starts_with("HTTP/") { return Err(format!("bad status line {:?}", sl)); }
    let code = p.next().unwrap_or("");
    if code.len() != 3 || !code.bytes().all(|c| c.is_ascii_digit()) { return Err(format!("bad status line {:?}", sl)); }
    let reason = p.next().unwrap_or("").to_string();
    let mut headers = vec![];
    for l in lines {
        let Some((n, v)) = l.split_once(':') else { return Err(format!("bad header line {:?}", l)) };
        if n.is_empty() || n.bytes().any(|c| !(c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c))) { return Err(format!("bad header name {:?}", l)); }
        headers.push((n.to_string(), v.trim_matches(|c| c == ' ' || c == '\t').to_string()));
    }
    let cl: Vec<&String> = headers.iter().filter(|x| x.0.eq_ignore_ascii_case("content-length")).map(|x| &x.1).collect();
    if headers.iter().any(|x| x.0.eq_ignore_ascii_case("transfer-encoding")) { return Err("unexpected Transfer-Encoding".into()); }
    if cl.len() != 1 { return Err(format!("{} Content-Length fields in response {:?}", cl.len(), head)); }
    let n: usize = cl[0].parse().map_err(|_| format!("bad Content-Length {:?}", cl[0]))?;
    let start = h + 4;
    if b.len() < start + n { return Ok(None); }
    Ok(Some((Resp { version, status: code.parse().unwrap(), reason, headers, body: b[start..start + n].to_vec() }, start + n)))
}

pub struct Client { pub s: TcpStream, pub buf: Vec<u8> }
impl Client {
    pub fn connect() -> Client { Client::to(ADDR) }
    pub fn to(a: &str) -> Client { Client { s: TcpStream::connect(a).unwrap_or_else(|e| mc::fail(format!("connect refused: {}", e))), buf: vec![] } }
    pub fn try_to(a: &str) -> io::Result<Client> { Ok(Client { s: TcpStream::connect(a)?, buf: vec![] }) }
    pub fn send(&mut self, b: &[u8]) -> io::Result<()> { self.s.write_all(b) }
    pub fn resp(&mut self) -> Result<Resp, RErr> {
        let mut chunk = [0u8; 4096];
        loop {
            match parse_resp(&self.buf) {
                Err(e) => return Err(RErr::Bad(e)),
                Ok(Some((r, n))) => { self.buf.drain(..n); return Ok(r); }
                Ok(None) => {}
            }
            match self.s.read(&mut chunk) {
                Ok(0) => return Err(if self.buf.is_empty() { RErr::Eof } else { RErr::Cut(self.buf.clone()) }),
                Ok(n) => self.buf.extend(&chunk[..n]),
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(RErr::Io(e.kind())),
            }
        }
    }
    /// Read until the server closes: what came, and how it ended.
    pub fn drain(&mut self) -> (Vec<u8>, Option<io::ErrorKind>) {
        let mut chunk = [0u8; 4096];
        let mut v = std::mem::take(&mut self.buf);
        loop {
            match self.s.read(&mut chunk) {
                Ok(0) => return (v, None),
                Ok(n) => v.extend(&chunk[..n]),
                Err(e) => return (v, Some(e.kind())),
            }
        }
    }
    /// Is the connection closed by the server (nothing more to read)?
    pub fn at_eof(&mut self) -> bool {
        if !self.buf.is_empty() { return false; }
        let mut b = [0u8; 1];
        match self.s.read(&mut b) { Ok(0) => true, Ok(_) => { self.buf.push(b[0]); false } Err(_) => true }
    }
    pub fn timeout(&self, ms: u64) { self.s.set_read_timeout(Some(Duration::from_millis(ms))).unwrap() }
    pub fn fin(&self) { let _ = self.s.shutdown(Shutdown::Write); }
}
