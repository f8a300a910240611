//! The simulated network: TCP over loopback and epoll as Linux does them, as data of the `World`.
use ::std::collections::{BTreeMap, VecDeque};
use ::std::net::SocketAddr;

pub const ECONNRESET: i32 = 104;
pub const EPIPE: i32 = 32;
pub const ENOTCONN: i32 = 107;
pub const EBADF: i32 = 9;
pub const ENOENT: i32 = 2;
pub const EEXIST: i32 = 17;
pub const EAGAIN: i32 = 11;
pub const EINTR: i32 = 4;
pub const EMFILE: i32 = 24;
pub const ENOMEM: i32 = 12;
pub const ECONNABORTED: i32 = 103;
pub const EADDRINUSE: i32 = 98;
pub const ECONNREFUSED: i32 = 111;
pub const EINVAL: i32 = 22;

#[derive(Default)]
pub struct Dir {
    pub buf: VecDeque<u8>,
    pub fin: bool,
    pub obj: u32,
}
pub struct Side {
    pub fds: usize,
    pub rd_shut: bool,
    pub wr_shut: bool,
    /// all descriptors closed
    pub closed: bool,
    /// connection torn down by a RST
    pub reset: bool,
    pub err: Option<i32>,
    pub nonblock: bool,
    pub rto: Option<::std::time::Duration>,
    pub wto: Option<::std::time::Duration>,
    pub local: SocketAddr,
    pub peer: SocketAddr,
}
pub struct Conn { pub dir: [Dir; 2], pub side: [Side; 2] }
pub struct Lst { pub addr: SocketAddr, pub backlog: VecDeque<usize>, pub nonblock: bool, pub fds: usize, pub obj: u32, pub closed: bool }
#[derive(Clone, Debug)]
pub struct Reg { pub fd: i32, pub sock: usize, pub key: usize, pub rd: bool, pub wr: bool, pub oneshot: bool, pub armed: bool }
pub struct Pol { pub regs: Vec<Reg>, pub notified: bool, pub waiting: bool, pub obj: u32, pub closed: bool }
pub enum Sock { Stream { conn: usize, side: usize }, Listener(Lst), Poller(Pol) }

pub struct Net {
    pub cap: usize,
    pub conns: Vec<Conn>,
    pub socks: Vec<Sock>,
    pub fds: BTreeMap<i32, usize>,
    pub next_port: u16,
}
pub const IN: u8 = 1;
pub const OUT: u8 = 2;
pub const ERR: u8 = 4;
pub const HUP: u8 = 8;

impl Net {
    pub fn new(cap: usize) -> Net {
        Net { cap, conns: vec![], socks: vec![], fds: BTreeMap::new(), next_port: 40000 }
    }
    pub fn alloc_fd(&mut self, sock: usize) -> i32 {
        let mut fd = 1000;
        for (k, _) in &self.fds { if *k == fd { fd += 1 } else { break } }
        self.fds.insert(fd, sock);
        fd
    }
    pub fn sock_of(&self, fd: i32) -> Option<usize> { self.fds.get(&fd).copied() }
    pub fn open_fds(&self) -> usize { self.fds.len() }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (fd, k) in &self.fds {
            s += &match &self.socks[*k] {
                Sock::Stream { conn, side } => format!(" fd{}=stream(conn {} {})", fd, conn, if *side == 0 { "client" } else { "server" }),
                Sock::Listener(l) => format!(" fd{}=listener({})", fd, l.addr),
                Sock::Poller(_) => format!(" fd{}=poller", fd),
            };
        }
        s
    }
    pub fn port(&mut self) -> u16 {
        loop {
            self.next_port += 1;
            let p = self.next_port;
            if !self.socks.iter().any(|s| matches!(s, Sock::Listener(l) if !l.closed && l.addr.port() == p)) { return p; }
        }
    }
    pub fn stream(&self, s: usize) -> (usize, usize) {
        match self.socks[s] { Sock::Stream { conn, side } => (conn, side), _ => panic!("not a stream") }
    }
    pub fn side(&mut self, s: usize) -> &mut Side { let (c, i) = self.stream(s); &mut self.conns[c].side[i] }
    pub fn lst(&mut self, s: usize) -> &mut Lst { match &mut self.socks[s] { Sock::Listener(l) => l, _ => panic!("not a listener") } }
    pub fn pol(&mut self, s: usize) -> &mut Pol { match &mut self.socks[s] { Sock::Poller(p) => p, _ => panic!("not a poller") } }
    pub fn find_listener(&self, a: &SocketAddr) -> Option<usize> {
        self.socks.iter().position(|s| matches!(s, Sock::Listener(l) if !l.closed && l.addr.port() == a.port()
            && (l.addr.ip() == a.ip() || l.addr.ip().is_unspecified())))
    }
    pub fn readable(&self, s: usize) -> bool {
        let (c, i) = self.stream(s);
        let c = &self.conns[c];
        let d = &c.dir[1 - i];
        !d.buf.is_empty() || d.fin || c.side[i].rd_shut || c.side[i].err.is_some() || c.side[i].reset
    }
    pub fn writable(&self, s: usize) -> bool {
        let (c, i) = self.stream(s);
        let c = &self.conns[c];
        c.side[i].err.is_some() || c.side[i].wr_shut || c.side[i].reset || c.side[1 - i].closed || c.dir[i].buf.len() < self.cap
    }
    pub fn acceptable(&self, s: usize) -> bool {
        match &self.socks[s] { Sock::Listener(l) => !l.backlog.is_empty(), _ => false }
    }
    /// what epoll would report for a socket
    pub fn mask(&self, s: usize) -> u8 {
        match &self.socks[s] {
            Sock::Listener(l) => if l.backlog.is_empty() { 0 } else { IN },
            Sock::Poller(_) => 0,
            Sock::Stream { conn, side } => {
                let c = &self.conns[*conn];
                let sd = &c.side[*side];
                let mut m = 0;
                let rcv = sd.rd_shut || c.dir[1 - side].fin || sd.reset;
                let snd = sd.wr_shut || sd.reset;
                if rcv && snd { m |= HUP; }
                if rcv || !c.dir[1 - side].buf.is_empty() { m |= IN; }
                if snd || c.side[1 - side].closed || c.dir[*side].buf.len() < self.cap { m |= OUT; }
                if sd.err.is_some() { m |= ERR; }
                m
            }
        }
    }
    fn reg_events(&self, r: &Reg) -> u8 {
        if !r.armed { return 0; }
        let want = if r.rd { IN } else { 0 } | if r.wr { OUT } else { 0 } | ERR | HUP;
        self.mask(r.sock) & want
    }
    pub fn poll_ready(&self, p: usize) -> bool {
        match &self.socks[p] {
            Sock::Poller(pl) => pl.notified || pl.regs.iter().any(|r| self.reg_events(r) != 0),
            _ => false,
        }
    }
    /// collect (key, readable, writable), disarm one-shot registrations
    /// What could be reported without being so: streams that are waited for and not ready.
    pub fn poll_spurious(&mut self, p: usize) -> Vec<(usize, bool, bool)> {
        let regs = match &self.socks[p] { Sock::Poller(pl) => pl.regs.clone(), _ => vec![] };
        regs.iter().filter(|r| r.armed && matches!(self.socks[r.sock], Sock::Stream { .. }) && self.reg_events(r) == 0).map(|r| (r.key, r.rd, r.wr)).collect()
    }
    pub fn poll_disarm(&mut self, p: usize, v: &[(usize, bool, bool)]) {
        for r in self.pol(p).regs.iter_mut() { if r.oneshot && v.iter().any(|x| x.0 == r.key) { r.armed = false; } }
    }
    pub fn poll_take(&mut self, p: usize) -> Vec<(usize, bool, bool)> {
        let regs = match &self.socks[p] { Sock::Poller(pl) => pl.regs.clone(), _ => vec![] };
        let mut out = vec![];
        for (i, r) in regs.iter().enumerate() {
            let e = self.reg_events(r);
            if e == 0 { continue; }
            out.push((r.key, e & (IN | ERR | HUP) != 0, e & (OUT | ERR | HUP) != 0));
            if r.oneshot { self.pol(p).regs[i].armed = false; }
        }
        self.pol(p).notified = false;
        out
    }
    /// The side's socket received a RST.
    fn rst(&mut self, c: usize, i: usize) {
        let fin_seen = self.conns[c].dir[1 - i].fin;
        // both ends have said that they are done: there is no connection left
        if fin_seen && self.conns[c].dir[i].fin { return; }
        let s = &mut self.conns[c].side[i];
        if s.closed || s.reset { return; }
        s.err = Some(if fin_seen { EPIPE } else { ECONNRESET });
        s.reset = true;
        s.rd_shut = true;
        s.wr_shut = true;
    }
    /// `s` sends a RST to its peer and is of no use any more
    pub fn reset_by(&mut self, s: usize) {
        let (c, i) = self.stream(s);
        self.rst(c, 1 - i);
        self.conns[c].side[i].reset = true;
    }
    pub fn abort(&mut self, c: usize) {
        // a fault: the connection is reset for both ends
        for i in 0..2 {
            self.rst(c, i);
        }
    }
    /// Err(WouldBlock as None) or Ok(bytes) or Err(errno)
    pub fn read(&mut self, s: usize, out: &mut [u8], peek: bool) -> Result<Option<usize>, i32> {
        let (c, i) = self.stream(s);
        let cn = &mut self.conns[c];
        let d = &mut cn.dir[1 - i];
        if !d.buf.is_empty() {
            let n = out.len().min(d.buf.len());
            for (k, o) in out[..n].iter_mut().enumerate() { *o = d.buf[k]; }
            if !peek { d.buf.drain(..n); }
            return Ok(Some(n));
        }
        // (what the FIN says comes before a pending error)
        if d.fin { return Ok(Some(0)); }
        if let Some(e) = cn.side[i].err.take() { return Err(e); }
        if cn.side[i].rd_shut || cn.side[i].reset { return Ok(Some(0)); }
        Ok(None)
    }
    pub fn write(&mut self, s: usize, data: &[u8], done: usize) -> Result<Option<usize>, i32> {
        let (c, i) = self.stream(s);
        let cap = self.cap;
        let cn = &mut self.conns[c];
        // (a write that has transferred something leaves the pending error for the next call)
        if let Some(e) = cn.side[i].err { if done == 0 { cn.side[i].err = None; } return Err(e); }
        if cn.side[i].wr_shut || cn.side[i].reset { return Err(EPIPE); }
        if data.is_empty() { return Ok(Some(0)); }
        if cn.side[1 - i].closed {
            self.rst(c, i);
            return Ok(Some(data.len()));
        }
        let room = cap.saturating_sub(cn.dir[i].buf.len());
        if room == 0 { return Ok(None); }
        if cn.side[1 - i].wr_shut && cn.side[1 - i].rd_shut && !cn.side[1 - i].reset && !cn.dir[i].fin {
            // data for an end that has shut down both ways tears the connection down
            self.rst(c, i);
            self.rst(c, 1 - i);
            return Ok(Some(data.len()));
        }
        let n = room.min(data.len());
        cn.dir[i].buf.extend(&data[..n]);
        Ok(Some(n))
    }
    pub fn shutdown(&mut self, s: usize, rd: bool, wr: bool) -> Result<(), i32> {
        let (c, i) = self.stream(s);
        let cn = &mut self.conns[c];
        let closed = cn.side[i].reset || (cn.side[i].wr_shut && cn.dir[1 - i].fin);
        if rd { cn.side[i].rd_shut = true; }
        if wr && !cn.side[i].reset { cn.side[i].wr_shut = true; cn.dir[i].fin = true; }
        if closed { Err(ENOTCONN) } else { Ok(()) }
    }
    fn close_side(&mut self, c: usize, i: usize) {
        let cn = &mut self.conns[c];
        if cn.side[i].closed { return; }
        cn.side[i].closed = true;
        let unread = !cn.dir[1 - i].buf.is_empty();
        cn.dir[1 - i].buf.clear();
        if cn.side[i].reset { return; }
        if unread { self.rst(c, 1 - i); } else { cn.dir[i].fin = true; }
    }
    /// Close a descriptor; the objects whose state it changed.
    pub fn close(&mut self, fd: i32) -> Vec<u32> {
        let Some(s) = self.fds.remove(&fd) else { return vec![] };
        let mut gone = false;
        let mut objs = vec![];
        match &mut self.socks[s] {
            Sock::Stream { conn, side } => {
                let (c, i) = (*conn, *side);
                self.conns[c].side[i].fds -= 1;
                objs = vec![self.conns[c].dir[0].obj, self.conns[c].dir[1].obj];
                if self.conns[c].side[i].fds == 0 { gone = true; self.close_side(c, i); }
            }
            Sock::Listener(l) => {
                l.fds -= 1;
                objs.push(l.obj);
                if l.fds == 0 {
                    gone = true;
                    l.closed = true;
                    let pend: Vec<usize> = l.backlog.drain(..).collect();
                    for s in pend {
                        let (c, i) = self.stream(s);
                        self.conns[c].side[i].closed = true;
                        self.rst(c, 1 - i);
                        objs.push(self.conns[c].dir[0].obj);
                        objs.push(self.conns[c].dir[1].obj);
                    }
                }
            }
            Sock::Poller(p) => { p.closed = true; p.regs.clear(); objs.push(p.obj); }
        }
        if gone {
            for k in &mut self.socks {
                if let Sock::Poller(p) = k { p.regs.retain(|r| r.sock != s); }
            }
        }
        objs
    }
}
