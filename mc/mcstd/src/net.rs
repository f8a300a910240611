//! Façade of `std::net`: TCP over the simulated network.
pub use ::std::net::*;
use crate::netsim::{self as ns, Conn, Dir, Lst, Side, Sock};
use crate::rt::{self, Cond, Fault, ObjData, Req, WGuard};
use ::std::io::{self, Read, Write};
use ::std::os::fd::{AsFd, AsRawFd, BorrowedFd, RawFd};
use ::std::time::Duration;

fn errno<T>(e: i32) -> io::Result<T> { Err(io::Error::from_raw_os_error(e)) }
fn sys(w: &WGuard) -> bool { !w.threads[rt::tid().unwrap()].harness }
fn fault(w: &mut WGuard, f: Fault) -> bool {
    if !sys(w) { return false; }
    let t = rt::tid().unwrap();
    w.fault(t, f)
}
/// The error a failure brings: the usual one, or the one asked for.
fn ferr<T>(w: &mut WGuard, usual: i32) -> io::Result<T> {
    if let Some(e) = w.ferr { return errno(e); }
    let all = w.cfg.fault_errors;
    if all.is_empty() { return errno(usual); }
    let t = rt::tid().unwrap();
    errno(all[w.env_choice(t, all.len(), 0, "error")])
}
fn resolve(a: impl ToSocketAddrs) -> io::Result<Vec<SocketAddr>> {
    let v: Vec<SocketAddr> = a.to_socket_addrs()?.collect();
    if v.is_empty() { return Err(io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any addresses")); }
    Ok(v)
}
fn need() { assert!(rt::active(), "façade network used outside the model"); }

struct Fd { fd: RawFd, s: usize, ep: u32 }
impl Drop for Fd {
    fn drop(&mut self) {
        if !rt::active() || rt::epoch() != self.ep { return; }
        let (o, t) = {
            let w = rt::lock();
            (match &w.net.socks[self.s] {
                Sock::Stream { conn, side } => w.net.conns[*conn].dir[*side].obj,
                Sock::Listener(l) => l.obj,
                Sock::Poller(p) => p.obj,
            }, rt::tid().unwrap())
        };
        let mut w = rt::point(Req::new("close", o));
        for x in w.net.close(self.fd) { if x != o { w.touch(t, "close", x, false); } }
    }
}

pub struct TcpListener { fd: Fd }
pub struct TcpStream { fd: Fd }

impl TcpListener {
    pub fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
        need();
        let addrs = resolve(a)?;
        let mut w = rt::point(Req::new("bind", rt::NOOBJ));
        if fault(&mut w, Fault::Bind) { return errno(ns::EMFILE); }
        let mut last = ns::EADDRINUSE;
        for mut addr in addrs {
            if addr.ip().is_ipv6() { last = 99; continue; }
            if !(addr.ip().is_loopback() || addr.ip().is_unspecified()) { last = 99; continue; }
            if addr.port() == 0 { let p = w.net.port(); addr.set_port(p); }
            let busy = w.net.socks.iter().any(|s| matches!(s, Sock::Listener(l) if !l.closed && l.addr.port() == addr.port()
                && (l.addr.ip() == addr.ip() || l.addr.ip().is_unspecified() || addr.ip().is_unspecified())));
            if busy { last = ns::EADDRINUSE; continue; }
            let obj = w.new_obj("listener", ObjData::Plain);
            w.net.socks.push(Sock::Listener(Lst { addr, backlog: Default::default(), nonblock: false, fds: 1, obj, closed: false }));
            let s = w.net.socks.len() - 1;
            let fd = w.net.alloc_fd(s);
            let ep = w.epoch;
            let t = rt::tid().unwrap();
            w.touch(t, "bind", obj, false);
            return Ok(TcpListener { fd: Fd { fd, s, ep } });
        }
        errno(last)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(rt::lock().net.lst(self.fd.s).addr) }
    pub fn try_clone(&self) -> io::Result<TcpListener> {
        let mut w = rt::lock();
        if fault(&mut w, Fault::Dup) { return ferr(&mut w, ns::EMFILE); }
        w.net.lst(self.fd.s).fds += 1;
        let fd = w.net.alloc_fd(self.fd.s);
        Ok(TcpListener { fd: Fd { fd, s: self.fd.s, ep: self.fd.ep } })
    }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        let mut w = rt::lock();
        if fault(&mut w, Fault::SetNonblock) { return ferr(&mut w, ns::ENOMEM); }
        w.net.lst(self.fd.s).nonblock = v;
        Ok(())
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> { Ok(None) }
    pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        let s = self.fd.s;
        let (o, nb) = { let mut w = rt::lock(); let l = w.net.lst(s); (l.obj, l.nonblock) };
        let t = rt::tid().unwrap();
        let mut r = Req::new("accept", o);
        if !nb { r = r.cond(Cond::Acceptable(s)); }
        let mut w = rt::point(r);
        if fault(&mut w, Fault::AcceptIntr) { return errno(ns::EINTR); }
        if fault(&mut w, Fault::AcceptEmfile) { return ferr(&mut w, ns::EMFILE); }
        if !w.net.lst(s).backlog.is_empty() {
            if fault(&mut w, Fault::AcceptWouldBlock) {
                // the pending connection vanished
                let k = w.net.lst(s).backlog.pop_front().unwrap();
                let (c, _) = w.net.stream(k);
                w.net.abort(c);
                if nb { return errno(ns::EAGAIN); }
                // who waits goes on waiting
                drop(w);
                return self.accept();
            }
            if fault(&mut w, Fault::AcceptAborted) {
                let k = w.net.lst(s).backlog.pop_front().unwrap();
                let (c, _) = w.net.stream(k);
                w.net.abort(c);
                return ferr(&mut w, ns::ECONNABORTED);
            }
        }
        match w.net.lst(s).backlog.pop_front() {
            None => { w.note(t, 2); errno(ns::EAGAIN) }
            Some(k) => {
                w.net.side(k).fds = 1;
                let peer = w.net.side(k).peer;
                let fd = w.net.alloc_fd(k);
                w.note(t, 3);
                Ok((TcpStream { fd: Fd { fd, s: k, ep: self.fd.ep } }, peer))
            }
        }
    }
    pub fn incoming(&self) -> Incoming<'_> { Incoming { l: self } }
}
pub struct Incoming<'a> { l: &'a TcpListener }
impl Iterator for Incoming<'_> { type Item = io::Result<TcpStream>; fn next(&mut self) -> Option<Self::Item> { Some(self.l.accept().map(|x| x.0)) } }
impl AsRawFd for TcpListener { fn as_raw_fd(&self) -> RawFd { self.fd.fd } }
impl AsFd for TcpListener { fn as_fd(&self) -> BorrowedFd<'_> { unsafe { BorrowedFd::borrow_raw(self.fd.fd) } } }
impl ::std::fmt::Debug for TcpListener { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "TcpListener {{ fd: {} }}", self.fd.fd) } }

impl TcpStream {
    pub fn connect<A: ToSocketAddrs>(a: A) -> io::Result<TcpStream> {
        need();
        let mut last = None;
        for a in resolve(a)? {
            match Self::connect_one(&a) { Ok(s) => return Ok(s), Err(e) => last = Some(e) }
        }
        Err(last.unwrap())
    }
    pub fn connect_timeout(a: &SocketAddr, d: Duration) -> io::Result<TcpStream> {
        need();
        if d == Duration::ZERO { return Err(io::Error::new(io::ErrorKind::InvalidInput, "cannot set a 0 duration timeout")); }
        Self::connect_one(a)
    }
    fn connect_one(a: &SocketAddr) -> io::Result<TcpStream> {
        let lo = { let w = rt::lock(); w.net.find_listener(a).map(|l| match &w.net.socks[l] { Sock::Listener(l) => l.obj, _ => unreachable!() }) };
        let mut w = rt::point(Req::new("connect", lo.unwrap_or(rt::NOOBJ)));
        let t = rt::tid().unwrap();
        let Some(l) = w.net.find_listener(a) else { w.note(t, 1); return errno(ns::ECONNREFUSED) };
        let o0 = w.new_obj("stream c>s", ObjData::Plain);
        let o1 = w.new_obj("stream s>c", ObjData::Plain);
        let port = w.net.port();
        let ca = SocketAddr::new(a.ip(), port);
        let mk = |local, peer| Side { fds: 0, rd_shut: false, wr_shut: false, closed: false, reset: false, err: None, nonblock: false, rto: None, wto: None, local, peer };
        w.net.conns.push(Conn { dir: [Dir { obj: o0, ..Default::default() }, Dir { obj: o1, ..Default::default() }], side: [mk(ca, *a), mk(*a, ca)] });
        let c = w.net.conns.len() - 1;
        w.net.socks.push(Sock::Stream { conn: c, side: 1 });
        let srv = w.net.socks.len() - 1;
        w.net.lst(l).backlog.push_back(srv);
        let lo = w.net.lst(l).obj;
        w.touch(t, "connect", lo, false);
        w.net.socks.push(Sock::Stream { conn: c, side: 0 });
        let s = w.net.socks.len() - 1;
        w.net.side(s).fds = 1;
        let fd = w.net.alloc_fd(s);
        let ep = w.epoch;
        Ok(TcpStream { fd: Fd { fd, s, ep } })
    }
    fn objs(&self) -> (u32, u32) {
        let w = rt::lock();
        let (c, i) = w.net.stream(self.fd.s);
        (w.net.conns[c].dir[1 - i].obj, w.net.conns[c].dir[i].obj)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        let mut w = rt::lock();
        let sd = w.net.side(self.fd.s);
        let (reset, wr_shut, peer) = (sd.reset, sd.wr_shut, sd.peer);
        let (c, i) = w.net.stream(self.fd.s);
        // both ends have said that they are done: the kernel has let the connection go
        if reset || (wr_shut && w.net.conns[c].dir[1 - i].fin) { return errno(ns::ENOTCONN); }
        Ok(peer)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(rt::lock().net.side(self.fd.s).local) }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        let (oi, oo) = self.objs();
        let t = rt::tid().unwrap();
        let mut w = rt::point(Req::new("shutdown", oo));
        w.touch(t, "shutdown", oi, false);
        let (rd, wr) = match how { Shutdown::Read => (true, false), Shutdown::Write => (false, true), Shutdown::Both => (true, true) };
        match w.net.shutdown(self.fd.s, rd, wr) { Ok(()) => Ok(()), Err(e) => errno(e) }
    }
    /// Close with a RST (as with SO_LINGER 0).
    pub fn mc_reset(self) {
        let (oi, oo) = self.objs();
        let t = rt::tid().unwrap();
        let mut w = rt::point(Req::new("reset", oo));
        w.touch(t, "reset", oi, false);
        w.net.reset_by(self.fd.s);
        drop(w);
    }
    pub fn try_clone(&self) -> io::Result<TcpStream> {
        let mut w = rt::lock();
        if fault(&mut w, Fault::Dup) { return ferr(&mut w, ns::EMFILE); }
        w.net.side(self.fd.s).fds += 1;
        let fd = w.net.alloc_fd(self.fd.s);
        Ok(TcpStream { fd: Fd { fd, s: self.fd.s, ep: self.fd.ep } })
    }
    pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        if d == Some(Duration::ZERO) { return Err(io::Error::new(io::ErrorKind::InvalidInput, "cannot set a 0 duration timeout")); }
        rt::lock().net.side(self.fd.s).rto = d.map(round);
        Ok(())
    }
    pub fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        if d == Some(Duration::ZERO) { return Err(io::Error::new(io::ErrorKind::InvalidInput, "cannot set a 0 duration timeout")); }
        rt::lock().net.side(self.fd.s).wto = d.map(round);
        Ok(())
    }
    pub fn read_timeout(&self) -> io::Result<Option<Duration>> { Ok(rt::lock().net.side(self.fd.s).rto) }
    pub fn write_timeout(&self) -> io::Result<Option<Duration>> { Ok(rt::lock().net.side(self.fd.s).wto) }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn nodelay(&self) -> io::Result<bool> { Ok(false) }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> { Ok(rt::lock().net.side(self.fd.s).err.take().map(io::Error::from_raw_os_error)) }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        let mut w = rt::lock();
        if fault(&mut w, Fault::SetNonblock) { return ferr(&mut w, ns::ENOMEM); }
        w.net.side(self.fd.s).nonblock = v;
        Ok(())
    }
    pub fn peek(&self, buf: &mut [u8]) -> io::Result<usize> { self.rd(buf, true) }
    fn rd(&self, buf: &mut [u8], peek: bool) -> io::Result<usize> {
        let s = self.fd.s;
        let (oi, oo) = self.objs();
        let t = rt::tid().unwrap();
        let (nb, dl) = {
            let mut w = rt::lock();
            let to = w.net.side(s).rto;
            let dl = to.and_then(|d| w.deadline(d));
            (w.net.side(s).nonblock, dl)
        };
        let mut r = Req::new("read", oi);
        if !nb { r = r.cond(Cond::SockReadable(s)).deadline(dl); }
        let mut w = rt::point(r);
        if sys(&w) {
            if !nb && fault(&mut w, Fault::ReadIntr) { return errno(ns::EINTR); }
            if fault(&mut w, Fault::ReadReset) {
                let (c, _) = w.net.stream(s);
                w.net.abort(c);
                w.net.side(s).err = None;
                w.touch(t, "reset", oo, false);
                return ferr(&mut w, ns::ECONNRESET);
            }
        }
        let mut lim = buf.len();
        if w.cfg.short_read && sys(&w) && lim > 1 && w.net.readable(s) {
            if w.env_choice(t, 2, 1, "short read") == 1 { lim = 1; }
        }
        let r = w.net.read(s, &mut buf[..lim], peek);
        match r {
            Ok(Some(n)) => { w.note(t, n as u64 + 10); if w.cfg.verbose { let l = format!("   read {} bytes {:?}", n, String::from_utf8_lossy(&buf[..n.min(60)])); w.log.push(l); } Ok(n) }
            Ok(None) => { w.note(t, 1); errno(ns::EAGAIN) }
            Err(e) => { w.note(t, 2); errno(e) }
        }
    }
    fn wr(&self, data: &[u8]) -> io::Result<usize> {
        let s = self.fd.s;
        let (oi, oo) = self.objs();
        let t = rt::tid().unwrap();
        let (nb, dl) = {
            let mut w = rt::lock();
            let to = w.net.side(s).wto;
            let dl = to.and_then(|d| w.deadline(d));
            (w.net.side(s).nonblock, dl)
        };
        let mut done = 0;
        loop {
            let mut r = Req::new("write", oo);
            if !nb { r = r.cond(Cond::SockWritable(s)).deadline(dl); }
            let mut w = rt::point(r);
            if sys(&w) && done == 0 {
                if !nb && fault(&mut w, Fault::WriteIntr) { return errno(ns::EINTR); }
                if fault(&mut w, Fault::WriteReset) {
                    let (c, _) = w.net.stream(s);
                    w.net.abort(c);
                    w.net.side(s).err = None;
                    w.touch(t, "reset", oi, false);
                    return ferr(&mut w, ns::ECONNRESET);
                }
            }
            let mut lim = data.len();
            let mut short = false;
            if w.cfg.short_write && sys(&w) && lim - done > 1 && w.net.writable(s) && w.env_choice(t, 2, 1, "short write") == 1 {
                lim = done + 1;
                short = true;
            }
            let before = w.net.side(s).reset;
            let r = w.net.write(s, &data[done..lim], done);
            if w.net.side(s).reset != before { w.touch(t, "rst", oi, false); }
            match r {
                Ok(Some(n)) => {
                    done += n;
                    w.note(t, n as u64 + 10);
                    if w.cfg.verbose { let l = format!("   wrote {} bytes {:?}", n, String::from_utf8_lossy(&data[done - n..done][..n.min(60)])); w.log.push(l); }
                    if nb || done == data.len() || short { return Ok(done); }
                }
                Ok(None) => { w.note(t, 1); return if done > 0 { Ok(done) } else { errno(ns::EAGAIN) }; }
                Err(e) => { w.note(t, 2); return if done > 0 { Ok(done) } else { errno(e) }; }
            }
        }
    }
}
/// the kernel keeps socket timeouts with microsecond resolution at least one
fn round(d: Duration) -> Duration { if d.as_micros() == 0 { Duration::from_micros(1) } else { Duration::new(d.as_secs(), d.subsec_micros() * 1000) } }
impl Read for TcpStream { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.rd(b, false) } }
impl Read for &TcpStream { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.rd(b, false) } }
impl Write for TcpStream { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.wr(b) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl Write for &TcpStream { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.wr(b) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl AsRawFd for TcpStream { fn as_raw_fd(&self) -> RawFd { self.fd.fd } }
impl AsFd for TcpStream { fn as_fd(&self) -> BorrowedFd<'_> { unsafe { BorrowedFd::borrow_raw(self.fd.fd) } } }
impl ::std::fmt::Debug for TcpStream { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "TcpStream {{ fd: {} }}", self.fd.fd) } }

/// Poller descriptors (used by the façade of the `polling` crate)
pub mod poll {
    use super::*;
    use crate::netsim::{Pol, Reg};
    pub struct PollFd(Fd);
    fn done(w: &WGuard, ep: u32) -> bool { w.epoch != ep }
    impl PollFd {
        pub fn new() -> io::Result<PollFd> {
            need();
            let mut w = rt::lock();
            if fault(&mut w, Fault::PollerNew) { return ferr(&mut w, ns::EMFILE); }
            let obj = w.new_obj("poller", ObjData::Plain);
            w.net.socks.push(Sock::Poller(Pol { regs: vec![], notified: false, waiting: false, obj, closed: false }));
            let s = w.net.socks.len() - 1;
            let fd = w.net.alloc_fd(s);
            let ep = w.epoch;
            Ok(PollFd(Fd { fd, s, ep }))
        }
        pub fn fd(&self) -> RawFd { self.0.fd }
        fn obj(&self) -> u32 { rt::lock().net.pol(self.0.s).obj }
        pub fn add(&self, fd: RawFd, key: usize, rd: bool, wr: bool, oneshot: bool) -> io::Result<()> {
            let mut w = rt::point(Req::new("epoll add", self.obj()));
            if fault(&mut w, Fault::PollerAdd) { return ferr(&mut w, ns::ENOMEM); }
            let Some(sock) = w.net.sock_of(fd) else { return errno(ns::EBADF) };
            let p = w.net.pol(self.0.s);
            if p.regs.iter().any(|r| r.fd == fd && r.sock == sock) { return errno(ns::EEXIST); }
            p.regs.push(Reg { fd, sock, key, rd, wr, oneshot, armed: true });
            Ok(())
        }
        pub fn modify(&self, fd: RawFd, key: usize, rd: bool, wr: bool, oneshot: bool) -> io::Result<()> {
            let mut w = rt::point(Req::new("epoll mod", self.obj()));
            let Some(sock) = w.net.sock_of(fd) else { return errno(ns::EBADF) };
            let p = w.net.pol(self.0.s);
            match p.regs.iter_mut().find(|r| r.fd == fd && r.sock == sock) {
                None => errno(ns::ENOENT),
                Some(r) => { *r = Reg { fd, sock, key, rd, wr, oneshot, armed: true }; Ok(()) }
            }
        }
        pub fn delete(&self, fd: RawFd) -> io::Result<()> {
            let mut w = rt::point(Req::new("epoll del", self.obj()));
            let Some(sock) = w.net.sock_of(fd) else { return errno(ns::EBADF) };
            let p = w.net.pol(self.0.s);
            let n = p.regs.len();
            p.regs.retain(|r| !(r.fd == fd && r.sock == sock));
            if p.regs.len() == n { errno(ns::ENOENT) } else { Ok(()) }
        }
        pub fn notify(&self) -> io::Result<()> {
            let mut w = rt::point(Req::new("epoll notify", self.obj()));
            w.net.pol(self.0.s).notified = true;
            Ok(())
        }
        pub fn wait(&self, timeout: Option<Duration>) -> io::Result<Vec<(usize, bool, bool)>> {
            let s = self.0.s;
            let o = self.obj();
            let t = rt::tid().unwrap();
            if let Some(d) = timeout { if d.as_secs() > i64::MAX as u64 { return errno(ns::EINVAL); } }
            let dl = {
                let mut w = rt::lock();
                if w.net.pol(s).waiting { w.note(t, 9); return Ok(vec![]); }
                w.net.pol(s).waiting = true;
                timeout.and_then(|d| w.deadline(d))
            };
            {
                // readiness that turns out not to be
                let mut w = rt::lock();
                let v = w.net.poll_spurious(s);
                if !v.is_empty() && fault(&mut w, Fault::SpuriousReady) { w.net.pol(s).waiting = false; w.net.poll_disarm(s, &v); return Ok(v); }
            }
            let mut w = rt::point(Req::new("epoll wait", o).always().cond(Cond::Poll(s)).deadline(dl));
            if done(&w, self.0.ep) { return Ok(vec![]); }
            w.net.pol(s).waiting = false;
            if fault(&mut w, Fault::PollWaitIntr) { return errno(ns::EINTR); }
            let regs = w.net.pol(s).regs.clone();
            for r in regs.iter().filter(|r| r.armed) {
                let os = match &w.net.socks[r.sock] {
                    Sock::Stream { conn, .. } => { let c = &w.net.conns[*conn]; vec![c.dir[0].obj, c.dir[1].obj] }
                    Sock::Listener(l) => vec![l.obj],
                    Sock::Poller(_) => vec![],
                };
                for x in os { w.touch(t, "epoll see", x, true); }
            }
            let v = w.net.poll_take(s);
            w.note(t, v.len() as u64 + 20);
            Ok(v)
        }
    }
}
