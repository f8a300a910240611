//! Façade of the `polling` crate (2.8, epoll back end) over the simulated network.
use mcstd::net::poll::PollFd;
use std::io;
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, RawFd};
use std::time::Duration;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Event { pub key: usize, pub readable: bool, pub writable: bool }
impl Event {
    pub fn all(key: usize) -> Event { Event { key, readable: true, writable: true } }
    pub fn readable(key: usize) -> Event { Event { key, readable: true, writable: false } }
    pub fn writable(key: usize) -> Event { Event { key, readable: false, writable: true } }
    pub fn none(key: usize) -> Event { Event { key, readable: false, writable: false } }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[non_exhaustive]
pub enum PollMode { Oneshot, Level, Edge, EdgeOneshot }

pub struct Poller { p: PollFd }
fn check(e: &Event, m: PollMode) -> io::Result<bool> {
    if e.key == usize::MAX { return Err(io::Error::new(io::ErrorKind::InvalidInput, "the key is not allowed to be `usize::MAX`")); }
    match m {
        PollMode::Oneshot => Ok(true),
        PollMode::Level => Ok(false),
        _ => panic!("edge-triggered polling is not modelled"),
    }
}
impl Poller {
    pub fn new() -> io::Result<Poller> { Ok(Poller { p: PollFd::new()? }) }
    pub fn supports_level(&self) -> bool { true }
    pub fn supports_edge(&self) -> bool { true }
    pub fn add(&self, s: impl Source, e: Event) -> io::Result<()> { self.add_with_mode(s, e, PollMode::Oneshot) }
    pub fn add_with_mode(&self, s: impl Source, e: Event, m: PollMode) -> io::Result<()> {
        let one = check(&e, m)?;
        self.p.add(s.raw(), e.key, e.readable, e.writable, one)
    }
    pub fn modify(&self, s: impl Source, e: Event) -> io::Result<()> { self.modify_with_mode(s, e, PollMode::Oneshot) }
    pub fn modify_with_mode(&self, s: impl Source, e: Event, m: PollMode) -> io::Result<()> {
        let one = check(&e, m)?;
        self.p.modify(s.raw(), e.key, e.readable, e.writable, one)
    }
    pub fn delete(&self, s: impl Source) -> io::Result<()> { self.p.delete(s.raw()) }
    pub fn wait(&self, events: &mut Vec<Event>, timeout: Option<Duration>) -> io::Result<usize> {
        let v = self.p.wait(timeout)?;
        let n = v.len();
        events.extend(v.into_iter().map(|(key, readable, writable)| Event { key, readable, writable }));
        Ok(n)
    }
    pub fn notify(&self) -> io::Result<()> { self.p.notify() }
}
impl std::fmt::Debug for Poller { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Poller") } }
impl AsRawFd for Poller { fn as_raw_fd(&self) -> RawFd { self.p.fd() } }
impl AsFd for Poller { fn as_fd(&self) -> BorrowedFd<'_> { unsafe { BorrowedFd::borrow_raw(self.p.fd()) } } }

pub trait Source { fn raw(&self) -> RawFd; }
impl Source for RawFd { fn raw(&self) -> RawFd { *self } }
impl<T: AsRawFd> Source for &T { fn raw(&self) -> RawFd { self.as_raw_fd() } }
