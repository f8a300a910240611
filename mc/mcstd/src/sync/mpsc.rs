//! Façade of `std::sync::mpsc` (asynchronous, bounded and rendezvous channels).
pub use ::std::sync::mpsc::*;
use crate::rt::{self, ChanSt, Cond, ObjCell, ObjData, Req, WGuard};
use ::std::collections::VecDeque;
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;

struct Chan<T> {
    id: ObjCell,
    o: u32,
    ep: u32,
    /// (sender that is still blocked on the message, or NONE; message)
    q: Mutex<VecDeque<(usize, T)>>,
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}

fn mk<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    assert!(rt::active(), "façade channel created outside the model");
    let id = ObjCell::new();
    let mut w = rt::lock();
    let o = id.get(&mut w, "channel", || ObjData::Chan(ChanSt { cap, len: 0, senders: 1, rx_alive: true, rx_waiting: false, rx_matched: false, blocked: VecDeque::new() })).0;
    let ep = w.epoch;
    Arc::new(Chan { id, o, ep, q: Mutex::new(VecDeque::new()) })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = mk(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = mk(Some(bound));
    (SyncSender(c.clone()), Receiver(c))
}
fn st(w: &mut WGuard, o: u32) -> &mut ChanSt {
    match &mut w.objs[o as usize].data { ObjData::Chan(c) => c, _ => unreachable!() }
}
impl<T> Chan<T> {
    fn q(&self) -> ::std::sync::MutexGuard<'_, VecDeque<(usize, T)>> { self.q.lock().unwrap_or_else(|e| e.into_inner()) }
    fn note(&self, w: &mut WGuard, v: u64) { let me = rt::tid().unwrap(); w.note(me, v); }
    fn try_send(&self, t: T, code: &'static str) -> Result<(), TrySendError<T>> {
        let o = self.o;
        let mut w = rt::point(Req::new(code, o));
        let s = st(&mut w, o);
        if !s.rx_alive { self.note(&mut w, 1); return Err(TrySendError::Disconnected(t)); }
        match s.cap {
            Some(0) => {
                if s.rx_waiting && !s.rx_matched {
                    s.rx_matched = true;
                } else { self.note(&mut w, 2); return Err(TrySendError::Full(t)); }
            }
            Some(n) if s.len >= n => { self.note(&mut w, 2); return Err(TrySendError::Full(t)); }
            _ => {}
        }
        s.len += 1;
        self.q().push_back((rt::NONE, t));
        self.note(&mut w, 3);
        Ok(())
    }
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        let o = self.o;
        let me = rt::tid().unwrap();
        {
            let mut w = rt::lock();
            let cap = st(&mut w, o).cap;
            drop(w);
            if cap != Some(0) {
                let mut w = rt::point(Req::new("send", o).cond(Cond::ChanSpace(o)));
                let s = st(&mut w, o);
                if !s.rx_alive { self.note(&mut w, 1); return Err(SendError(t)); }
                s.len += 1;
                self.q().push_back((rt::NONE, t));
                self.note(&mut w, 3);
                return Ok(());
            }
        }
        let mut w = rt::point(Req::new("send", o));
        let s = st(&mut w, o);
        if !s.rx_alive { self.note(&mut w, 1); return Err(SendError(t)); }
        if s.rx_waiting && !s.rx_matched {
            s.rx_matched = true;
            s.len += 1;
            self.q().push_back((rt::NONE, t));
            return Ok(());
        }
        s.blocked.push_back(me);
        self.q().push_back((me, t));
        drop(w);
        let mut w = rt::point(Req::new("send wait", o).cond(Cond::ChanTaken(o, me)));
        let s = st(&mut w, o);
        if let Some(p) = s.blocked.iter().position(|x| *x == me) {
            s.blocked.remove(p);
            self.note(&mut w, 1);
            let mut q = self.q();
            let p = q.iter().position(|x| x.0 == me).expect("blocked message");
            let t = q.remove(p).unwrap().1;
            return Err(SendError(t));
        }
        Ok(())
    }
    /// take a message if one is available
    fn take(&self, w: &mut WGuard) -> Option<T> {
        let s = st(w, self.o);
        if s.cap == Some(0) {
            if let Some(b) = s.blocked.pop_front() {
                let mut q = self.q();
                let p = q.iter().position(|x| x.0 == b).expect("blocked message");
                return Some(q.remove(p).unwrap().1);
            }
            return None;
        }
        if s.len > 0 {
            s.len -= 1;
            return Some(self.q().pop_front().unwrap().1);
        }
        None
    }
    fn recv(&self, d: Option<Duration>) -> Result<T, RecvTimeoutError> {
        let o = self.o;
        let (cap, deadline) = {
            let mut w = rt::lock();
            let dl = d.and_then(|d| w.deadline(d));
            (st(&mut w, o).cap, dl)
        };
        if cap != Some(0) {
            let mut w = rt::point(Req::new("recv", o).cond(Cond::ChanRecv(o)).deadline(deadline));
            if let Some(t) = self.take(&mut w) { self.note(&mut w, 3); return Ok(t); }
            let gone = st(&mut w, o).senders == 0;
            self.note(&mut w, if gone { 1 } else { 2 });
            return Err(if gone { RecvTimeoutError::Disconnected } else { RecvTimeoutError::Timeout });
        }
        let mut w = rt::point(Req::new("recv", o));
        if let Some(t) = self.take(&mut w) { self.note(&mut w, 3); return Ok(t); }
        let s = st(&mut w, o);
        if s.senders == 0 { self.note(&mut w, 1); return Err(RecvTimeoutError::Disconnected); }
        s.rx_waiting = true;
        drop(w);
        let mut w = rt::point(Req::new("recv wait", o).cond(Cond::ChanMatched(o)).deadline(deadline));
        let s = st(&mut w, o);
        s.rx_waiting = false;
        if s.rx_matched {
            s.rx_matched = false;
            s.len -= 1;
            let mut q = self.q();
            let p = q.iter().position(|x| x.0 == rt::NONE).expect("matched message");
            let t = q.remove(p).unwrap().1;
            drop(q);
            self.note(&mut w, 3);
            return Ok(t);
        }
        let gone = s.senders == 0;
        self.note(&mut w, if gone { 1 } else { 2 });
        Err(if gone { RecvTimeoutError::Disconnected } else { RecvTimeoutError::Timeout })
    }
    fn try_recv(&self) -> Result<T, TryRecvError> {
        let o = self.o;
        let mut w = rt::point(Req::new("try_recv", o));
        if let Some(t) = self.take(&mut w) { self.note(&mut w, 3); return Ok(t); }
        let gone = st(&mut w, o).senders == 0;
        self.note(&mut w, if gone { 1 } else { 2 });
        Err(if gone { TryRecvError::Disconnected } else { TryRecvError::Empty })
    }
    fn clone_tx(&self) {
        if let Some(me) = rt::tid() {
            let mut w = rt::lock();
            w.touch(me, "clone tx", self.o, false);
            st(&mut w, self.o).senders += 1;
        }
    }
    fn drop_tx(&self) {
        let _ = &self.id;
        if !rt::active() || rt::epoch() != self.ep { return; }
        let mut w = rt::point(Req::new("drop tx", self.o));
        st(&mut w, self.o).senders -= 1;
    }
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.0.send(t) }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.0.send(t) }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> { self.0.try_send(t, "try_send") }
}
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.clone_tx(); Sender(self.0.clone()) } }
impl<T> Clone for SyncSender<T> { fn clone(&self) -> Self { self.0.clone_tx(); SyncSender(self.0.clone()) } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.drop_tx() } }
impl<T> Drop for SyncSender<T> { fn drop(&mut self) { self.0.drop_tx() } }
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if !rt::active() || rt::epoch() != self.0.ep { return; }
        let mut w = rt::point(Req::new("drop rx", self.0.o));
        let s = st(&mut w, self.0.o);
        s.rx_alive = false;
        s.len = 0;
        drop(w);
        // messages nobody will receive are dropped (those of blocked senders go back to them)
        let dead: Vec<T> = {
            let mut q = self.0.q();
            let (keep, dead): (VecDeque<_>, VecDeque<_>) = q.drain(..).partition(|x| x.0 != rt::NONE);
            *q = keep;
            dead.into_iter().map(|x| x.1).collect()
        };
        drop(dead);
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> { self.0.recv(None).map_err(|_| RecvError) }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> { self.0.recv(Some(d)) }
    pub fn try_recv(&self) -> Result<T, TryRecvError> { self.0.try_recv() }
    pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
impl<T> ::std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("Sender { .. }") } }
impl<T> ::std::fmt::Debug for SyncSender<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("SyncSender { .. }") } }
impl<T> ::std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("Receiver { .. }") } }
