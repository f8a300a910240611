//! Façade of `std::time`: virtual clocks inside an execution.
pub use ::std::time::*;
use crate::rt;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};

fn now() -> Duration {
    static START: ::std::sync::OnceLock<::std::time::Instant> = ::std::sync::OnceLock::new();
    match rt::tid() {
        Some(t) => {
            let mut w = rt::lock();
            let n = w.now;
            w.note(t, n);
            Duration::from_nanos(n)
        }
        None => START.get_or_init(::std::time::Instant::now).elapsed() + Duration::from_secs(1_000_000),
    }
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Instant { Instant(now()) }
    pub fn elapsed(&self) -> Duration { Instant::now().duration_since(*self) }
    pub fn duration_since(&self, e: Instant) -> Duration { self.0.saturating_sub(e.0) }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration { self.0.saturating_sub(e.0) }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> { self.0.checked_sub(e.0) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d).filter(|x| x.as_secs() <= i64::MAX as u64).map(Instant) }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(d).map(Instant) }
}
impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { self.checked_add(d).expect("overflow when adding duration to instant") } }
impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { self.checked_sub(d).expect("overflow when subtracting duration from instant") } }
impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }
impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }

/// Seconds since the epoch of the virtual wall clock at virtual time zero (2030, so that the files the
/// checks serve are in the past).
const BASE: Duration = Duration::from_secs(1_900_000_000);

/// `SystemTime` stays the real type (file metadata uses it too); its clock is virtual inside an execution,
/// because this definition takes the place of libc's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clock == libc::CLOCK_REALTIME && rt::active() {
        let t = BASE + now();
        (*ts).tv_sec = t.as_secs() as i64;
        (*ts).tv_nsec = t.subsec_nanos() as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int
}
