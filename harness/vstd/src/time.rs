//! Modelled `std::time`: a virtual clock.
pub use ::std::time::*;
use crate::rt;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};
use ::std::time as real;

/// Virtual wall clock time.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
pub struct SystemTime(real::SystemTime);

/// See `std::time::UNIX_EPOCH`.
pub const UNIX_EPOCH: SystemTime = SystemTime(real::UNIX_EPOCH);
const BASE: u64 = 1_700_000_000;

impl SystemTime {
    /// The Unix epoch.
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    /// The virtual time.
    pub fn now() -> SystemTime {
        SystemTime(real::UNIX_EPOCH + real::Duration::from_secs(BASE) + real::Duration::from_nanos(rt::now_ns()))
    }
    /// The instant of a virtual clock value.
    pub fn at(ns: u64) -> SystemTime {
        SystemTime(real::UNIX_EPOCH + real::Duration::from_secs(BASE) + real::Duration::from_nanos(ns))
    }
    /// See std.
    pub fn duration_since(&self, o: SystemTime) -> Result<real::Duration, real::SystemTimeError> {
        self.0.duration_since(o.0)
    }
    /// See std.
    pub fn elapsed(&self) -> Result<real::Duration, real::SystemTimeError> {
        SystemTime::now().duration_since(*self)
    }
    /// See std.
    pub fn checked_add(&self, d: real::Duration) -> Option<SystemTime> {
        self.0.checked_add(d).map(SystemTime)
    }
    /// See std.
    pub fn checked_sub(&self, d: real::Duration) -> Option<SystemTime> {
        self.0.checked_sub(d).map(SystemTime)
    }
}
impl Add<real::Duration> for SystemTime {
    type Output = SystemTime;
    fn add(self, d: real::Duration) -> SystemTime {
        SystemTime(self.0 + d)
    }
}
impl Sub<real::Duration> for SystemTime {
    type Output = SystemTime;
    fn sub(self, d: real::Duration) -> SystemTime {
        SystemTime(self.0 - d)
    }
}
impl AddAssign<real::Duration> for SystemTime {
    fn add_assign(&mut self, d: real::Duration) {
        self.0 += d
    }
}
impl SubAssign<real::Duration> for SystemTime {
    fn sub_assign(&mut self, d: real::Duration) {
        self.0 -= d
    }
}

/// Virtual monotonic time.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(real::Duration);
impl Instant {
    /// The virtual time.
    pub fn now() -> Instant {
        Instant(real::Duration::from_secs(BASE) + real::Duration::from_nanos(rt::now_ns()))
    }
    /// Virtual clock value of this instant.
    pub fn ns(&self) -> u64 {
        self.0.saturating_sub(real::Duration::from_secs(BASE)).as_nanos() as u64
    }
    /// See std.
    pub fn duration_since(&self, o: Instant) -> real::Duration {
        self.0.saturating_sub(o.0)
    }
    /// See std.
    pub fn saturating_duration_since(&self, o: Instant) -> real::Duration {
        self.0.saturating_sub(o.0)
    }
    /// See std.
    pub fn checked_duration_since(&self, o: Instant) -> Option<real::Duration> {
        self.0.checked_sub(o.0)
    }
    /// See std.
    pub fn elapsed(&self) -> real::Duration {
        Instant::now().duration_since(*self)
    }
    /// See std.
    pub fn checked_add(&self, d: real::Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    /// See std.
    pub fn checked_sub(&self, d: real::Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<real::Duration> for Instant {
    type Output = Instant;
    fn add(self, d: real::Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl Sub<real::Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: real::Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl Sub<Instant> for Instant {
    type Output = real::Duration;
    fn sub(self, o: Instant) -> real::Duration {
        self.duration_since(o)
    }
}
impl AddAssign<real::Duration> for Instant {
    fn add_assign(&mut self, d: real::Duration) {
        self.0 += d
    }
}

/// Nanoseconds of a duration, saturating at about 290 years.
pub fn ns(d: real::Duration) -> u64 {
    d.as_nanos().min(1 << 62) as u64
}
/// The virtual deadline `d` from now.
pub fn deadline_in(d: real::Duration) -> u64 {
    rt::peek_ns().saturating_add(ns(d).max(1))
}
