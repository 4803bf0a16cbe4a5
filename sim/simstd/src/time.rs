//! Instant and SystemTime on the simulated clock.
pub use ::std::time::{Duration, SystemTimeError, TryFromFloatSecsError};
use crate::sim;
use ::std::fmt;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};

fn real_now() -> u64 {
    static BASE: ::std::sync::OnceLock<::std::time::Instant> = ::std::sync::OnceLock::new();
    BASE.get_or_init(::std::time::Instant::now).elapsed().as_nanos() as u64 + 1_000_000_007
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Self {
        Instant(Duration::from_nanos(if sim::in_sim() { sim::now() } else { real_now() }))
    }
    pub fn from_sim(ns: u64) -> Self {
        Instant(Duration::from_nanos(ns))
    }
    pub fn to_sim(self) -> u64 {
        self.0.as_nanos().min(u64::MAX as u128) as u64
    }
    pub fn elapsed(&self) -> Duration {
        Self::now().saturating_duration_since(*self)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl fmt::Debug for Instant {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Instant({:?})", self.0)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SystemTime(Duration);
pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    pub fn now() -> Self {
        SystemTime(Duration::from_secs(1_790_000_000) + Instant::now().0)
    }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, ::std::string::String> {
        self.0.checked_sub(o.0).ok_or_else(|| "second time provided was later than self".into())
    }
    pub fn elapsed(&self) -> Result<Duration, ::std::string::String> {
        Self::now().duration_since(*self)
    }
}
impl fmt::Debug for SystemTime {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SystemTime({:?})", self.0)
    }
}
impl Add<Duration> for SystemTime {
    type Output = SystemTime;
    fn add(self, d: Duration) -> SystemTime {
        SystemTime(self.0 + d)
    }
}
impl Sub<Duration> for SystemTime {
    type Output = SystemTime;
    fn sub(self, d: Duration) -> SystemTime {
        SystemTime(self.0 - d)
    }
}
