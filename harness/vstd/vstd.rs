//! A stand-in for `std`/`core` in which everything that synchronises threads goes through the
//! controlled scheduler. Only the crate under test (and the harness) is compiled against it;
//! everything that is not overridden here is the real thing.
#![allow(clippy::all)]
#![allow(dead_code, unused_imports, hidden_glob_reexports)]

pub use ::std::*;

pub mod sched;

pub mod sync;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::sched::yield_spin()
    }
}

pub mod thread {
    pub use ::std::thread::*;
    /// Small, so that the map of a labelled family has few shards.
    pub fn available_parallelism() -> ::std::io::Result<::std::num::NonZeroUsize> {
        Ok(::std::num::NonZeroUsize::MIN)
    }
    pub fn yield_now() {
        crate::sched::yield_spin()
    }
    pub fn sleep(_d: ::std::time::Duration) {
        crate::sched::yield_spin()
    }
}

pub mod time {
    pub use ::std::time::*;
    use ::std::ops::{Add, AddAssign, Sub, SubAssign};

    /// A clock that only moves when the harness says so (per thread).
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct Instant(u64);

    impl Instant {
        pub fn now() -> Self {
            let now = crate::sched::clock();
            crate::sched::set_clock(now + crate::sched::tick());
            Instant(now)
        }
        pub fn elapsed(&self) -> Duration {
            Self::now().duration_since(*self)
        }
        pub fn duration_since(&self, e: Instant) -> Duration {
            Duration::from_nanos(self.0.saturating_sub(e.0))
        }
        pub fn saturating_duration_since(&self, e: Instant) -> Duration {
            self.duration_since(e)
        }
        pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
            self.0.checked_sub(e.0).map(Duration::from_nanos)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            u64::try_from(d.as_nanos()).ok().and_then(|d| self.0.checked_add(d)).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            u64::try_from(d.as_nanos()).ok().and_then(|d| self.0.checked_sub(d)).map(Instant)
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            self.checked_add(d).expect("overflow when adding duration to instant")
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            *self = *self + d;
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            self.checked_sub(d).expect("overflow when subtracting duration from instant")
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            *self = *self - d;
        }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, e: Instant) -> Duration {
            self.duration_since(e)
        }
    }
}
