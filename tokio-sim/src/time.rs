use crate::sim;
use std::fmt;
use std::future::{Future, IntoFuture};
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

pub mod error {
    pub use super::Elapsed;
    #[derive(Debug)]
    pub struct Error(pub(crate) ());
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(u64); // simulated nanoseconds since boot

impl Instant {
    pub fn now() -> Instant {
        Instant(sim::now())
    }
    pub fn from_std(s: std::time::Instant) -> Instant {
        let n = std::time::Instant::now();
        let now = sim::now();
        if s >= n {
            Instant(now + (s - n).as_nanos() as u64)
        } else {
            Instant(now.saturating_sub((n - s).as_nanos() as u64))
        }
    }
    pub fn into_std(self) -> std::time::Instant {
        let n = std::time::Instant::now();
        let now = sim::now();
        if self.0 >= now {
            n + Duration::from_nanos(self.0 - now)
        } else {
            n - Duration::from_nanos(now - self.0)
        }
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0).map(Duration::from_nanos)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(u64::try_from(d.as_nanos()).ok()?).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(u64::try_from(d.as_nanos()).ok()?).map(Instant)
    }
    pub(crate) fn ns(&self) -> u64 {
        self.0
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0.saturating_add(d.as_nanos().min(u64::MAX as u128) as u64))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.checked_sub(d.as_nanos() as u64).expect("overflow when subtracting duration from instant"))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
impl From<std::time::Instant> for Instant {
    fn from(s: std::time::Instant) -> Instant {
        Instant::from_std(s)
    }
}
impl From<Instant> for std::time::Instant {
    fn from(s: Instant) -> std::time::Instant {
        s.into_std()
    }
}

const FAR: u64 = u64::MAX / 4;

pub struct Sleep {
    deadline: u64,
    timer: Option<sim::TimerId>,
}

impl fmt::Debug for Sleep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Sleep({})", self.deadline)
    }
}

fn dead(d: Duration) -> u64 {
    sim::now().saturating_add(d.as_nanos().min(FAR as u128) as u64).min(FAR)
}

pub fn sleep(d: Duration) -> Sleep {
    Sleep { deadline: dead(d), timer: None }
}
pub fn sleep_until(i: Instant) -> Sleep {
    Sleep { deadline: i.0.min(FAR), timer: None }
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.deadline)
    }
    pub fn is_elapsed(&self) -> bool {
        match self.timer {
            Some(t) => sim::timer_fired(t),
            None => false,
        }
    }
    pub fn reset(mut self: Pin<&mut Self>, i: Instant) {
        if let Some(t) = self.timer.take() {
            sim::timer_cancel(t);
        }
        self.deadline = i.0.min(FAR);
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        sim::preempt();
        if sim::forced_yield() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let t = match self.timer {
            Some(t) => t,
            None => {
                if self.deadline <= sim::now() {
                    return Poll::Ready(());
                }
                let t = sim::timer_new(self.deadline);
                self.timer = Some(t);
                t
            }
        };
        if sim::timer_poll(t, cx.waker()) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(t) = self.timer.take() {
            sim::timer_cancel(t);
        }
    }
}

#[derive(Debug, PartialEq, Eq)]
pub struct Elapsed(());
impl fmt::Display for Elapsed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "deadline has elapsed")
    }
}
impl std::error::Error for Elapsed {}
impl From<Elapsed> for std::io::Error {
    fn from(_: Elapsed) -> std::io::Error {
        std::io::ErrorKind::TimedOut.into()
    }
}

pub struct Timeout<F> {
    value: F,
    delay: Sleep,
}
pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout { value: f.into_future(), delay: sleep(d) }
}
pub fn timeout_at<F: IntoFuture>(i: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { value: f.into_future(), delay: sleep_until(i) }
}
impl<F> Timeout<F> {
    pub fn get_ref(&self) -> &F {
        &self.value
    }
    pub fn into_inner(self) -> F {
        self.value
    }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.value) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut me.delay).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}

#[derive(Debug)]
pub struct Interval {
    delay: Sleep,
    period: Duration,
    missed: MissedTickBehavior,
}
#[track_caller]
pub fn interval(p: Duration) -> Interval {
    assert!(p > Duration::ZERO, "`period` must be non-zero.");
    interval_at(Instant::now(), p)
}
#[track_caller]
pub fn interval_at(s: Instant, p: Duration) -> Interval {
    assert!(p > Duration::ZERO, "`period` must be non-zero.");
    Interval { delay: sleep_until(s), period: p, missed: MissedTickBehavior::Burst }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match Pin::new(&mut self.delay).poll(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(()) => {}
        }
        let t = self.delay.deadline();
        let now = Instant::now();
        let next = if now.ns() > t.ns() + 5_000_000 {
            match self.missed {
                MissedTickBehavior::Burst => t + self.period,
                MissedTickBehavior::Delay => now + self.period,
                MissedTickBehavior::Skip => {
                    let p = self.period.as_nanos() as u64;
                    Instant(now.0 + p - ((now.0 - t.0) % p))
                }
            }
        } else {
            t + self.period
        };
        Pin::new(&mut self.delay).reset(next);
        Poll::Ready(t)
    }
    pub fn reset(&mut self) {
        let n = Instant::now() + self.period;
        Pin::new(&mut self.delay).reset(n)
    }
    pub fn reset_immediately(&mut self) {
        Pin::new(&mut self.delay).reset(Instant::now())
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
        self.missed = m
    }
}
