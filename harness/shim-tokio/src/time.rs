//! Virtual time.
pub use std::time::Duration;
pub use vstd::time::Instant;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use vstd::rt;

/// See tokio.
#[derive(Debug)]
pub struct Sleep {
    deadline: u64,
    timer: Option<(u64, std::task::Waker)>,
}
impl Drop for Sleep {
    fn drop(&mut self) {
        self.forget();
    }
}
impl Sleep {
    fn at(deadline: u64) -> Sleep {
        Sleep { deadline, timer: None }
    }
    fn forget(&mut self) {
        if let Some((d, w)) = self.timer.take() {
            rt::drop_timer(d, &w);
        }
    }
    /// See tokio.
    pub fn deadline_ns(&self) -> u64 {
        self.deadline
    }
    /// See tokio.
    pub fn is_elapsed(&self) -> bool {
        rt::peek_ns() >= self.deadline
    }
    /// See tokio.
    pub fn reset(mut self: Pin<&mut Self>, i: Instant) {
        self.deadline = i.ns();
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if rt::peek_ns() >= self.deadline {
            return Poll::Ready(());
        }
        if !rt::has_exec() {
            rt::set_clock(self.deadline);
            return Poll::Ready(());
        }
        let d = self.deadline;
        if !self.timer.as_ref().map_or(false, |(t, w)| *t == d && w.will_wake(cx.waker())) {
            self.forget();
            rt::add_timer(d, cx.waker().clone());
            self.timer = Some((d, cx.waker().clone()));
        }
        Poll::Pending
    }
}
fn quantum(d: u64) -> u64 {
    let q = rt::cfg(|c| c.sleep_quantum).unwrap_or(0);
    d.max(q).max(1)
}
/// See tokio.
pub fn sleep(d: Duration) -> Sleep {
    Sleep::at(rt::peek_ns().saturating_add(quantum(vstd::time::ns(d))))
}
/// See tokio.
pub fn sleep_until(i: Instant) -> Sleep {
    Sleep::at(i.ns())
}

/// Errors.
pub mod error {
    /// See tokio.
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
}
use error::Elapsed;
impl fmt::Display for Elapsed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("deadline has elapsed")
    }
}
impl std::error::Error for Elapsed {}
/// See tokio.
pub struct Timeout<F> {
    f: Pin<Box<F>>,
    s: Sleep,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut self.s).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
/// See tokio.
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
    Timeout { f: Box::pin(f), s: Sleep::at(vstd::time::deadline_in(d)) }
}
/// See tokio.
pub fn timeout_at<F: Future>(i: Instant, f: F) -> Timeout<F> {
    Timeout { f: Box::pin(f), s: sleep_until(i) }
}
/// See tokio.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MissedTickBehavior {
    /// See tokio.
    Burst,
    /// See tokio.
    Delay,
    /// See tokio.
    Skip,
}
/// See tokio.
#[derive(Debug)]
pub struct Interval {
    next: u64,
    period: u64,
    m: MissedTickBehavior,
}
impl Interval {
    /// See tokio.
    pub async fn tick(&mut self) -> Instant {
        Sleep::at(self.next).await;
        let now = rt::peek_ns();
        self.next = match self.m {
            MissedTickBehavior::Burst => self.next + self.period,
            _ => now + self.period,
        };
        Instant::now()
    }
    /// See tokio.
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
        self.m = m;
    }
    /// See tokio.
    pub fn reset(&mut self) {
        self.next = rt::peek_ns() + self.period;
    }
    /// See tokio.
    pub fn period(&self) -> Duration {
        Duration::from_nanos(self.period)
    }
}
/// See tokio.
pub fn interval(d: Duration) -> Interval {
    Interval { next: rt::peek_ns(), period: quantum(vstd::time::ns(d)), m: MissedTickBehavior::Burst }
}
/// See tokio.
pub fn interval_at(i: Instant, d: Duration) -> Interval {
    Interval { next: i.ns(), period: quantum(vstd::time::ns(d)), m: MissedTickBehavior::Burst }
}
