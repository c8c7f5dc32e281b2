//! Virtual time: a process-wide millisecond counter that only the harness moves.
use std::fmt;
use std::future::Future;
use std::ops;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

// Kani keeps constants with the same bytes as a static in that static: the tag makes them differ.
static mut NOW: (u64, u64) = (0x5eed000b, 1_000_000);

/// Harness control: move the virtual clock forward.
pub fn model_advance(ms: u64) {
    unsafe { NOW.1 += ms }
}
fn now() -> u64 {
    unsafe { NOW.1 }
}

#[derive(Clone, Copy, Eq, PartialEq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(u64);

impl Instant {
    pub fn now() -> Instant {
        Instant(now())
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_millis(now() - self.0)
    }
}
impl ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d.as_secs() * 1000 + u64::from(d.subsec_millis()))
    }
}

#[derive(Debug)]
pub struct Delay {
    deadline: Instant,
}
impl Delay {
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        now() >= self.deadline.0
    }
    pub fn reset(&mut self, deadline: Instant) {
        self.deadline = deadline
    }
}
impl Future for Delay {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        if now() >= self.deadline.0 {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
pub fn delay_until(deadline: Instant) -> Delay {
    Delay { deadline }
}
pub fn delay_for(d: Duration) -> Delay {
    delay_until(Instant::now() + d)
}

#[derive(Debug)]
pub struct Interval {
    deadline: Instant,
    period: Duration,
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    Interval {
        deadline: start,
        period,
    }
}
impl Interval {
    pub fn poll_tick(&mut self, _cx: &mut Context<'_>) -> Poll<Instant> {
        if now() >= self.deadline.0 {
            let t = self.deadline;
            self.deadline = t + self.period;
            Poll::Ready(t)
        } else {
            Poll::Pending
        }
    }
    pub async fn tick(&mut self) -> Instant {
        crate::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
}
impl crate::stream::Stream for Interval {
    type Item = Instant;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Instant>> {
        Poll::Ready(Some(ready!(self.poll_tick(cx))))
    }
}

#[derive(Debug, PartialEq)]
pub struct Elapsed(());
impl fmt::Display for Elapsed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("deadline has elapsed")
    }
}
impl std::error::Error for Elapsed {}
impl From<Elapsed> for std::io::Error {
    fn from(_: Elapsed) -> std::io::Error {
        std::io::ErrorKind::TimedOut.into()
    }
}

#[derive(Debug)]
pub struct Timeout<T> {
    value: T,
    delay: Delay,
}
pub fn timeout<T: Future>(d: Duration, future: T) -> Timeout<T> {
    Timeout {
        value: future,
        delay: delay_for(d),
    }
}
impl<T: Future> Future for Timeout<T> {
    type Output = Result<T::Output, Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.value) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut me.delay).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
