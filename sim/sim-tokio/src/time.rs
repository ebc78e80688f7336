use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub use real_tokio::time::{Duration, Instant};

fn at(i: Instant) -> u64 {
    // Instant reads the simulated monotonic clock
    let n = Instant::now();
    if i >= n {
        simrt::now().saturating_add((i - n).as_nanos().min(u64::MAX as u128 / 4) as u64)
    } else {
        simrt::now()
    }
}
pub struct Sleep {
    deadline: Instant,
    timer: Option<simrt::TimerId>,
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        Instant::now() >= self.deadline
    }
    pub fn reset(mut self: Pin<&mut Self>, d: Instant) {
        if let Some(t) = self.timer.take() {
            simrt::timer_cancel(t);
        }
        self.deadline = d;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if let Some(t) = self.timer.take() {
            simrt::timer_cancel(t);
        }
        if self.is_elapsed() {
            return Poll::Ready(());
        }
        // timers have a resolution of one millisecond
        let a = at(self.deadline);
        let a = (a + 999_999) / 1_000_000 * 1_000_000;
        self.timer = Some(simrt::timer_wake(a, cx.waker().clone()));
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(t) = self.timer.take() {
            simrt::timer_cancel(t);
        }
    }
}
pub fn sleep(d: Duration) -> Sleep {
    sleep_until(far(d))
}
fn far(d: Duration) -> Instant {
    Instant::now().checked_add(d).unwrap_or_else(|| Instant::now() + Duration::from_secs(86400 * 365 * 30))
}
pub fn sleep_until(deadline: Instant) -> Sleep {
    Sleep { deadline, timer: None }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> Self {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}
pub struct Timeout<F> {
    f: Pin<Box<F>>,
    s: Sleep,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut self.s).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
    Timeout { f: Box::pin(f), s: sleep(d) }
}
pub fn timeout_at<F: Future>(d: Instant, f: F) -> Timeout<F> {
    Timeout { f: Box::pin(f), s: sleep_until(d) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}
impl Default for MissedTickBehavior {
    fn default() -> Self {
        MissedTickBehavior::Burst
    }
}
pub struct Interval {
    s: Sleep,
    period: Duration,
    missed: MissedTickBehavior,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        if Pin::new(&mut self.s).poll(cx).is_pending() {
            return Poll::Pending;
        }
        let due = self.s.deadline;
        let now = Instant::now();
        let next = if now > due + Duration::from_millis(5) {
            match self.missed {
                MissedTickBehavior::Burst => due + self.period,
                MissedTickBehavior::Delay => now + self.period,
                MissedTickBehavior::Skip => {
                    let p = self.period.as_nanos().max(1);
                    let late = (now - due).as_nanos();
                    now + Duration::from_nanos((p - late % p) as u64)
                }
            }
        } else {
            due + self.period
        };
        self.s = sleep_until(next);
        Poll::Ready(due)
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b;
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn reset(&mut self) {
        self.s = sleep(self.period);
    }
}
#[track_caller]
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
#[track_caller]
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    Interval { s: sleep_until(start), period, missed: Default::default() }
}
