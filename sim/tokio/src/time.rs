//! Simulated time.
use crate::sim::{self, Ev};
use std::fmt;
use std::future::{Future, IntoFuture};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;
pub use tokio_real::time::Instant;

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            "deadline has elapsed".fmt(f)
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> Self {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}

fn to_ns(at: Instant) -> u64 {
    // Instant::now() reads the simulated clock
    let now = Instant::now();
    let sim_now = sim::now_ns();
    if at >= now {
        sim_now.saturating_add((at - now).as_nanos().min(u64::MAX as u128 / 4) as u64)
    } else {
        sim_now.saturating_sub((now - at).as_nanos().min(u64::MAX as u128 / 4) as u64)
    }
}

pub struct Sleep {
    deadline: Instant,
    id: u64, // 0: not registered
    fire_at: u64,
}
impl fmt::Debug for Sleep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Sleep").field("deadline", &self.deadline).finish()
    }
}
const MS: u64 = 1_000_000;
impl Sleep {
    fn new(deadline: Instant) -> Self {
        Sleep { deadline, id: 0, fire_at: 0 }
    }
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        self.id != 0 && sim::now_ns() >= self.fire_at
    }
    pub fn reset(mut self: Pin<&mut Self>, deadline: Instant) {
        self.unregister();
        self.deadline = deadline;
        self.register();
    }
    fn register(&mut self) {
        let ns = to_ns(self.deadline);
        // tokio's timer has a resolution of one millisecond and never fires early
        let mut at = ns.div_ceil(MS) * MS;
        self.id = sim::with(|s| {
            if s.cfg.timer_late_us > 0 {
                let l = s.cfg.timer_late_us;
                at += s.decide(l + 1, 0.3) as u64 * 1000;
            }
            0
        });
        self.fire_at = at;
        let seq = sim::next_seq();
        self.id = seq;
        sim::with(|s| {
            s.timer_wakers.insert(seq, (at, None));
            if at > s.now {
                s.schedule(at, Ev::Wake(seq));
            }
        });
    }
    fn unregister(&mut self) {
        if self.id != 0 {
            let id = self.id;
            self.id = 0;
            let w = sim::try_with(|s| s.timer_wakers.remove(&id));
            drop(w);
        }
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let coop = std::task::ready!(crate::task::coop::poll_proceed(cx));
        if self.id == 0 {
            self.register();
        }
        let (id, at) = (self.id, self.fire_at);
        let r = sim::with(|s| {
            if s.now >= at {
                true
            } else {
                if let Some(e) = s.timer_wakers.get_mut(&id) {
                    e.1 = Some(cx.waker().clone());
                }
                false
            }
        });
        if r {
            coop.made_progress();
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        self.unregister();
    }
}

fn far() -> Instant {
    Instant::now() + Duration::from_secs(86400 * 365 * 30)
}
pub fn sleep(d: Duration) -> Sleep {
    let now = Instant::now();
    Sleep::new(now.checked_add(d).filter(|t| *t < far()).unwrap_or_else(far))
}
pub fn sleep_until(deadline: Instant) -> Sleep {
    Sleep::new(deadline)
}

pin_project_lite_free::timeout!();
mod pin_project_lite_free {
    macro_rules! timeout {
        () => {
            #[must_use]
            pub struct Timeout<T> {
                value: T,
                delay: Sleep,
            }
            impl<T> Timeout<T> {
                pub fn get_ref(&self) -> &T {
                    &self.value
                }
                pub fn get_mut(&mut self) -> &mut T {
                    &mut self.value
                }
                pub fn into_inner(self) -> T {
                    self.value
                }
            }
            impl<T: Future> Future for Timeout<T> {
                type Output = Result<T::Output, error::Elapsed>;
                fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                    // Safety: both fields are structurally pinned and never moved.
                    let me = unsafe { self.get_unchecked_mut() };
                    let had = crate::task::coop::has_budget_remaining();
                    let v = unsafe { Pin::new_unchecked(&mut me.value) };
                    if let Poll::Ready(v) = v.poll(cx) {
                        return Poll::Ready(Ok(v));
                    }
                    let now_has = crate::task::coop::has_budget_remaining();
                    let d = unsafe { Pin::new_unchecked(&mut me.delay) };
                    if had && !now_has {
                        // as in tokio: the timer is checked even if the future used up the budget
                        let mut u = std::pin::pin!(crate::task::unconstrained(d));
                        return match u.as_mut().poll(cx) {
                            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
                            Poll::Pending => Poll::Pending,
                        };
                    }
                    match d.poll(cx) {
                        Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
                        Poll::Pending => Poll::Pending,
                    }
                }
            }
        };
    }
    pub(crate) use timeout;
}
pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout { value: f.into_future(), delay: sleep(d) }
}
pub fn timeout_at<F: IntoFuture>(at: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { value: f.into_future(), delay: sleep_until(at) }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    delay: Pin<Box<Sleep>>,
    period: Duration,
    missed: MissedTickBehavior,
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::ZERO, "`period` must be non-zero.");
    Interval { delay: Box::pin(sleep_until(start)), period, missed: MissedTickBehavior::Burst }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        std::task::ready!(self.delay.as_mut().poll(cx));
        let timeout = self.delay.deadline();
        let now = Instant::now();
        let next = if now > timeout + Duration::from_millis(5) {
            match self.missed {
                MissedTickBehavior::Burst => timeout + self.period,
                MissedTickBehavior::Delay => now + self.period,
                MissedTickBehavior::Skip => {
                    now + self.period
                        - Duration::from_nanos(((now - timeout).as_nanos() % self.period.as_nanos()) as u64)
                }
            }
        } else {
            timeout + self.period
        };
        self.delay.as_mut().reset(next);
        Poll::Ready(timeout)
    }
    pub fn reset(&mut self) {
        let t = Instant::now() + self.period;
        self.delay.as_mut().reset(t);
    }
    pub fn reset_immediately(&mut self) {
        self.delay.as_mut().reset(Instant::now());
    }
    pub fn reset_after(&mut self, after: Duration) {
        self.delay.as_mut().reset(Instant::now() + after);
    }
    pub fn reset_at(&mut self, deadline: Instant) {
        self.delay.as_mut().reset(deadline);
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b;
    }
    pub fn period(&self) -> Duration {
        self.period
    }
}
