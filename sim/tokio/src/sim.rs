//! Executor, clock and decision source of the simulation.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BinaryHeap, HashSet, VecDeque};
use std::cmp::Reverse;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub use crate::net::ctl as netctl;

// ---------------------------------------------------------------- randomness

#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
}

/// Source of every scheduling, timing and network decision.  A decision is a small number; 0 is always the
/// plainest choice (first runnable task, no preemption, no delay, whole segments).
#[derive(Clone, Debug)]
pub enum Decider {
    Random(Rng),
    /// Sparse list of non-zero decisions, by index; everything else is 0.
    Trace(BTreeMap<u64, u32>),
}

/// Knobs of one run.
#[derive(Clone, Debug)]
pub struct Config {
    /// 0: first runnable task; 1: uniformly random; 2: random priorities with change points
    pub sched: u8,
    /// probability that a poll gets only a few units of cooperative budget (preempted inside)
    pub preempt: f64,
    /// probability that the pick deviates from the first runnable task (sched 1)
    pub reorder: f64,
    pub select_random: bool,
    /// base one-way latency, microseconds
    pub latency_us: u32,
    /// extra latency up to this many microseconds
    pub jitter_us: u32,
    /// probability that a segment is delayed by the jitter
    pub jitter_p: f64,
    /// probability that a written chunk is split / a read is short
    pub split_p: f64,
    /// bytes in flight plus unread per direction
    pub window: usize,
    pub timer_late_us: u32,
    pub max_steps: u64,
    pub max_time_ns: u64,
    /// polls of one task without any event in between before it counts as a livelock
    pub livelock: u64,
    pub record_trace: bool,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            sched: 1,
            preempt: 0.1,
            reorder: 0.5,
            select_random: true,
            latency_us: 100,
            jitter_us: 2000,
            jitter_p: 0.3,
            split_p: 0.2,
            window: 65536,
            timer_late_us: 0,
            max_steps: 2_000_000,
            max_time_ns: 3_600_000_000_000,
            livelock: 20_000,
            record_trace: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    /// nothing runnable and no event left, main not finished
    Deadlock,
    StepLimit,
    TimeLimit,
    /// a task kept being polled although nothing happened
    Livelock(String),
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub sim_ns: u64,
    pub decisions: u64,
    pub nonzero: u64,
    pub preempts: u64,
    pub spawned: u64,
    pub timers: u64,
    pub sched_hash: u64,
    pub spins: u64,
    pub spin_tasks: BTreeMap<String, u64>,
    pub panics: Vec<String>,
    /// named counters: fault kinds that actually fired and rare conditions reached
    pub counters: BTreeMap<&'static str, u64>,
}

pub(crate) struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    label: Arc<str>,
    node: u32,
    queued: bool,
    abort: bool,
    prio: u64,
    polls_since_event: u64,
    on_abort: Option<Box<dyn FnOnce(AbortWhy)>>,
}
pub(crate) enum AbortWhy {
    Cancelled,
    Panic(Box<dyn Any + Send>),
}

type WakeQueue = Arc<Mutex<VecDeque<usize>>>;
struct TaskWaker {
    id: usize,
    q: WakeQueue,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.q.lock().unwrap().push_back(self.id);
    }
}

pub(crate) enum Ev {
    Wake(u64),
    Net(crate::net::NetEv),
}

pub(crate) struct State {
    pub cfg: Config,
    pub now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    evs: BTreeMap<u64, Ev>,
    pub timer_wakers: BTreeMap<u64, (u64, Option<Waker>)>, // id -> (deadline, waker)
    tasks: BTreeMap<usize, Task>,
    next_task: usize,
    runnable: Vec<usize>,
    yielded: Vec<usize>,
    yield_now: bool,
    spin_rounds: u32,
    pub cur_task: usize,
    dec: Decider,
    ndec: u64,
    trace: Vec<(u64, u32)>,
    pub stats: Stats,
    wake_q: WakeQueue,
    pub net: crate::net::Net,
    dead_nodes: HashSet<u32>,
    clock_skew: i64,
    event_seq: u64,
    aborts: Vec<usize>,
}

thread_local! {
    static SIM: RefCell<Option<Box<State>>> = const { RefCell::new(None) };
    /// simulated nanoseconds + 1, 0 when no simulation runs on this thread (read by the clock interposer)
    pub static CLOCK: Cell<u64> = const { Cell::new(0) };
    /// state of the generator behind the `getrandom` interposer, 0 = use the system's
    pub static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub(crate) fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    SIM.with(|s| {
        let mut b = s.borrow_mut();
        f(b.as_mut().expect("no simulation on this thread"))
    })
}
pub(crate) fn try_with<R>(f: impl FnOnce(&mut State) -> R) -> Option<R> {
    SIM.try_with(|s| s.try_borrow_mut().ok().and_then(|mut b| b.as_mut().map(|s| f(s)))).ok().flatten()
}
pub fn active() -> bool {
    CLOCK.with(|c| c.get()) != 0
}

impl State {
    pub fn decide(&mut self, n: u32, p_nonzero: f64) -> u32 {
        if n <= 1 {
            return 0;
        }
        let i = self.ndec;
        self.ndec += 1;
        let v = match &mut self.dec {
            Decider::Random(r) => {
                if p_nonzero >= 1.0 {
                    r.below(n as u64) as u32
                } else if r.chance(p_nonzero) {
                    1 + r.below(n as u64 - 1) as u32
                } else {
                    0
                }
            }
            Decider::Trace(m) => m.get(&i).copied().unwrap_or(0).min(n - 1),
        };
        if v != 0 {
            self.stats.nonzero += 1;
            if self.cfg.record_trace {
                self.trace.push((i, v));
            }
        }
        v
    }
    pub fn mix(&mut self, x: u64) {
        let h = &mut self.stats.sched_hash;
        *h = (*h ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(17);
    }
    pub fn schedule(&mut self, at: u64, ev: Ev) {
        self.seq += 1;
        let at = at.max(self.now);
        self.heap.push(Reverse((at, self.seq)));
        self.evs.insert(self.seq, ev);
    }
    pub fn count(&mut self, k: &'static str) {
        *self.stats.counters.entry(k).or_insert(0) += 1;
    }
    pub fn cur_node(&self) -> u32 {
        self.tasks.get(&self.cur_task).map(|t| t.node).unwrap_or(0)
    }
    pub fn node_dead(&self, n: u32) -> bool {
        self.dead_nodes.contains(&n)
    }
    fn drain_wakes(&mut self) {
        let mut q = self.wake_q.lock().unwrap();
        while let Some(id) = q.pop_front() {
            if let Some(t) = self.tasks.get_mut(&id) {
                if !t.queued {
                    t.queued = true;
                    self.runnable.push(id);
                }
            }
        }
    }
    fn new_event(&mut self) {
        self.event_seq += 1;
        self.spin_rounds = 0;
        for t in self.tasks.values_mut() {
            t.polls_since_event = 0;
        }
    }
}

// ---------------------------------------------------------------- public helpers

pub fn now_ns() -> u64 {
    with(|s| s.now)
}
pub fn steps() -> u64 {
    with(|s| s.stats.steps)
}
pub fn next_seq() -> u64 {
    with(|s| {
        s.seq += 1;
        s.seq
    })
}
pub fn count(k: &'static str) {
    with(|s| s.count(k));
}
/// A decision for harness code (recorded and replayed like scheduling decisions).
pub fn decide(n: u32) -> u32 {
    with(|s| s.decide(n, 1.0))
}
pub fn select_start(n: u32) -> u32 {
    try_with(|s| {
        if s.cfg.select_random {
            let v = s.decide(n, 1.0);
            s.mix(v as u64 + 77);
            v
        } else {
            0
        }
    })
    .unwrap_or(0)
}
pub fn panics() -> Vec<String> {
    with(|s| s.stats.panics.clone())
}
pub fn spin_count() -> u64 {
    with(|s| s.stats.spins)
}
/// Names of live tasks (diagnostics).
pub fn live_tasks(node: u32) -> usize {
    with(|s| s.tasks.values().filter(|t| t.node == node && t.fut.is_some()).count())
}
/// Kill every task of a node at once.  Its sockets have to be dealt with first (`netctl::crash_node`).
pub fn crash_tasks(node: u32) {
    let ids: Vec<usize> = with(|s| {
        s.tasks.iter().filter(|(_, t)| t.node == node).map(|(i, _)| *i).collect()
    });
    for i in ids {
        abort_task(i);
    }
}
pub fn polls_of_node(node: u32) -> u64 {
    with(|s| *s.net.polls.get(&node).unwrap_or(&0))
}

pub(crate) fn mark_yield() {
    with(|s| s.yield_now = true);
}

pub(crate) fn spawn_task(
    fut: Pin<Box<dyn Future<Output = ()>>>,
    label: Arc<str>,
    node: Option<u32>,
    on_abort: Box<dyn FnOnce(AbortWhy)>,
) -> usize {
    with(|s| {
        let id = s.next_task;
        s.next_task += 1;
        let node = node.unwrap_or_else(|| s.cur_node());
        let prio = if s.cfg.sched == 2 { s.decide(1 << 16, 1.0) as u64 } else { 0 };
        s.stats.spawned += 1;
        s.tasks.insert(
            id,
            Task {
                fut: Some(fut),
                label,
                node,
                queued: true,
                abort: false,
                prio,
                polls_since_event: 0,
                on_abort: Some(on_abort),
            },
        );
        s.runnable.push(id);
        id
    })
}
pub(crate) fn abort_task(id: usize) {
    let _ = try_with(|s| {
        if let Some(t) = s.tasks.get_mut(&id) {
            t.abort = true;
            s.aborts.push(id);
        }
    });
}
pub fn cur_label() -> Arc<str> {
    try_with(|s| s.tasks.get(&s.cur_task).map(|t| t.label.clone())).flatten().unwrap_or_else(|| "?".into())
}

pub fn install_panic_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if active() {
                let m = format!("{info}");
                if std::env::var_os("VSIM_PANIC").is_some() {
                    eprintln!("{m}\n{}", std::backtrace::Backtrace::force_capture());
                }
                let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = Some(m));
            } else {
                old(info)
            }
        }));
    });
}

pub struct Outcome<T> {
    pub end: End,
    pub value: Option<T>,
    pub stats: Stats,
    pub trace: Vec<(u64, u32)>,
}

enum Step {
    Ran,
    End(End),
}

fn step(main_done: &dyn Fn() -> bool) -> Step {
    // finish aborts outside of any borrow
    loop {
        let a = with(|s| s.aborts.pop());
        let Some(id) = a else { break };
        let t = with(|s| {
            s.runnable.retain(|x| *x != id);
            s.yielded.retain(|x| *x != id);
            s.tasks.remove(&id)
        });
        if let Some(mut t) = t {
            drop(t.fut.take());
            if let Some(f) = t.on_abort.take() {
                f(AbortWhy::Cancelled);
            }
        }
    }
    if main_done() {
        return Step::End(End::Done);
    }
    enum P {
        Poll(usize, Pin<Box<dyn Future<Output = ()>>>, u32),
        Again,
        End(End),
    }
    let p = with(|s| {
        s.drain_wakes();
        if s.stats.steps >= s.cfg.max_steps {
            return P::End(End::StepLimit);
        }
        if s.runnable.is_empty() {
            if !s.yielded.is_empty() && s.spin_rounds < 4 {
                s.spin_rounds += 1;
                let y = std::mem::take(&mut s.yielded);
                for id in y {
                    if let Some(t) = s.tasks.get_mut(&id).filter(|t| !t.queued) {
                        t.queued = true;
                        s.runnable.push(id);
                    }
                }
                return P::Again;
            }
            if !s.yielded.is_empty() {
                s.stats.spins += 1;
                for id in &s.yielded {
                    if let Some(t) = s.tasks.get(id) {
                        *s.stats.spin_tasks.entry(t.label.to_string()).or_insert(0) += 1;
                    }
                }
            }
            // advance time
            let Some(Reverse((at, _))) = s.heap.peek().copied() else {
                return P::End(End::Deadlock);
            };
            if at > s.cfg.max_time_ns {
                return P::End(End::TimeLimit);
            }
            s.now = at;
            CLOCK.with(|c| c.set(at + 1));
            s.new_event();
            while let Some(Reverse((a, q))) = s.heap.peek().copied() {
                if a > at {
                    break;
                }
                s.heap.pop();
                match s.evs.remove(&q) {
                    Some(Ev::Wake(id)) => {
                        s.stats.timers += 1;
                        if let Some((_, w)) = s.timer_wakers.get_mut(&id) {
                            if let Some(w) = w.take() {
                                w.wake();
                            }
                        }
                    }
                    Some(Ev::Net(e)) => crate::net::fire(s, e),
                    None => {}
                }
            }
            let y = std::mem::take(&mut s.yielded);
            for id in y {
                if let Some(t) = s.tasks.get_mut(&id).filter(|t| !t.queued) {
                    t.queued = true;
                    s.runnable.push(id);
                }
            }
            return P::Again;
        }
        // pick
        let n = s.runnable.len() as u32;
        let idx = match s.cfg.sched {
            0 => 0,
            1 => {
                let p = s.cfg.reorder;
                s.decide(n, p)
            }
            _ => {
                // change point: give some runnable task the lowest priority
                if n > 1 {
                    if s.decide(2, 0.02) == 1 {
                        let k = s.decide(n, 1.0) as usize;
                        let id = s.runnable[k];
                        if let Some(t) = s.tasks.get_mut(&id) {
                            t.prio = t.prio.saturating_add(1 << 20);
                        }
                    }
                }
                let mut best = 0usize;
                for (i, id) in s.runnable.iter().enumerate() {
                    if s.tasks[id].prio < s.tasks[&s.runnable[best]].prio {
                        best = i;
                    }
                }
                best as u32
            }
        };
        let id = s.runnable.remove(idx as usize);
        let burn = if s.cfg.preempt > 0.0 {
            let pp = s.cfg.preempt;
            let k = s.decide(9, pp);
            if k > 0 {
                s.stats.preempts += 1;
                128 - k
            } else {
                0
            }
        } else {
            0
        };
        s.stats.steps += 1;
        s.mix(id as u64 + 1000);
        s.cur_task = id;
        s.yield_now = false;
        let livelock = s.cfg.livelock;
        let t = s.tasks.get_mut(&id).unwrap();
        t.queued = false;
        t.polls_since_event += 1;
        let node = t.node;
        if t.polls_since_event > livelock {
            let l = t.label.to_string();
            return P::End(End::Livelock(l));
        }
        let fut = t.fut.take().unwrap();
        *s.net.polls.entry(node).or_insert(0) += 1;
        P::Poll(id, fut, burn)
    });
    match p {
        P::End(e) => Step::End(e),
        P::Again => Step::Ran,
        P::Poll(id, mut fut, burn) => {
            let q = with(|s| s.wake_q.clone());
            let waker = Waker::from(Arc::new(TaskWaker { id, q }));
            let mut cx = Context::from_waker(&waker);
            for _ in 0..burn {
                match tokio_real::task::coop::poll_proceed(&mut cx) {
                    Poll::Ready(r) => r.made_progress(),
                    Poll::Pending => break,
                }
            }
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
            match r {
                Ok(Poll::Pending) => {
                    with(|s| {
                        let y = s.yield_now;
                        s.yield_now = false;
                        if let Some(t) = s.tasks.get_mut(&id) {
                            t.fut = Some(fut);
                            if y && !t.queued {
                                s.yielded.push(id);
                            }
                        }
                    });
                }
                Ok(Poll::Ready(())) => {
                    drop(fut);
                    let t = with(|s| s.tasks.remove(&id));
                    drop(t);
                }
                Err(e) => {
                    let _ = std::panic::catch_unwind(AssertUnwindSafe(move || drop(fut)));
                    let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default();
                    let t = with(|s| {
                        let l = s.tasks.get(&id).map(|t| t.label.to_string()).unwrap_or_default();
                        s.stats.panics.push(format!("[{l}] {m}"));
                        s.tasks.remove(&id)
                    });
                    if let Some(mut t) = t {
                        if let Some(f) = t.on_abort.take() {
                            f(AbortWhy::Panic(e));
                        }
                    }
                }
            }
            Step::Ran
        }
    }
}

/// Run `main` as the first task of a fresh simulation on this thread.  Everything is a function of
/// (`cfg`, `dec`, `entropy`) and the code.
pub fn run<T: 'static, F>(cfg: Config, dec: Decider, entropy: u64, main: F) -> Outcome<T>
where
    F: Future<Output = T> + 'static,
{
    install_panic_hook();
    ENTROPY.with(|e| e.set(entropy | 1));
    CLOCK.with(|c| c.set(1));
    let st = State {
        cfg,
        now: 0,
        seq: 0,
        heap: BinaryHeap::new(),
        evs: BTreeMap::new(),
        timer_wakers: BTreeMap::new(),
        tasks: BTreeMap::new(),
        next_task: 1,
        runnable: vec![],
        yielded: vec![],
        yield_now: false,
        spin_rounds: 0,
        cur_task: 0,
        dec,
        ndec: 0,
        trace: vec![],
        stats: Stats::default(),
        wake_q: Arc::new(Mutex::new(VecDeque::new())),
        net: crate::net::Net::default(),
        dead_nodes: HashSet::new(),
        clock_skew: 0,
        event_seq: 0,
        aborts: vec![],
    };
    SIM.with(|s| *s.borrow_mut() = Some(Box::new(st)));
    let out: std::rc::Rc<RefCell<Option<T>>> = Default::default();
    let done: std::rc::Rc<Cell<bool>> = Default::default();
    {
        let (o, d) = (out.clone(), done.clone());
        let d2 = done.clone();
        spawn_task(
            Box::pin(async move {
                let v = main.await;
                *o.borrow_mut() = Some(v);
                d.set(true);
            }),
            "main".into(),
            Some(0),
            Box::new(move |_| d2.set(true)),
        );
    }
    let rt = tokio_real::runtime::Builder::new_current_thread().build().unwrap();
    let end = rt.block_on(std::future::poll_fn(|cx| {
        match step(&|| done.get()) {
            Step::Ran => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Step::End(e) => Poll::Ready(e),
        }
    }));
    // tear down: drop all futures while the simulation is still installed
    let _ = std::panic::catch_unwind(AssertUnwindSafe(|| loop {
        let ids: Vec<usize> = with(|s| s.tasks.keys().copied().collect());
        if ids.is_empty() {
            break;
        }
        for id in ids {
            let t = with(|s| s.tasks.remove(&id));
            if let Some(t) = t {
                let f = t.fut;
                let _ = std::panic::catch_unwind(AssertUnwindSafe(move || drop(f)));
                drop(t.on_abort);
            }
        }
    }));
    drop(rt);
    let st = SIM.with(|s| s.borrow_mut().take()).unwrap();
    CLOCK.with(|c| c.set(0));
    ENTROPY.with(|e| e.set(0));
    let mut stats = st.stats.clone();
    stats.sim_ns = st.now;
    stats.decisions = st.ndec;
    let trace = st.trace.clone();
    drop(st);
    let value = out.borrow_mut().take();
    Outcome { end, value, stats, trace }
}
