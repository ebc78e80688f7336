//! Deterministic simulation runtime.
//!
//! One process, many OS threads, but exactly one of them runs at a time: the
//! one holding the baton. Every other one waits on its own futex. Who gets the
//! baton next, how far the clock moves, which fault fires: all of it is drawn
//! from seeded generators held here. Nothing else decides.
pub mod fsx;
pub mod interpose;
pub mod rng;

use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::Waker;

pub use rng::Rng;

pub type Tid = usize;
pub const NONE: Tid = usize::MAX;

thread_local! {
    static TID: Cell<Tid> = const { Cell::new(NONE) };
    static NOYIELD: Cell<u32> = const { Cell::new(0) };
}

/// Set once a simulation has started in this process.
static ACTIVE: AtomicBool = AtomicBool::new(false);

struct Parker(AtomicU32);
impl Parker {
    fn wait(&self) {
        loop {
            if self.0.swap(0, Ordering::Acquire) == 1 {
                return;
            }
            unsafe {
                libc::syscall(
                    libc::SYS_futex,
                    &self.0 as *const AtomicU32,
                    libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG,
                    0u32,
                    std::ptr::null::<libc::timespec>(),
                );
            }
        }
    }
    fn signal(&self) {
        self.0.store(1, Ordering::Release);
        unsafe {
            libc::syscall(
                libc::SYS_futex,
                &self.0 as *const AtomicU32,
                libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG,
                1u32,
            );
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Run,
    Park,
    Done,
    Dead,
}

struct Th {
    parker: Arc<Parker>,
    st: St,
    node: u32,
    name: String,
    token: bool,
    why: &'static str,
    key: usize,
    /// relative likelihood of being picked
    weight: u32,
    entropy: Rng,
    joiners: Vec<Tid>,
    /// invalidates stale timeouts
    epoch: u64,
}

enum Timer {
    Unpark(Tid, u64),
    Wake(Waker),
    Call(Box<dyn FnOnce() + Send>),
}

/// How a run is scheduled; every field is drawn from the seed by the harness.
#[derive(Clone, Debug)]
pub struct SchedCfg {
    pub seed: u64,
    /// chance, in 1/1000, of handing over the baton at a yield point
    pub switch_pm: u32,
    /// mean simulated nanoseconds one step takes
    pub step_ns: u64,
    pub max_steps: u64,
    /// stop the run when simulated time passes this
    pub max_time_ns: u64,
    /// give each thread its own weight, so that some are slow
    pub skewed: bool,
    /// simulated unix time at start, ns
    pub epoch_ns: i64,
}
impl Default for SchedCfg {
    fn default() -> Self {
        SchedCfg {
            seed: 1,
            switch_pm: 300,
            step_ns: 2000,
            max_steps: 5_000_000,
            max_time_ns: 24 * 3600 * 1_000_000_000,
            skewed: false,
            epoch_ns: 1_700_000_000_000_000_000,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Abnormal {
    Deadlock(String),
    StepBudget(String),
    TimeBudget(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub timers: u64,
}

struct Core {
    cfg: SchedCfg,
    rng: Rng,
    entropy_seed: Rng,
    now: u64,
    threads: Vec<Th>,
    runnable: Vec<Tid>,
    cur: Tid,
    timers: BTreeMap<(u64, u64), Timer>,
    timer_seq: u64,
    waiters: HashMap<usize, Vec<Tid>>,
    skew_ns: HashMap<u32, i64>,
    dead_nodes: Vec<u32>,
    stats: Stats,
    on_abnormal: fn(Abnormal),
    trace: Vec<String>,
    trace_on: bool,
    notes: BTreeMap<String, u64>,
}

static CORE: Mutex<Option<Core>> = Mutex::new(None);

fn core() -> MutexGuard<'static, Option<Core>> {
    match CORE.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

#[inline]
pub fn in_sim() -> bool {
    ACTIVE.load(Ordering::Relaxed) && TID.with(|t| t.get()) != NONE
}
#[inline]
pub fn tid() -> Tid {
    TID.with(|t| t.get())
}

/// Runs `f` as the first simulated thread of this process. May be used once per process.
pub fn run<R: Send + 'static>(
    cfg: SchedCfg,
    on_abnormal: fn(Abnormal),
    f: impl FnOnce() -> R + Send + 'static,
) -> R {
    let mut rng = Rng::new(cfg.seed ^ 0x5eed_5c4e_d000_0001);
    let entropy_seed = rng.split();
    {
        let mut g = core();
        assert!(g.is_none(), "one simulation per process");
        *g = Some(Core {
            rng,
            entropy_seed,
            now: 1_000_000_000,
            threads: vec![],
            runnable: vec![],
            cur: NONE,
            timers: BTreeMap::new(),
            timer_seq: 0,
            waiters: HashMap::with_capacity(64),
            skew_ns: HashMap::new(),
            dead_nodes: vec![],
            stats: Stats {
                sched_hash: 0xcbf29ce484222325,
                ..Default::default()
            },
            on_abnormal,
            trace: vec![],
            trace_on: false,
            notes: BTreeMap::new(),
            cfg,
        });
    }
    let out: Arc<Mutex<Option<std::thread::Result<R>>>> = Arc::new(Mutex::new(None));
    let out2 = out.clone();
    let done = Arc::new(Parker(AtomicU32::new(0)));
    let done2 = done.clone();
    let t = spawn_inner("main".into(), 0, Box::new(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        *out2.lock().unwrap() = Some(r);
        // the process is over as far as the simulation goes: nobody else gets the baton
        ACTIVE.store(false, Ordering::SeqCst);
        done2.signal();
        loop {
            std::thread::park();
        }
    }));
    ACTIVE.store(true, Ordering::SeqCst);
    let p = {
        let mut g = core();
        let c = g.as_mut().unwrap();
        c.cur = t;
        c.threads[t].parker.clone()
    };
    p.signal();
    done.wait();
    let r = out.lock().unwrap().take().unwrap();
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn spawn_inner(name: String, node: u32, f: Box<dyn FnOnce() + Send>) -> Tid {
    let parker = Arc::new(Parker(AtomicU32::new(0)));
    let tid = {
        let mut g = core();
        let c = g.as_mut().unwrap();
        let tid = c.threads.len();
        let weight = if c.cfg.skewed {
            [1, 2, 4, 8, 16, 64][c.rng.below(6) as usize]
        } else {
            8
        };
        let entropy = c.entropy_seed.split();
        c.threads.push(Th {
            parker: parker.clone(),
            st: St::Run,
            node,
            name: name.clone(),
            token: false,
            why: "",
            key: 0,
            weight,
            entropy,
            joiners: vec![],
            epoch: 0,
        });
        c.stats.threads += 1;
        c.runnable.push(tid);
        tid
    };
    let was = NOYIELD.with(|n| n.replace(1));
    // the system may be short of threads for a moment
    let body = Arc::new(std::sync::Mutex::new(Some((parker, f))));
    let mut tries = 0;
    loop {
        let body = body.clone();
        let r = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let (parker, f) = body.lock().unwrap().take().unwrap();
            parker.wait();
            TID.with(|t| t.set(tid));
            // the keys of this thread's hash maps, before any lock of ours is held
            let _ = std::hash::RandomState::new();
            f();
            finish_current();
        });
        match r {
            Ok(_) => break,
            Err(e) if tries == 200 => panic!("cannot create a thread: {e}"),
            Err(_) => {
                tries += 1;
                unsafe { libc::poll(std::ptr::null_mut(), 0, 25) };
            }
        }
    }
    NOYIELD.with(|n| n.set(was));
    tid
}

/// Spawns a simulated thread on the node of the caller.
pub fn spawn(name: &str, f: impl FnOnce() + Send + 'static) -> Tid {
    let node = current_node();
    spawn_on(name, node, f)
}
pub fn spawn_on(name: &str, node: u32, f: impl FnOnce() + Send + 'static) -> Tid {
    let t = spawn_inner(name.to_string(), node, Box::new(f));
    yield_point();
    t
}

fn finish_current() -> ! {
    let me = tid();
    {
        let mut g = core();
        let c = g.as_mut().unwrap();
        c.threads[me].st = St::Done;
        c.runnable.retain(|t| *t != me);
        let js = std::mem::take(&mut c.threads[me].joiners);
        for j in js {
            c.make_runnable(j);
        }
        TID.with(|t| t.set(NONE));
        hand_over(g, me, false);
    }
    loop {
        std::thread::park();
    }
}

pub fn join(t: Tid) {
    loop {
        let mut g = core();
        let c = g.as_mut().unwrap();
        if c.threads[t].st == St::Done {
            return;
        }
        let me = tid();
        c.threads[t].joiners.push(me);
        c.block(me, "join", 0);
        hand_over(g, me, true);
    }
}
pub fn is_finished(t: Tid) -> bool {
    core().as_ref().unwrap().threads[t].st == St::Done
}

impl Core {
    fn make_runnable(&mut self, t: Tid) {
        let th = &mut self.threads[t];
        if th.st == St::Park {
            th.st = St::Run;
            th.epoch += 1;
            th.why = "";
            self.runnable.push(t);
        }
    }
    fn block(&mut self, me: Tid, why: &'static str, key: usize) {
        let th = &mut self.threads[me];
        if th.st == St::Run {
            th.st = St::Park;
            th.why = why;
            th.key = key;
            self.runnable.retain(|t| *t != me);
        }
    }
    fn mix(&mut self, v: u64) {
        self.stats.sched_hash = (self.stats.sched_hash ^ v).wrapping_mul(0x100000001b3);
    }
    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if t.st == St::Park || t.st == St::Run {
                s.push_str(&format!("[{} {} node{} {:?} {}] ", i, t.name, t.node, t.st, t.why));
            }
        }
        s
    }
}

/// Picks who runs next and gives them the baton. With `back`, returns when the
/// caller gets it back; otherwise returns at once and the caller must not touch
/// simulated state again.
fn hand_over(mut g: MutexGuard<'static, Option<Core>>, me: Tid, back: bool) {
    loop {
        let c = g.as_mut().unwrap();
        c.stats.steps += 1;
        let tick = 1 + c.rng.below(c.cfg.step_ns * 2);
        c.now += tick;
        if c.stats.steps > c.cfg.max_steps {
            let d = c.describe();
            let f = c.on_abnormal;
            drop(g);
            f(Abnormal::StepBudget(d));
            unreachable!();
        }
        if c.now > c.cfg.max_time_ns {
            let d = c.describe();
            let f = c.on_abnormal;
            drop(g);
            f(Abnormal::TimeBudget(d));
            unreachable!();
        }
        // fire what is due; when nobody can run, move the clock to the next timer
        loop {
            let c = g.as_mut().unwrap();
            let Some((&(at, seq), _)) = c.timers.iter().next() else {
                break;
            };
            if at > c.now {
                if c.runnable.is_empty() {
                    c.now = at;
                } else {
                    break;
                }
            }
            let t = c.timers.remove(&(at, seq)).unwrap();
            c.stats.timers += 1;
            match t {
                Timer::Unpark(t, ep) => {
                    if c.threads[t].epoch == ep {
                        c.make_runnable(t);
                    }
                }
                Timer::Wake(w) => {
                    drop(g);
                    nested(|| w.wake());
                    g = core();
                }
                Timer::Call(f) => {
                    drop(g);
                    nested(f);
                    g = core();
                }
            }
        }
        let c = g.as_mut().unwrap();
        if c.runnable.is_empty() {
            let d = c.describe();
            let f = c.on_abnormal;
            drop(g);
            f(Abnormal::Deadlock(d));
            unreachable!();
        }
        let next = if c.cfg.skewed {
            let total: u64 = c.runnable.iter().map(|t| c.threads[*t].weight as u64).sum();
            let mut k = c.rng.below(total);
            let mut pick = c.runnable[0];
            for t in &c.runnable {
                let w = c.threads[*t].weight as u64;
                if k < w {
                    pick = *t;
                    break;
                }
                k -= w;
            }
            pick
        } else {
            c.runnable[c.rng.below(c.runnable.len() as u64) as usize]
        };
        c.mix(next as u64 + 1);
        c.stats.sim_ns = c.now;
        if next == me && back {
            c.cur = me;
            return;
        }
        c.stats.switches += 1;
        c.cur = next;
        let p = c.threads[next].parker.clone();
        let mine = if me != NONE { Some(c.threads[me].parker.clone()) } else { None };
        drop(g);
        p.signal();
        if back {
            mine.unwrap().wait();
        }
        return;
    }
}

/// Runs `f` while yield points inside it do nothing (it runs on behalf of the scheduler).
pub fn nested<R>(f: impl FnOnce() -> R) -> R {
    let was = NOYIELD.with(|n| n.replace(n.get() + 1));
    let r = f();
    NOYIELD.with(|n| n.set(was));
    r
}

/// A point where another thread may be given the baton.
#[inline]
pub fn yield_point() {
    if !in_sim() || NOYIELD.with(|n| n.get()) > 0 {
        return;
    }
    let mut g = core();
    let me = tid();
    let c = g.as_mut().unwrap();
    if c.threads[me].st == St::Dead {
        // killed while running: never comes back
        hand_over(g, me, true);
        unreachable!("a dead thread ran");
    }
    let pm = c.cfg.switch_pm;
    if c.rng.below(1000) < pm as u64 {
        hand_over(g, me, true);
    } else {
        c.stats.steps += 1;
        if c.stats.steps > c.cfg.max_steps {
            hand_over(g, me, true);
        }
    }
}

/// Always lets the scheduler choose again.
pub fn yield_now() {
    if !in_sim() || NOYIELD.with(|n| n.get()) > 0 {
        return;
    }
    let g = core();
    hand_over(g, tid(), true);
}

/// Blocks until `unpark(me)` or the deadline. A token left by an earlier unpark is consumed.
pub fn park(why: &'static str, deadline: Option<u64>) {
    let me = tid();
    assert!(me != NONE, "park outside the simulation");
    assert!(NOYIELD.with(|n| n.get()) == 0, "park inside the scheduler: {why}");
    let mut g = core();
    let c = g.as_mut().unwrap();
    if c.threads[me].token {
        c.threads[me].token = false;
        return;
    }
    c.block(me, why, 0);
    if let Some(d) = deadline {
        let ep = c.threads[me].epoch;
        c.timer_seq += 1;
        let s = c.timer_seq;
        c.timers.insert((d, s), Timer::Unpark(me, ep));
    }
    hand_over(g, me, true);
    let mut g = core();
    g.as_mut().unwrap().threads[me].token = false;
}
pub fn unpark(t: Tid) {
    let mut g = core();
    if let Some(c) = g.as_mut() {
        c.threads[t].token = true;
        c.make_runnable(t);
    }
}

/// Blocks until somebody calls `wake_key` with the same key.
pub fn wait_key(key: usize, why: &'static str) {
    let me = tid();
    assert!(me != NONE, "would block outside the simulation: {why}");
    if NOYIELD.with(|n| n.get()) > 0 {
        panic!("would block inside the scheduler: {why}");
    }
    let mut g = core();
    let c = g.as_mut().unwrap();
    c.waiters.entry(key).or_default().push(me);
    c.block(me, why, key);
    hand_over(g, me, true);
}
pub fn wait_key_until(key: usize, why: &'static str, deadline: u64) {
    let me = tid();
    let mut g = core();
    let c = g.as_mut().unwrap();
    c.waiters.entry(key).or_default().push(me);
    c.block(me, why, key);
    let ep = c.threads[me].epoch;
    c.timer_seq += 1;
    let s = c.timer_seq;
    c.timers.insert((deadline, s), Timer::Unpark(me, ep));
    hand_over(g, me, true);
    let mut g = core();
    let c = g.as_mut().unwrap();
    if let Some(v) = c.waiters.get_mut(&key) {
        v.retain(|t| *t != me);
    }
}
pub fn wake_key(key: usize) {
    if !ACTIVE.load(Ordering::Relaxed) {
        return;
    }
    let mut g = core();
    if let Some(c) = g.as_mut() {
        if let Some(v) = c.waiters.remove(&key) {
            for t in v {
                c.make_runnable(t);
            }
        }
    }
}
pub fn wake_one_key(key: usize) {
    if !ACTIVE.load(Ordering::Relaxed) {
        return;
    }
    let mut g = core();
    if let Some(c) = g.as_mut() {
        let mut pick = None;
        if let Some(v) = c.waiters.get_mut(&key) {
            if !v.is_empty() {
                let k = c.rng.below(v.len() as u64) as usize;
                pick = Some(v.remove(k));
            }
        }
        if let Some(t) = pick {
            c.make_runnable(t);
        }
    }
}

// ---------------------------------------------------------------- time
/// Simulated monotonic time in ns.
pub fn now() -> u64 {
    core().as_ref().map(|c| c.now).unwrap_or(0)
}
/// Simulated wall clock (unix ns) as seen by a node.
pub fn wall_ns(node: u32) -> i64 {
    let g = core();
    let c = g.as_ref().unwrap();
    c.cfg.epoch_ns + c.now as i64 + c.skew_ns.get(&node).copied().unwrap_or(0)
}
pub fn set_skew(node: u32, ns: i64) {
    core().as_mut().unwrap().skew_ns.insert(node, ns);
}
/// Lets simulated time pass at once (a stalled machine).
pub fn advance(ns: u64) {
    core().as_mut().unwrap().now += ns;
}
pub fn sleep(ns: u64) {
    let d = now() + ns;
    while now() < d {
        let me = tid();
        let mut g = core();
        let c = g.as_mut().unwrap();
        c.block(me, "sleep", 0);
        let ep = c.threads[me].epoch;
        c.timer_seq += 1;
        let s = c.timer_seq;
        c.timers.insert((d, s), Timer::Unpark(me, ep));
        hand_over(g, me, true);
    }
}
pub type TimerId = (u64, u64);
pub fn timer_wake(at: u64, w: Waker) -> TimerId {
    let mut g = core();
    let c = g.as_mut().unwrap();
    c.timer_seq += 1;
    let id = (at, c.timer_seq);
    c.timers.insert(id, Timer::Wake(w));
    id
}
pub fn timer_call(at: u64, f: impl FnOnce() + Send + 'static) -> TimerId {
    let mut g = core();
    let c = g.as_mut().unwrap();
    c.timer_seq += 1;
    let id = (at, c.timer_seq);
    c.timers.insert(id, Timer::Call(Box::new(f)));
    id
}
pub fn timer_cancel(id: TimerId) {
    let mut g = core();
    let t = g.as_mut().and_then(|c| c.timers.remove(&id));
    drop(g);
    drop(t);
}

// ---------------------------------------------------------------- nodes
pub fn current_node() -> u32 {
    let me = tid();
    if me == NONE {
        return 0;
    }
    core().as_ref().map(|c| c.threads[me].node).unwrap_or(0)
}
/// Kills every thread of a node where it stands. Does not return when the caller is one of them.
pub fn kill_node(node: u32) {
    let me = tid();
    let mut g = core();
    let c = g.as_mut().unwrap();
    let mut mine = false;
    for t in 0..c.threads.len() {
        if c.threads[t].node == node && c.threads[t].st != St::Done {
            c.threads[t].st = St::Dead;
            if t == me {
                mine = true;
            }
        }
    }
    let dead: Vec<Tid> = c.runnable.iter().copied().filter(|t| c.threads[*t].st == St::Dead).collect();
    c.runnable.retain(|t| !dead.contains(t));
    if !c.dead_nodes.contains(&node) {
        c.dead_nodes.push(node);
    }
    if mine {
        hand_over(g, me, true);
        unreachable!("a dead thread ran");
    }
}
pub fn node_dead(node: u32) -> bool {
    core().as_ref().map(|c| c.dead_nodes.contains(&node)).unwrap_or(false)
}
/// Freezes a node's threads (a stalled process), or lets them go on.
pub fn live_threads() -> usize {
    core().as_ref().unwrap().threads.iter().filter(|t| t.st == St::Run || t.st == St::Park).count()
}

// ---------------------------------------------------------------- randomness
/// A choice of the scheduler's generator, below n.
pub fn choose(n: u64) -> u64 {
    let mut g = core();
    match g.as_mut() {
        Some(c) => {
            let v = c.rng.below(n);
            c.mix(v ^ 0xabcd);
            v
        }
        None => 0,
    }
}
/// Bytes for code under test that asks the system for randomness.
pub fn entropy(buf: &mut [u8]) {
    let me = tid();
    if me != NONE {
        let mut g = core();
        if let Some(c) = g.as_mut() {
            c.threads[me].entropy.fill(buf);
            return;
        }
    }
    // outside: a fixed stream, so that set-up is repeatable too
    static OUT: Mutex<Option<Rng>> = Mutex::new(None);
    let mut o = OUT.lock().unwrap_or_else(|e| e.into_inner());
    o.get_or_insert_with(|| Rng::new(0x0ddba11)).fill(buf);
}

// ---------------------------------------------------------------- trace and counters
pub fn trace_enable(on: bool) {
    if let Some(c) = core().as_mut() {
        c.trace_on = on;
    }
}
pub fn trace(f: impl FnOnce() -> String) {
    let mut g = core();
    if let Some(c) = g.as_mut() {
        if c.trace_on {
            let s = f();
            let line = format!("{:>12.6} t{} {}", c.now as f64 / 1e9, c.cur, s);
            c.trace.push(line);
        }
    }
}
pub fn take_trace() -> Vec<String> {
    core().as_mut().map(|c| std::mem::take(&mut c.trace)).unwrap_or_default()
}
/// Counts a fault or a rare condition that was really reached.
pub fn note(k: &str) {
    if let Some(c) = core().as_mut() {
        *c.notes.entry(k.to_string()).or_default() += 1;
    }
}
pub fn notes() -> BTreeMap<String, u64> {
    core().as_ref().map(|c| c.notes.clone()).unwrap_or_default()
}
pub fn stats() -> Stats {
    core().as_ref().map(|c| c.stats.clone()).unwrap_or_default()
}
/// Mixes an observable event into the hash that identifies the execution.
pub fn observe(v: u64) {
    if let Some(c) = core().as_mut() {
        c.mix(v);
    }
}
pub fn describe() -> String {
    core().as_ref().map(|c| c.describe()).unwrap_or_default()
}
pub fn set_switch_pm(pm: u32) {
    if let Some(c) = core().as_mut() {
        c.cfg.switch_pm = pm;
    }
}
