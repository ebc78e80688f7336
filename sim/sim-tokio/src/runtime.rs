use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex, Weak};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use crate::task::{JoinHandle, Task};

thread_local! {
    static CUR: RefCell<Vec<Handle>> = const { RefCell::new(vec![]) };
}

pub(crate) fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

pub(crate) struct Rt {
    name: String,
    node: u32,
    queue: Mutex<VecDeque<Arc<Task>>>,
    tasks: Mutex<Vec<Weak<Task>>>,
    workers: Mutex<Vec<simrt::Tid>>,
    target: AtomicU32,
    active: AtomicU32,
    stop: AtomicBool,
    idle: Mutex<Vec<Arc<Slot>>>,
    blocking: AtomicU32,
    /// runs tasks only inside block_on
    current_thread: bool,
}
struct Slot {
    tid: Mutex<Option<simrt::Tid>>,
    job: Mutex<Option<Box<dyn FnOnce() + Send>>>,
}
impl Rt {
    fn key(&self) -> usize {
        self as *const Rt as usize
    }
    fn bkey(&self) -> usize {
        self as *const Rt as usize + 1
    }
    pub(crate) fn push(&self, t: Arc<Task>) {
        if self.stop.load(Ordering::Relaxed) {
            return;
        }
        lk(&self.queue).push_back(t);
        simrt::wake_one_key(self.key());
    }
    fn pop(&self) -> Option<Arc<Task>> {
        let mut q = lk(&self.queue);
        let n = q.len();
        if n == 0 {
            return None;
        }
        // mostly in order, sometimes not: any order is one the real scheduler can produce
        let k = if n > 1 && simrt::choose(3) == 0 { simrt::choose(n as u64) as usize } else { 0 };
        q.remove(k)
    }
    fn register(&self, t: &Arc<Task>) {
        let mut v = lk(&self.tasks);
        if v.len() > 64 && v.len().is_power_of_two() {
            v.retain(|w| w.strong_count() > 0);
        }
        v.push(Arc::downgrade(t));
    }
}

fn worker(h: Handle) {
    let _g = h.enter();
    let rt = h.0;
    loop {
        if rt.stop.load(Ordering::Relaxed) || rt.active.load(Ordering::Relaxed) > rt.target.load(Ordering::Relaxed) {
            break;
        }
        match rt.pop() {
            Some(t) => {
                t.run();
                simrt::yield_point();
            }
            None => simrt::wait_key(rt.key(), "idle worker"),
        }
    }
    rt.active.fetch_sub(1, Ordering::Relaxed);
    simrt::wake_key(rt.bkey());
}
fn add_worker(h: &Handle) {
    let i = h.0.active.fetch_add(1, Ordering::Relaxed);
    let h2 = h.clone();
    let t = simrt::spawn_on(&format!("{}-{}", h.0.name, i), h.0.node, move || worker(h2));
    lk(&h.0.workers).push(t);
}

#[derive(Clone)]
pub struct Handle(pub(crate) Arc<Rt>);
impl std::fmt::Debug for Handle {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Handle({})", self.0.name)
    }
}
#[derive(Debug)]
pub struct TryCurrentError(());
impl TryCurrentError {
    pub fn is_missing_context(&self) -> bool {
        true
    }
}
impl std::fmt::Display for TryCurrentError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "there is no reactor running")
    }
}
impl std::error::Error for TryCurrentError {}

pub struct EnterGuard<'a>(std::marker::PhantomData<&'a ()>);
impl Drop for EnterGuard<'_> {
    fn drop(&mut self) {
        CUR.with(|c| {
            c.borrow_mut().pop();
        });
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RuntimeFlavor {
    CurrentThread,
    MultiThread,
}
impl Handle {
    #[track_caller]
    pub fn current() -> Handle {
        Self::try_current().expect("there is no reactor running, must be called from the context of a Tokio 1.x runtime")
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        CUR.with(|c| c.borrow().last().cloned()).ok_or(TryCurrentError(()))
    }
    pub fn enter(&self) -> EnterGuard<'static> {
        CUR.with(|c| c.borrow_mut().push(self.clone()));
        EnterGuard(std::marker::PhantomData)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let (t, j) = Task::new(self.clone(), f);
        self.0.register(&t);
        if self.0.stop.load(Ordering::Relaxed) {
            t.cancel();
        } else {
            t.schedule();
        }
        simrt::yield_point();
        j
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        let (job, j) = Task::blocking(self.clone(), f);
        if self.0.stop.load(Ordering::Relaxed) {
            drop(job);
            return j;
        }
        self.run_blocking(job);
        simrt::yield_point();
        j
    }
    pub(crate) fn run_blocking(&self, job: Box<dyn FnOnce() + Send>) {
        self.0.blocking.fetch_add(1, Ordering::Relaxed);
        let free = lk(&self.0.idle).pop();
        match free {
            Some(s) => {
                *lk(&s.job) = Some(job);
                let t = lk(&s.tid).unwrap();
                simrt::unpark(t);
            }
            None => {
                let s = Arc::new(Slot {
                    tid: Mutex::new(None),
                    job: Mutex::new(Some(job)),
                });
                let h = self.clone();
                let s2 = s.clone();
                let _ = simrt::nested(|| {
                    simrt::spawn_on(&format!("{}-blocking", self.0.name), self.0.node, move || {
                        let _g = h.enter();
                        *lk(&s2.tid) = Some(simrt::tid());
                        loop {
                            let job = lk(&s2.job).take();
                            match job {
                                Some(j) => {
                                    j();
                                    h.0.blocking.fetch_sub(1, Ordering::Relaxed);
                                    simrt::wake_key(h.0.bkey());
                                    lk(&h.0.idle).push(s2.clone());
                                }
                                None => simrt::park("idle blocking thread", None),
                            }
                        }
                    })
                });
            }
        }
    }
    #[track_caller]
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        let _g = self.enter();
        block_on(f)
    }
    pub fn runtime_flavor(&self) -> RuntimeFlavor {
        if self.0.current_thread {
            RuntimeFlavor::CurrentThread
        } else {
            RuntimeFlavor::MultiThread
        }
    }
}

struct ThreadWaker(simrt::Tid);
impl Wake for ThreadWaker {
    fn wake(self: Arc<Self>) {
        simrt::unpark(self.0);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        simrt::unpark(self.0);
    }
}
pub(crate) fn block_on<F: Future>(f: F) -> F::Output {
    let w: Waker = Arc::new(ThreadWaker(simrt::tid())).into();
    let mut cx = Context::from_waker(&w);
    let mut f = std::pin::pin!(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        simrt::park("block_on", None);
    }
}
/// Lets other tasks of the runtime go on while this thread blocks.
pub(crate) fn block_in_place<R>(f: impl FnOnce() -> R) -> R {
    match Handle::try_current() {
        Ok(h) if !h.0.current_thread && lk(&h.0.workers).contains(&simrt::tid()) => {
            h.0.target.fetch_add(1, Ordering::Relaxed);
            add_worker(&h);
            let r = f();
            h.0.target.fetch_sub(1, Ordering::Relaxed);
            // one idle worker goes away
            simrt::wake_key(h.0.key());
            r
        }
        _ => f(),
    }
}

pub struct Builder {
    workers: u32,
    name: String,
    current_thread: bool,
}
impl Builder {
    pub fn new_multi_thread() -> Self {
        Builder { workers: 2, name: "tokio-worker".into(), current_thread: false }
    }
    pub fn new_current_thread() -> Self {
        Builder { workers: 1, name: "tokio-current".into(), current_thread: true }
    }
    pub fn worker_threads(&mut self, n: usize) -> &mut Self {
        assert!(n > 0, "Worker threads cannot be set to 0");
        self.workers = (n as u32).min(3);
        self
    }
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, n: impl Into<String>) -> &mut Self {
        self.name = n.into();
        self
    }
    pub fn thread_name_fn<F: Fn() -> String + Send + Sync + 'static>(&mut self, f: F) -> &mut Self {
        self.name = f();
        self
    }
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_keep_alive(&mut self, _: Duration) -> &mut Self {
        self
    }
    pub fn on_thread_start<F: Fn() + Send + Sync + 'static>(&mut self, _: F) -> &mut Self {
        self
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> std::io::Result<Runtime> {
        let h = Handle(Arc::new(Rt {
            name: self.name.clone(),
            node: simrt::current_node(),
            queue: Default::default(),
            tasks: Default::default(),
            workers: Default::default(),
            target: AtomicU32::new(self.workers),
            active: AtomicU32::new(0),
            stop: AtomicBool::new(false),
            idle: Default::default(),
            blocking: AtomicU32::new(0),
            // a worker thread stands in for the driver of a current-thread runtime
            current_thread: self.current_thread,
        }));
        for _ in 0..self.workers {
            add_worker(&h);
        }
        Ok(Runtime { h })
    }
}

#[derive(Debug)]
pub struct Runtime {
    h: Handle,
}
impl Runtime {
    pub fn new() -> std::io::Result<Runtime> {
        Builder::new_multi_thread().enable_all().build()
    }
    pub fn handle(&self) -> &Handle {
        &self.h
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        self.h.spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        self.h.spawn_blocking(f)
    }
    #[track_caller]
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        self.h.block_on(f)
    }
    pub fn enter(&self) -> EnterGuard<'static> {
        self.h.enter()
    }
    pub fn shutdown_background(self) {
        self.stop(Some(Duration::ZERO));
    }
    pub fn shutdown_timeout(self, d: Duration) {
        self.stop(Some(d));
    }
    fn stop(&self, limit: Option<Duration>) {
        let rt = &self.h.0;
        if rt.stop.swap(true, Ordering::Relaxed) || !simrt::in_sim() {
            return;
        }
        simrt::wake_key(rt.key());
        let deadline = limit.map(|d| simrt::now().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64));
        let me = simrt::tid();
        let mine = lk(&rt.workers).contains(&me);
        let wait = |n: &dyn Fn() -> bool| loop {
            if n() {
                return;
            }
            match deadline {
                Some(d) if simrt::now() >= d => return,
                Some(d) => simrt::wait_key_until(rt.bkey(), "runtime shutdown", d),
                None => simrt::wait_key(rt.bkey(), "runtime shutdown"),
            }
        };
        let left = if mine { 1 } else { 0 };
        wait(&|| rt.active.load(Ordering::Relaxed) <= left);
        lk(&rt.queue).clear();
        let tasks: Vec<_> = lk(&rt.tasks).drain(..).collect();
        for t in tasks {
            if let Some(t) = t.upgrade() {
                t.cancel();
            }
        }
        wait(&|| rt.blocking.load(Ordering::Relaxed) == 0);
    }
}
impl Drop for Runtime {
    fn drop(&mut self) {
        if std::thread::panicking() {
            self.stop(Some(Duration::ZERO));
        } else {
            self.stop(None);
        }
    }
}
