use std::any::Any;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use crate::runtime::{lk, Handle};
pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    crate::runtime::block_in_place(f)
}

type PanicBox = Box<dyn Any + Send + 'static>;
enum Repr {
    Cancelled,
    Panic(Mutex<PanicBox>),
}
pub struct JoinError(Repr);
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        matches!(self.0, Repr::Cancelled)
    }
    pub fn is_panic(&self) -> bool {
        matches!(self.0, Repr::Panic(_))
    }
    pub fn into_panic(self) -> PanicBox {
        self.try_into_panic().expect("`JoinError` reason is not a panic.")
    }
    pub fn try_into_panic(self) -> Result<PanicBox, JoinError> {
        match self.0 {
            Repr::Panic(p) => Ok(p.into_inner().unwrap_or_else(|e| e.into_inner())),
            _ => Err(self),
        }
    }
}
fn pmsg(p: &PanicBox) -> Option<&str> {
    p.downcast_ref::<String>().map(|s| s.as_str()).or_else(|| p.downcast_ref::<&'static str>().copied())
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.0 {
            Repr::Cancelled => write!(f, "task was cancelled"),
            Repr::Panic(p) => match pmsg(&lk(p)) {
                Some(s) => write!(f, "task panicked with message {s:?}"),
                None => write!(f, "task panicked"),
            },
        }
    }
}
impl std::fmt::Debug for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.0 {
            Repr::Cancelled => write!(f, "JoinError::Cancelled"),
            Repr::Panic(p) => write!(f, "JoinError::Panic({:?})", pmsg(&lk(p))),
        }
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
    }
}

const IDLE: u8 = 0;
const QUEUED: u8 = 1;
const RUNNING: u8 = 2;
const NOTIFIED: u8 = 3;
const DONE: u8 = 4;

static NEXT: AtomicU64 = AtomicU64::new(1);

pub(crate) struct Task {
    h: Handle,
    st: AtomicU8,
    abort: AtomicBool,
    fut: Mutex<Option<Pin<Box<dyn Future<Output = ()> + Send>>>>,
    /// called when the task ends without an output of its own
    fail: Box<dyn Fn(JoinError) + Send + Sync>,
}
impl Wake for Task {
    fn wake(self: Arc<Self>) {
        self.schedule()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.schedule()
    }
}
impl Task {
    pub(crate) fn new<F>(h: Handle, f: F) -> (Arc<Task>, JoinHandle<F::Output>)
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let out = Arc::new(Out::<F::Output>::default());
        let (o1, o2) = (out.clone(), out.clone());
        let t = Arc::new(Task {
            h,
            st: AtomicU8::new(IDLE),
            abort: AtomicBool::new(false),
            fut: Mutex::new(Some(Box::pin(async move {
                let v = f.await;
                o1.set(Ok(v));
            }))),
            fail: Box::new(move |e| o2.set(Err(e))),
        });
        let j = JoinHandle {
            out,
            task: Some(t.clone()),
            id: Id(NEXT.fetch_add(1, Ordering::Relaxed)),
        };
        (t, j)
    }
    pub(crate) fn blocking<F, R>(_h: Handle, f: F) -> (Box<dyn FnOnce() + Send>, JoinHandle<R>)
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        let out = Arc::new(Out::<R>::default());
        struct OnDrop<R: Send>(Arc<Out<R>>, bool);
        impl<R: Send> Drop for OnDrop<R> {
            fn drop(&mut self) {
                if !self.1 {
                    self.0.set(Err(JoinError(Repr::Cancelled)));
                }
            }
        }
        let mut guard = OnDrop(out.clone(), false);
        let job: Box<dyn FnOnce() + Send> = Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            guard.1 = true;
            guard.0.set(r.map_err(|p| JoinError(Repr::Panic(Mutex::new(p)))));
        });
        (job, JoinHandle { out, task: None, id: Id(NEXT.fetch_add(1, Ordering::Relaxed)) })
    }
    pub(crate) fn schedule(self: &Arc<Self>) {
        match self.st.load(Ordering::Relaxed) {
            IDLE => {
                self.st.store(QUEUED, Ordering::Relaxed);
                self.h.0.push(self.clone());
            }
            RUNNING => self.st.store(NOTIFIED, Ordering::Relaxed),
            _ => {}
        }
    }
    pub(crate) fn run(self: &Arc<Self>) {
        if self.st.load(Ordering::Relaxed) == DONE {
            return;
        }
        if self.abort.load(Ordering::Relaxed) {
            self.cancel();
            return;
        }
        self.st.store(RUNNING, Ordering::Relaxed);
        let Some(mut f) = lk(&self.fut).take() else { return };
        let w: Waker = self.clone().into();
        let mut cx = Context::from_waker(&w);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(&mut cx)));
        match r {
            Ok(Poll::Ready(())) => {
                self.st.store(DONE, Ordering::Relaxed);
                drop(f);
            }
            Ok(Poll::Pending) => {
                *lk(&self.fut) = Some(f);
                let again = self.st.load(Ordering::Relaxed) == NOTIFIED;
                self.st.store(IDLE, Ordering::Relaxed);
                if self.abort.load(Ordering::Relaxed) {
                    self.cancel();
                } else if again {
                    self.schedule();
                }
            }
            Err(p) => {
                self.st.store(DONE, Ordering::Relaxed);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(f)));
                (self.fail)(JoinError(Repr::Panic(Mutex::new(p))));
            }
        }
    }
    /// Drops the future, unless it is being polled.
    pub(crate) fn cancel(self: &Arc<Self>) {
        let f = lk(&self.fut).take();
        if let Some(f) = f {
            self.st.store(DONE, Ordering::Relaxed);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(f)));
            (self.fail)(JoinError(Repr::Cancelled));
        }
    }
    fn abort(self: &Arc<Self>) {
        self.abort.store(true, Ordering::Relaxed);
        self.schedule();
    }
}

struct OutS<T> {
    v: Option<Result<T, JoinError>>,
    done: bool,
    w: Option<Waker>,
}
struct Out<T>(Mutex<OutS<T>>);
impl<T> Default for Out<T> {
    fn default() -> Self {
        Out(Mutex::new(OutS { v: None, done: false, w: None }))
    }
}
impl<T> Out<T> {
    fn set(&self, v: Result<T, JoinError>) {
        let w = {
            let mut g = lk(&self.0);
            if g.done {
                return;
            }
            g.done = true;
            g.v = Some(v);
            g.w.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Id(u64);
impl std::fmt::Display for Id {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

pub struct JoinHandle<T> {
    out: Arc<Out<T>>,
    task: Option<Arc<Task>>,
    id: Id,
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        if let Some(t) = &self.task {
            t.abort();
        }
    }
    pub fn is_finished(&self) -> bool {
        lk(&self.out.0).done
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { task: self.task.clone(), id: self.id }
    }
    pub fn id(&self) -> Id {
        self.id
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = lk(&self.out.0);
        match g.v.take() {
            Some(v) => Poll::Ready(v),
            None => {
                assert!(!g.done, "JoinHandle polled after completion");
                g.w = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "JoinHandle {{ id: {} }}", self.id)
    }
}
#[derive(Clone)]
pub struct AbortHandle {
    task: Option<Arc<Task>>,
    id: Id,
}
impl AbortHandle {
    pub fn abort(&self) {
        if let Some(t) = &self.task {
            t.abort();
        }
    }
    pub fn is_finished(&self) -> bool {
        self.task.as_ref().map(|t| t.st.load(Ordering::Relaxed) == DONE).unwrap_or(true)
    }
    pub fn id(&self) -> Id {
        self.id
    }
}
impl std::fmt::Debug for AbortHandle {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "AbortHandle {{ id: {} }}", self.id)
    }
}

#[track_caller]
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    Handle::current().spawn(f)
}
#[track_caller]
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    Handle::current().spawn_blocking(f)
}
pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(|cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

pub struct JoinSet<T> {
    v: Vec<JoinHandle<T>>,
}
impl<T: Send + 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { v: vec![] }
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let j = spawn(f);
        let a = j.abort_handle();
        self.v.push(j);
        a
    }
    pub fn spawn_on<F>(&mut self, f: F, h: &Handle) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let j = h.spawn(f);
        let a = j.abort_handle();
        self.v.push(j);
        a
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.v.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.v.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) {
                self.v.remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub fn abort_all(&mut self) {
        for j in &self.v {
            j.abort();
        }
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub fn detach_all(&mut self) {
        self.v.clear();
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for j in &self.v {
            j.abort();
        }
    }
}
