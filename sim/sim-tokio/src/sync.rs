//! tokio's own primitives. Taking a lock is a point where another thread may run.
pub use real_tokio::sync::*;
use std::fmt;
use std::future::Future;
use std::panic::Location;
use std::sync::Arc;

/// Where tasks wait for a lock: (kept only while SIMTOKIO_WAITS is set) for looking at a hang.
static WAITS: std::sync::Mutex<std::collections::BTreeMap<u64, &'static Location<'static>>> =
    std::sync::Mutex::new(std::collections::BTreeMap::new());
static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn kept() -> bool {
    static K: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *K.get_or_init(|| std::env::var("SIMTOKIO_WAITS").is_ok())
}
struct Wait(Option<u64>);
impl Wait {
    fn new(l: &'static Location<'static>) -> Wait {
        Wait(kept().then(|| {
            let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            WAITS.lock().unwrap().insert(n, l);
            n
        }))
    }
}
impl Drop for Wait {
    fn drop(&mut self) {
        if let Some(n) = self.0 {
            WAITS.lock().unwrap().remove(&n);
        }
    }
}
pub fn waiting() -> Vec<String> {
    WAITS.lock().unwrap().values().map(|l| l.to_string()).collect()
}

pub struct Mutex<T: ?Sized>(real_tokio::sync::Mutex<T>);
impl<T> Mutex<T> {
    pub fn new(t: T) -> Self {
        Mutex(real_tokio::sync::Mutex::new(t))
    }
    pub fn const_new(t: T) -> Self {
        Mutex(real_tokio::sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    #[track_caller]
    pub fn lock(&self) -> impl Future<Output = MutexGuard<'_, T>> {
        let l = Location::caller();
        async move {
            let _w = Wait::new(l);
            simrt::yield_point();
            self.0.lock().await
        }
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        simrt::yield_point();
        self.0.try_lock()
    }
    pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
        crate::runtime::block_on(self.lock())
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
}
impl<T: fmt::Debug + ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

pub struct RwLock<T: ?Sized>(real_tokio::sync::RwLock<T>);
/// Keeps the lock alive for as long as the guard.
pub struct OwnedRwLockReadGuard<T: ?Sized + 'static> {
    guard: std::mem::ManuallyDrop<RwLockReadGuard<'static, T>>,
    _lock: Arc<RwLock<T>>,
}
impl<T: ?Sized> Drop for OwnedRwLockReadGuard<T> {
    fn drop(&mut self) {
        unsafe { std::mem::ManuallyDrop::drop(&mut self.guard) }
    }
}
impl<T: ?Sized> std::ops::Deref for OwnedRwLockReadGuard<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.guard
    }
}
impl<T> RwLock<T> {
    pub fn new(t: T) -> Self {
        RwLock(real_tokio::sync::RwLock::new(t))
    }
    pub fn const_new(t: T) -> Self {
        RwLock(real_tokio::sync::RwLock::new(t))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    #[track_caller]
    pub fn read(&self) -> impl Future<Output = RwLockReadGuard<'_, T>> {
        let l = Location::caller();
        async move {
            let _w = Wait::new(l);
            simrt::yield_point();
            self.0.read().await
        }
    }
    #[track_caller]
    pub fn write(&self) -> impl Future<Output = RwLockWriteGuard<'_, T>> {
        let l = Location::caller();
        async move {
            let _w = Wait::new(l);
            simrt::yield_point();
            self.0.write().await
        }
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        simrt::yield_point();
        self.0.try_read()
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        simrt::yield_point();
        self.0.try_write()
    }
    pub fn blocking_read(&self) -> RwLockReadGuard<'_, T> {
        crate::runtime::block_on(self.read())
    }
    pub fn blocking_write(&self) -> RwLockWriteGuard<'_, T> {
        crate::runtime::block_on(self.write())
    }
    pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T>
    where
        T: 'static,
    {
        let guard = unsafe { std::mem::transmute::<RwLockReadGuard<'_, T>, RwLockReadGuard<'static, T>>(self.read().await) };
        OwnedRwLockReadGuard { guard: std::mem::ManuallyDrop::new(guard), _lock: self.clone() }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
}
impl<T: fmt::Debug + ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
