//! parking_lot's interface over the simulator's scheduler: every acquisition and
//! release is a scheduling point, and contention hands over the baton.
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub use lock_api;

const R: Ordering = Ordering::SeqCst;

#[inline]
fn block(key: usize, why: &'static str) {
    if simrt::in_sim() {
        simrt::wait_key(key, why);
    } else {
        std::thread::yield_now();
    }
}
fn block_until(key: usize, why: &'static str, d: u64) -> bool {
    if simrt::in_sim() {
        if simrt::now() >= d {
            return false;
        }
        simrt::wait_key_until(key, why, d);
        true
    } else {
        std::thread::yield_now();
        true
    }
}
fn deadline(t: Instant) -> u64 {
    simrt::now() + t.saturating_duration_since(Instant::now()).as_nanos() as u64
}
fn deadline_d(t: Duration) -> u64 {
    simrt::now().saturating_add(t.as_nanos().min(u64::MAX as u128 / 2) as u64)
}

pub struct RawMutex(AtomicUsize);
impl RawMutex {
    fn key(&self) -> usize {
        self as *const _ as usize
    }
}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(AtomicUsize::new(0));
    type GuardMarker = lock_api::GuardSend;
    fn lock(&self) {
        simrt::yield_point();
        while self.0.compare_exchange(0, 1, R, R).is_err() {
            block(self.key(), "parking_lot::Mutex::lock");
        }
    }
    fn try_lock(&self) -> bool {
        simrt::yield_point();
        self.0.compare_exchange(0, 1, R, R).is_ok()
    }
    unsafe fn unlock(&self) {
        self.0.store(0, R);
        simrt::wake_key(self.key());
        simrt::yield_point();
    }
    fn is_locked(&self) -> bool {
        self.0.load(R) != 0
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, t: Duration) -> bool {
        self.until(deadline_d(t))
    }
    fn try_lock_until(&self, t: Instant) -> bool {
        self.until(deadline(t))
    }
}
impl RawMutex {
    fn until(&self, d: u64) -> bool {
        simrt::yield_point();
        loop {
            if self.0.compare_exchange(0, 1, R, R).is_ok() {
                return true;
            }
            if !block_until(self.key(), "parking_lot::Mutex::try_lock_for", d) {
                return false;
            }
        }
    }
}

/// state: -1 written, n readers; the upgradable holder counts as a reader
pub struct RawRwLock {
    state: AtomicIsize,
    upgr: AtomicUsize,
    waiting_writers: AtomicUsize,
}
impl RawRwLock {
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn rd(&self, recursive: bool) -> bool {
        // as in parking_lot, a waiting writer keeps new readers out
        if !recursive && self.waiting_writers.load(R) > 0 {
            return false;
        }
        let s = self.state.load(R);
        if s < 0 {
            return false;
        }
        self.state.store(s + 1, R);
        true
    }
    fn wake(&self) {
        simrt::wake_key(self.key());
        simrt::yield_point();
    }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock {
        state: AtomicIsize::new(0),
        upgr: AtomicUsize::new(0),
        waiting_writers: AtomicUsize::new(0),
    };
    type GuardMarker = lock_api::GuardSend;
    fn lock_shared(&self) {
        simrt::yield_point();
        while !self.rd(false) {
            block(self.key(), "parking_lot::RwLock::read");
        }
    }
    fn try_lock_shared(&self) -> bool {
        simrt::yield_point();
        self.rd(false)
    }
    unsafe fn unlock_shared(&self) {
        self.state.fetch_sub(1, R);
        self.wake();
    }
    fn lock_exclusive(&self) {
        simrt::yield_point();
        if self.state.compare_exchange(0, -1, R, R).is_ok() {
            return;
        }
        self.waiting_writers.fetch_add(1, R);
        while self.state.compare_exchange(0, -1, R, R).is_err() {
            block(self.key(), "parking_lot::RwLock::write");
        }
        self.waiting_writers.fetch_sub(1, R);
    }
    fn try_lock_exclusive(&self) -> bool {
        simrt::yield_point();
        self.state.compare_exchange(0, -1, R, R).is_ok()
    }
    unsafe fn unlock_exclusive(&self) {
        self.state.store(0, R);
        self.wake();
    }
    fn is_locked(&self) -> bool {
        self.state.load(R) != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.state.load(R) < 0
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        simrt::yield_point();
        while !self.rd(true) {
            block(self.key(), "parking_lot::RwLock::read_recursive");
        }
    }
    fn try_lock_shared_recursive(&self) -> bool {
        simrt::yield_point();
        self.rd(true)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.state.store(1, R);
        self.wake();
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, t: Duration) -> bool {
        let d = deadline_d(t);
        simrt::yield_point();
        loop {
            if self.rd(false) {
                return true;
            }
            if !block_until(self.key(), "parking_lot::RwLock::try_read_for", d) {
                return false;
            }
        }
    }
    fn try_lock_shared_until(&self, t: Instant) -> bool {
        self.try_lock_shared_for(t.saturating_duration_since(Instant::now()))
    }
    fn try_lock_exclusive_for(&self, t: Duration) -> bool {
        let d = deadline_d(t);
        simrt::yield_point();
        loop {
            if self.state.compare_exchange(0, -1, R, R).is_ok() {
                return true;
            }
            if !block_until(self.key(), "parking_lot::RwLock::try_write_for", d) {
                return false;
            }
        }
    }
    fn try_lock_exclusive_until(&self, t: Instant) -> bool {
        self.try_lock_exclusive_for(t.saturating_duration_since(Instant::now()))
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        simrt::yield_point();
        loop {
            if self.upgr.load(R) == 0 && self.rd(false) {
                self.upgr.store(1, R);
                return;
            }
            block(self.key(), "parking_lot::RwLock::upgradable_read");
        }
    }
    fn try_lock_upgradable(&self) -> bool {
        simrt::yield_point();
        if self.upgr.load(R) == 0 && self.rd(false) {
            self.upgr.store(1, R);
            return true;
        }
        false
    }
    unsafe fn unlock_upgradable(&self) {
        self.upgr.store(0, R);
        self.state.fetch_sub(1, R);
        self.wake();
    }
    unsafe fn upgrade(&self) {
        self.waiting_writers.fetch_add(1, R);
        while self.state.compare_exchange(1, -1, R, R).is_err() {
            block(self.key(), "parking_lot::RwLock::upgrade");
        }
        self.waiting_writers.fetch_sub(1, R);
        self.upgr.store(0, R);
    }
    unsafe fn try_upgrade(&self) -> bool {
        if self.state.compare_exchange(1, -1, R, R).is_ok() {
            self.upgr.store(0, R);
            return true;
        }
        false
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.upgr.store(0, R);
        self.wake();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.upgr.store(1, R);
        self.state.store(1, R);
        self.wake();
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(simrt::tid().wrapping_add(2)).unwrap_or(std::num::NonZeroUsize::MIN)
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type ArcMutexGuard<T> = lock_api::ArcMutexGuard<RawMutex, T>;
pub type ArcRwLockReadGuard<T> = lock_api::ArcRwLockReadGuard<RawRwLock, T>;
pub type ArcRwLockWriteGuard<T> = lock_api::ArcRwLockWriteGuard<RawRwLock, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, v)
}
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
#[derive(Default)]
pub struct Condvar(UnsafeCell<u8>);
unsafe impl Sync for Condvar {}
unsafe impl Send for Condvar {}
impl Condvar {
    pub const fn new() -> Self {
        Condvar(UnsafeCell::new(0))
    }
    fn key(&self) -> usize {
        self.0.get() as usize
    }
    pub fn notify_one(&self) -> bool {
        simrt::wake_one_key(self.key());
        simrt::yield_point();
        true
    }
    pub fn notify_all(&self) -> usize {
        simrt::wake_key(self.key());
        simrt::yield_point();
        0
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        // unlock without a scheduling point, then sleep: nothing can slip between
        let m = MutexGuard::mutex(g);
        let raw = unsafe { m.raw() };
        raw.0.store(0, R);
        simrt::wake_key(raw.key());
        block(self.key(), "parking_lot::Condvar::wait");
        lock_api::RawMutex::lock(raw);
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, t: Duration) -> WaitTimeoutResult {
        let d = deadline_d(t);
        let m = MutexGuard::mutex(g);
        let raw = unsafe { m.raw() };
        raw.0.store(0, R);
        simrt::wake_key(raw.key());
        block_until(self.key(), "parking_lot::Condvar::wait_for", d);
        let out = simrt::now() >= d;
        lock_api::RawMutex::lock(raw);
        WaitTimeoutResult(out)
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, t: Instant) -> WaitTimeoutResult {
        self.wait_for(g, t.saturating_duration_since(Instant::now()))
    }
    pub fn wait_while<T, F>(&self, g: &mut MutexGuard<'_, T>, mut f: F)
    where
        T: ?Sized,
        F: FnMut(&mut T) -> bool,
    {
        while f(&mut **g) {
            self.wait(g);
        }
    }
}
impl std::fmt::Debug for Condvar {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Condvar { .. }")
    }
}
pub use std::sync::Once;
