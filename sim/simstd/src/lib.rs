//! std::sync and std::thread with the blocking and atomic parts under the
//! simulator's scheduler. Staged sources have `std::sync::` and `std::thread`
//! replaced by these (see stage.py).
pub mod sync {
    pub use std::sync::*;

    // these shadow the glob import
    pub mod atomic {
        pub use std::sync::atomic::*;

        macro_rules! int_atomic {
            ($name:ident, $t:ty) => {
                #[derive(Default)]
                #[repr(transparent)]
                pub struct $name(std::sync::atomic::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        Self(std::sync::atomic::$name::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        simrt::yield_point();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        simrt::yield_point();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        simrt::yield_point();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        simrt::yield_point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        simrt::yield_point();
                        // legal: a weak exchange may fail for no reason
                        if simrt::in_sim() && simrt::choose(16) == 0 {
                            return Err(self.0.load(f));
                        }
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut prev = self.load(f);
                        while let Some(next) = g(prev) {
                            match self.compare_exchange_weak(prev, next, s, f) {
                                x @ Ok(_) => return x,
                                Err(p) => prev = p,
                            }
                        }
                        Err(prev)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn as_ptr(&self) -> *mut $t {
                        self.0.as_ptr()
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl std::fmt::Debug for $name {
                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                        self.0.fmt(f)
                    }
                }
            };
        }
        macro_rules! arith {
            ($name:ident, $t:ty) => {
                int_atomic!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                        simrt::yield_point();
                        self.0.fetch_add(v, o)
                    }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                        simrt::yield_point();
                        self.0.fetch_sub(v, o)
                    }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                        simrt::yield_point();
                        self.0.fetch_max(v, o)
                    }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                        simrt::yield_point();
                        self.0.fetch_min(v, o)
                    }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                        simrt::yield_point();
                        self.0.fetch_and(v, o)
                    }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                        simrt::yield_point();
                        self.0.fetch_or(v, o)
                    }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                        simrt::yield_point();
                        self.0.fetch_xor(v, o)
                    }
                }
            };
        }
        arith!(AtomicU8, u8);
        arith!(AtomicU16, u16);
        arith!(AtomicU32, u32);
        arith!(AtomicU64, u64);
        arith!(AtomicUsize, usize);
        arith!(AtomicI8, i8);
        arith!(AtomicI16, i16);
        arith!(AtomicI32, i32);
        arith!(AtomicI64, i64);
        arith!(AtomicIsize, isize);
        int_atomic!(AtomicBool, bool);
        impl AtomicBool {
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
                simrt::yield_point();
                self.0.fetch_and(v, o)
            }
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
                simrt::yield_point();
                self.0.fetch_or(v, o)
            }
            pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
                simrt::yield_point();
                self.0.fetch_xor(v, o)
            }
            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.fetch_xor(true, o)
            }
        }
    }

    pub mod mpsc {
        pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
        use std::collections::VecDeque;
        use std::sync::{Arc, Mutex};
        use std::time::Duration;

        struct Chan<T> {
            q: Mutex<VecDeque<T>>,
            senders: std::sync::atomic::AtomicUsize,
            receiver: std::sync::atomic::AtomicBool,
            cap: Option<usize>,
        }
        use std::sync::atomic::Ordering::SeqCst;
        impl<T> Chan<T> {
            fn key(&self) -> usize {
                self as *const _ as *const u8 as usize
            }
        }
        pub struct Sender<T>(Arc<Chan<T>>);
        pub struct SyncSender<T>(Arc<Chan<T>>);
        pub struct Receiver<T>(Arc<Chan<T>>);
        fn make<T>(cap: Option<usize>) -> Arc<Chan<T>> {
            Arc::new(Chan {
                q: Mutex::new(VecDeque::new()),
                senders: 1.into(),
                receiver: true.into(),
                cap,
            })
        }
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let c = make(None);
            (Sender(c.clone()), Receiver(c))
        }
        pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
            let c = make(Some(n.max(1)));
            (SyncSender(c.clone()), Receiver(c))
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.0.senders.fetch_add(1, SeqCst);
                Sender(self.0.clone())
            }
        }
        impl<T> Clone for SyncSender<T> {
            fn clone(&self) -> Self {
                self.0.senders.fetch_add(1, SeqCst);
                SyncSender(self.0.clone())
            }
        }
        fn drop_tx<T>(c: &Chan<T>) {
            c.senders.fetch_sub(1, SeqCst);
            simrt::wake_key(c.key());
            simrt::yield_point();
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                drop_tx(&self.0)
            }
        }
        impl<T> Drop for SyncSender<T> {
            fn drop(&mut self) {
                drop_tx(&self.0)
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                self.0.receiver.store(false, SeqCst);
                let q = std::mem::take(&mut *self.0.q.lock().unwrap());
                simrt::wake_key(self.0.key());
                drop(q);
                simrt::yield_point();
            }
        }
        fn send<T>(c: &Chan<T>, v: T) -> Result<(), SendError<T>> {
            simrt::yield_point();
            loop {
                if !c.receiver.load(SeqCst) {
                    return Err(SendError(v));
                }
                if c.cap.map(|n| c.q.lock().unwrap().len() < n).unwrap_or(true) {
                    break;
                }
                simrt::wait_key(c.key(), "mpsc::SyncSender::send");
            }
            c.q.lock().unwrap().push_back(v);
            simrt::wake_key(c.key());
            simrt::yield_point();
            Ok(())
        }
        impl<T> Sender<T> {
            pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                send(&self.0, v)
            }
        }
        impl<T> SyncSender<T> {
            pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                send(&self.0, v)
            }
            pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
                if !self.0.receiver.load(SeqCst) {
                    return Err(TrySendError::Disconnected(v));
                }
                if self.0.cap.map(|n| self.0.q.lock().unwrap().len() >= n).unwrap_or(false) {
                    return Err(TrySendError::Full(v));
                }
                send(&self.0, v).map_err(|e| TrySendError::Disconnected(e.0))
            }
        }
        impl<T> Receiver<T> {
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                simrt::yield_point();
                let v = self.0.q.lock().unwrap().pop_front();
                match v {
                    Some(v) => {
                        simrt::wake_key(self.0.key());
                        Ok(v)
                    }
                    None if self.0.senders.load(SeqCst) == 0 => Err(TryRecvError::Disconnected),
                    None => Err(TryRecvError::Empty),
                }
            }
            pub fn recv(&self) -> Result<T, RecvError> {
                loop {
                    match self.try_recv() {
                        Ok(v) => return Ok(v),
                        Err(TryRecvError::Disconnected) => return Err(RecvError),
                        // nothing runs between the failed look and this
                        Err(TryRecvError::Empty) => simrt::wait_key(self.0.key(), "mpsc::Receiver::recv"),
                    }
                }
            }
            pub fn recv_timeout(&self, t: Duration) -> Result<T, RecvTimeoutError> {
                let d = simrt::now().saturating_add(t.as_nanos() as u64);
                loop {
                    match self.try_recv() {
                        Ok(v) => return Ok(v),
                        Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                        Err(TryRecvError::Empty) if simrt::now() >= d => return Err(RecvTimeoutError::Timeout),
                        Err(TryRecvError::Empty) => simrt::wait_key_until(self.0.key(), "mpsc::Receiver::recv_timeout", d),
                    }
                }
            }
            pub fn iter(&self) -> Iter<'_, T> {
                Iter(self)
            }
            pub fn try_iter(&self) -> TryIter<'_, T> {
                TryIter(self)
            }
        }
        pub struct Iter<'a, T>(&'a Receiver<T>);
        impl<T> Iterator for Iter<'_, T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        pub struct TryIter<'a, T>(&'a Receiver<T>);
        impl<T> Iterator for TryIter<'_, T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.try_recv().ok()
            }
        }
        pub struct IntoIter<T>(Receiver<T>);
        impl<T> Iterator for IntoIter<T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        impl<T> IntoIterator for Receiver<T> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> {
                IntoIter(self)
            }
        }
        impl<T> std::fmt::Debug for Sender<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("Sender { .. }")
            }
        }
        impl<T> std::fmt::Debug for Receiver<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("Receiver { .. }")
            }
        }
    }

    // ---- blocking locks with std's interface ----
    use std::cell::UnsafeCell;
    use std::ops::{Deref, DerefMut};
    use std::sync::atomic::{AtomicBool as RealBool, AtomicIsize as RealIsize, Ordering::SeqCst};
    pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
    use std::time::Duration;

    fn block(key: usize, why: &'static str) {
        if simrt::in_sim() {
            simrt::wait_key(key, why)
        } else {
            std::thread::yield_now()
        }
    }
    #[derive(Default)]
    pub struct Mutex<T: ?Sized> {
        locked: RealBool,
        poisoned: RealBool,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>, bool);
    unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Mutex { locked: RealBool::new(false), poisoned: RealBool::new(false), v: UnsafeCell::new(v) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.v.into_inner())
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn key(&self) -> usize {
            &self.locked as *const _ as usize
        }
        fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
            let g = MutexGuard(self, std::thread::panicking());
            if self.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            simrt::yield_point();
            while self.locked.swap(true, SeqCst) {
                block(self.key(), "std::sync::Mutex::lock");
            }
            self.guard()
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            simrt::yield_point();
            if self.locked.swap(true, SeqCst) {
                return Err(TryLockError::WouldBlock);
            }
            self.guard().map_err(TryLockError::Poisoned)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.v.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            self.poisoned.load(SeqCst)
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if !self.1 && std::thread::panicking() {
                self.0.poisoned.store(true, SeqCst);
            }
            self.0.locked.store(false, SeqCst);
            simrt::wake_key(self.0.key());
            simrt::yield_point();
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Mutex { .. }")
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(v: T) -> Self {
            Mutex::new(v)
        }
    }

    #[derive(Default)]
    pub struct RwLock<T: ?Sized> {
        st: RealIsize,
        poisoned: RealBool,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
    unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
    unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            RwLock { st: RealIsize::new(0), poisoned: RealBool::new(false), v: UnsafeCell::new(v) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.v.into_inner())
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn key(&self) -> usize {
            &self.st as *const _ as usize
        }
        fn rd(&self) -> bool {
            let s = self.st.load(SeqCst);
            if s >= 0 {
                self.st.store(s + 1, SeqCst);
            }
            s >= 0
        }
        fn rg(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            let g = RwLockReadGuard(self);
            if self.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        fn wg(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            let g = RwLockWriteGuard(self, std::thread::panicking());
            if self.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            simrt::yield_point();
            while !self.rd() {
                block(self.key(), "std::sync::RwLock::read");
            }
            self.rg()
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            simrt::yield_point();
            while self.st.compare_exchange(0, -1, SeqCst, SeqCst).is_err() {
                block(self.key(), "std::sync::RwLock::write");
            }
            self.wg()
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            simrt::yield_point();
            if self.rd() { self.rg().map_err(TryLockError::Poisoned) } else { Err(TryLockError::WouldBlock) }
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            simrt::yield_point();
            if self.st.compare_exchange(0, -1, SeqCst, SeqCst).is_ok() {
                self.wg().map_err(TryLockError::Poisoned)
            } else {
                Err(TryLockError::WouldBlock)
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.v.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            self.poisoned.load(SeqCst)
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.0.st.fetch_sub(1, SeqCst);
            simrt::wake_key(self.0.key());
            simrt::yield_point();
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            if !self.1 && std::thread::panicking() {
                self.0.poisoned.store(true, SeqCst);
            }
            self.0.st.store(0, SeqCst);
            simrt::wake_key(self.0.key());
            simrt::yield_point();
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: ?Sized> std::fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("RwLock { .. }")
        }
    }

    #[derive(Debug, PartialEq, Eq, Copy, Clone)]
    pub struct WaitTimeoutResult(bool);
    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }
    #[derive(Default)]
    pub struct Condvar(UnsafeCell<u8>);
    unsafe impl Send for Condvar {}
    unsafe impl Sync for Condvar {}
    impl Condvar {
        pub const fn new() -> Self {
            Condvar(UnsafeCell::new(0))
        }
        fn key(&self) -> usize {
            self.0.get() as usize
        }
        pub fn notify_one(&self) {
            simrt::wake_one_key(self.key());
            simrt::yield_point();
        }
        pub fn notify_all(&self) {
            simrt::wake_key(self.key());
            simrt::yield_point();
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let m = g.0;
            std::mem::forget(g);
            m.locked.store(false, SeqCst);
            simrt::wake_key(m.key());
            block(self.key(), "std::sync::Condvar::wait");
            m.lock()
        }
        pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, t: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let d = simrt::now().saturating_add(t.as_nanos() as u64);
            let m = g.0;
            std::mem::forget(g);
            m.locked.store(false, SeqCst);
            simrt::wake_key(m.key());
            simrt::wait_key_until(self.key(), "std::sync::Condvar::wait_timeout", d);
            let out = WaitTimeoutResult(simrt::now() >= d);
            match m.lock() {
                Ok(g) => Ok((g, out)),
                Err(e) => Err(PoisonError::new((e.into_inner(), out))),
            }
        }
    }
    impl std::fmt::Debug for Condvar {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Condvar { .. }")
        }
    }
    pub struct Barrier {
        m: Mutex<(usize, usize)>,
        c: Condvar,
        n: usize,
    }
    pub struct BarrierWaitResult(bool);
    impl BarrierWaitResult {
        pub fn is_leader(&self) -> bool {
            self.0
        }
    }
    impl Barrier {
        pub const fn new(n: usize) -> Self {
            Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n }
        }
        pub fn wait(&self) -> BarrierWaitResult {
            let mut g = self.m.lock().unwrap();
            let turn = (*g).1;
            (*g).0 += 1;
            if (*g).0 >= self.n {
                (*g).0 = 0;
                (*g).1 += 1;
                drop(g);
                self.c.notify_all();
                return BarrierWaitResult(true);
            }
            while (*g).1 == turn {
                g = self.c.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        }
    }
}

pub mod thread {
    pub use std::thread::*;
    use std::any::Any;
    use std::sync::{Arc, Mutex};

    type Out<T> = Arc<Mutex<Option<std::thread::Result<T>>>>;
    pub struct JoinHandle<T> {
        tid: simrt::Tid,
        real: Option<std::thread::JoinHandle<T>>,
        out: Out<T>,
        name: Option<String>,
    }
    #[derive(Debug, Clone)]
    pub struct Thread {
        id: usize,
        name: Option<String>,
    }
    impl Thread {
        pub fn name(&self) -> Option<&str> {
            self.name.as_deref()
        }
        pub fn unpark(&self) {
            simrt::unpark(self.id)
        }
        pub fn id(&self) -> usize {
            self.id
        }
    }
    std::thread_local! {
        static NAME: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    }
    pub fn current() -> Thread {
        Thread { id: simrt::tid(), name: NAME.with(|n| n.borrow().clone()) }
    }
    pub fn park() {
        simrt::park("std::thread::park", None)
    }
    pub fn park_timeout(d: std::time::Duration) {
        simrt::park("std::thread::park_timeout", Some(simrt::now() + d.as_nanos() as u64))
    }
    pub fn yield_now() {
        if simrt::in_sim() { simrt::yield_now() } else { std::thread::yield_now() }
    }
    pub fn sleep(d: std::time::Duration) {
        if simrt::in_sim() { simrt::sleep(d.as_nanos() as u64) } else { std::thread::sleep(d) }
    }
    impl<T> JoinHandle<T> {
        pub fn join(self) -> std::result::Result<T, Box<dyn Any + Send + 'static>> {
            if let Some(r) = self.real {
                return r.join();
            }
            simrt::join(self.tid);
            let r = self.out.lock().unwrap().take().unwrap();
            r
        }
        pub fn is_finished(&self) -> bool {
            match &self.real {
                Some(r) => r.is_finished(),
                None => simrt::is_finished(self.tid),
            }
        }
        pub fn thread(&self) -> Thread {
            Thread { id: self.tid, name: self.name.clone() }
        }
    }
    impl<T> std::fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("JoinHandle { .. }")
        }
    }
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Builder::new().spawn(f).unwrap()
    }
    #[derive(Default, Debug)]
    pub struct Builder {
        name: Option<String>,
    }
    impl Builder {
        pub fn new() -> Self {
            Builder::default()
        }
        pub fn name(mut self, n: String) -> Self {
            self.name = Some(n);
            self
        }
        pub fn stack_size(self, _: usize) -> Self {
            self
        }
        pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
        where
            F: FnOnce() -> T + Send + 'static,
            T: Send + 'static,
        {
            let out: Out<T> = Arc::new(Mutex::new(None));
            if !simrt::in_sim() {
                let real = std::thread::Builder::new().spawn(f)?;
                return Ok(JoinHandle { tid: simrt::NONE, real: Some(real), out, name: self.name });
            }
            let o = out.clone();
            let name = self.name.clone();
            let n2 = name.clone();
            let tid = simrt::spawn(name.as_deref().unwrap_or("thread"), move || {
                NAME.with(|n| *n.borrow_mut() = n2);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                *o.lock().unwrap() = Some(r);
            });
            Ok(JoinHandle { tid, real: None, out, name })
        }
    }
}
