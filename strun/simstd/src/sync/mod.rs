//! Locks and channels under the scheduler.
pub use ::std::sync::*;
use ::std::{
    cell::UnsafeCell,
    fmt,
    ops::{Deref, DerefMut},
    sync::atomic::{AtomicBool, AtomicIsize, Ordering::SeqCst},
    thread::panicking,
    time::Duration,
};

use crate::sim::{self, Key};

pub mod atomic;
pub mod mpsc;

pub struct Mutex<T: ?Sized> {
    locked: AtomicBool,
    poisoned: AtomicBool,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    panicking: bool,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex {
            locked: AtomicBool::new(false),
            poisoned: AtomicBool::new(false),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.load(SeqCst);
        let v = self.data.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn key(&self) -> Key {
        Key::Addr(&self.locked as *const _ as usize)
    }
    fn acquire(&self) {
        while self.locked.swap(true, SeqCst) {
            if !sim::block(self.key()) && sim::current().is_some() {
                return;
            }
        }
    }
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { lock: self, panicking: panicking() };
        if self.poisoned.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        sim::point("lock");
        self.acquire();
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sim::point("try_lock");
        if self.locked.swap(true, SeqCst) {
            return Err(TryLockError::WouldBlock);
        }
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.poisoned.store(false, SeqCst);
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.load(SeqCst);
        let v = self.data.get_mut();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
    fn release(&self) {
        self.locked.store(false, SeqCst);
        sim::wake(self.key(), true);
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && panicking() {
            self.lock.poisoned.store(true, SeqCst);
        }
        self.lock.release();
        if !panicking() {
            sim::point("unlock");
        }
    }
}

#[derive(Debug, Default)]
pub struct Condvar {
    pad: AtomicBool,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { pad: AtomicBool::new(false) }
    }
    fn key(&self) -> Key {
        Key::Addr(&self.pad as *const _ as usize)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.lock;
        ::std::mem::forget(g);
        m.release();
        sim::block(self.key());
        m.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    /// A timeout may always strike first: it is taken as an immediate spurious wake-up.
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.lock;
        drop(g);
        sim::advance(d.as_nanos() as u64);
        sim::point("wait_timeout");
        match m.lock() {
            Ok(g) => Ok((g, WaitTimeoutResult(true))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(true)))),
        }
    }
    pub fn notify_one(&self) {
        sim::wake(self.key(), false);
        sim::point("notify");
    }
    pub fn notify_all(&self) {
        sim::wake(self.key(), true);
        sim::point("notify");
    }
}

/// Readers counted up, a writer is -1.
pub struct RwLock<T: ?Sized> {
    state: AtomicIsize,
    poisoned: AtomicBool,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { state: AtomicIsize::new(0), poisoned: AtomicBool::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.load(SeqCst);
        let v = self.data.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn key(&self) -> Key {
        Key::Addr(&self.state as *const _ as usize)
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        sim::point("read_lock");
        while self.state.fetch_update(SeqCst, SeqCst, |s| (s >= 0).then_some(s + 1)).is_err() {
            if !sim::block(self.key()) && sim::current().is_some() {
                break;
            }
        }
        let g = RwLockReadGuard(self);
        if self.poisoned.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        sim::point("write_lock");
        while self.state.compare_exchange(0, -1, SeqCst, SeqCst).is_err() {
            if !sim::block(self.key()) && sim::current().is_some() {
                break;
            }
        }
        let g = RwLockWriteGuard(self, panicking());
        if self.poisoned.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.state.fetch_sub(1, SeqCst);
        sim::wake(self.0.key(), true);
        if !panicking() {
            sim::point("unlock");
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 && panicking() {
            self.0.poisoned.store(true, SeqCst);
        }
        self.0.state.store(0, SeqCst);
        sim::wake(self.0.key(), true);
        if !panicking() {
            sim::point("unlock");
        }
    }
}

/// As std's, on the simulated lock.
#[derive(Debug)]
pub struct Barrier {
    state: Mutex<(usize, u64)>,
    cv: Condvar,
    n: usize,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { state: Mutex::new((0, 0)), cv: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.state.lock().unwrap_or_else(|e| e.into_inner());
        let round = g.1;
        g.0 += 1;
        if g.0 >= self.n {
            *g = (0, round + 1);
            drop(g);
            self.cv.notify_all();
            return BarrierWaitResult(true);
        }
        while g.1 == round {
            g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        BarrierWaitResult(false)
    }
}
