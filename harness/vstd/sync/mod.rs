pub use ::std::sync::*;

pub mod atomic;
pub mod raw;

use crate::sched;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::panic::{RefUnwindSafe, UnwindSafe};
use ::std::sync::atomic::{AtomicBool, AtomicU8, Ordering::SeqCst};
use raw::{RawOnce, RawRw};

// ---------------------------------------------------------------- once cells

pub struct OnceLock<T> {
    once: RawOnce,
    v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T: RefUnwindSafe + UnwindSafe> RefUnwindSafe for OnceLock<T> {}
impl<T: UnwindSafe> UnwindSafe for OnceLock<T> {}

impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: RawOnce::new(), v: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        sched::yield_point();
        self.peek()
    }
    fn peek(&self) -> Option<&T> {
        if self.once.done() {
            unsafe { (*self.v.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.v.get_mut().as_mut()
    }
    pub fn set(&self, value: T) -> Result<(), T> {
        let mut value = Some(value);
        self.get_or_init(|| value.take().unwrap());
        match value {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        sched::yield_point();
        if self.peek().is_none() {
            self.once.call(|| {
                let v = f();
                unsafe { *self.v.get() = Some(v) };
            });
        }
        self.peek().unwrap()
    }
    pub fn wait(&self) -> &T {
        sched::yield_point();
        self.once.wait();
        self.peek().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.v.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.once = RawOnce::new();
        self.v.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        match self.get() {
            Some(v) => Self::from(v.clone()),
            None => Self::new(),
        }
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("OnceLock").field(&self.peek()).finish()
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        OnceLock { once: RawOnce::new_done(), v: UnsafeCell::new(Some(v)) }
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl<T: Eq> Eq for OnceLock<T> {}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: UnsafeCell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), f: UnsafeCell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| {
            let f = unsafe { (*this.f.get()).take() };
            (f.expect("LazyLock instance has previously been poisoned"))()
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}

pub struct Once(RawOnce);
impl Once {
    pub const fn new() -> Self {
        Once(RawOnce::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        sched::yield_point();
        if !self.0.done() {
            self.0.call(f);
        }
    }
    pub fn is_completed(&self) -> bool {
        sched::yield_point();
        self.0.done()
    }
}

// ---------------------------------------------------------------- locks with poisoning

#[derive(Debug)]
struct Poison(AtomicBool);
impl Poison {
    const fn new() -> Self {
        Poison(AtomicBool::new(false))
    }
    fn wrap<G>(&self, g: G) -> LockResult<G> {
        if self.0.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    fn leave(&self, was_panicking: bool) {
        if !was_panicking && ::std::thread::panicking() {
            self.0.store(true, SeqCst);
        }
    }
}

pub struct Mutex<T: ?Sized> {
    raw: RawRw,
    poison: Poison,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
impl<T: ?Sized> UnwindSafe for Mutex<T> {}
impl<T: ?Sized> RefUnwindSafe for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    l: &'a Mutex<T>,
    p: bool,
}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { raw: RawRw::new(), poison: Poison::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poison.0.load(SeqCst);
        let v = self.v.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.lock_exclusive();
        self.poison.wrap(MutexGuard { l: self, p: ::std::thread::panicking() })
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if self.raw.try_lock_exclusive() {
            Ok(self.poison.wrap(MutexGuard { l: self, p: ::std::thread::panicking() })?)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.0.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.poison.0.store(false, SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poison.0.load(SeqCst);
        let v = self.v.get_mut();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.l.poison.leave(self.p);
        self.l.raw.unlock_exclusive();
    }
}

pub struct RwLock<T: ?Sized> {
    raw: RawRw,
    poison: Poison,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
impl<T: ?Sized> UnwindSafe for RwLock<T> {}
impl<T: ?Sized> RefUnwindSafe for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    p: bool,
}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { raw: RawRw::new(), poison: Poison::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poison.0.load(SeqCst);
        let v = self.v.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.lock_shared();
        self.poison.wrap(RwLockReadGuard { l: self })
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if self.raw.try_lock_shared() {
            Ok(self.poison.wrap(RwLockReadGuard { l: self })?)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.lock_exclusive();
        self.poison.wrap(RwLockWriteGuard { l: self, p: ::std::thread::panicking() })
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if self.raw.try_lock_exclusive() {
            Ok(self.poison.wrap(RwLockWriteGuard { l: self, p: ::std::thread::panicking() })?)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.0.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.poison.0.store(false, SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poison.0.load(SeqCst);
        let v = self.v.get_mut();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_shared();
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.l.poison.leave(self.p);
        self.l.raw.unlock_exclusive();
    }
}

/// A condition variable over the shim mutex (no time-outs fire; notified or spurious wake-ups).
#[derive(Default)]
pub struct Condvar {
    gen: AtomicU8,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { gen: AtomicU8::new(0) }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let l = g.l;
        let at = self.gen.load(SeqCst);
        drop(g);
        sched::block_on(self as *const _ as usize, || (self.gen.load(SeqCst) != at).then_some(()));
        l.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        self.notify_all()
    }
    pub fn notify_all(&self) {
        sched::yield_point();
        self.gen.fetch_add(1, SeqCst);
        sched::wake(self as *const _ as usize);
    }
}
