//! The part of parking_lot's API that library code plausibly uses, over vstd's scheduler-aware
//! locks. `vstd` is given on the command line by the rustc wrapper.
#![allow(clippy::all, dead_code)]
extern crate vstd;

use std::cell::UnsafeCell;
use std::fmt;
use std::marker::PhantomData;
use std::mem;
use std::ops::{Deref, DerefMut};
use std::time::Duration;
use vstd::sync::raw::{RawOnce, RawRw};

pub struct RwLock<T: ?Sized> {
    raw: RawRw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}

#[must_use]
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    m: PhantomData<*const ()>,
}
#[must_use]
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    m: PhantomData<*const ()>,
}
#[must_use]
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    m: PhantomData<*const ()>,
}
#[must_use]
pub struct MappedRwLockReadGuard<'a, T: ?Sized> {
    raw: &'a RawRw,
    v: *const T,
    m: PhantomData<&'a T>,
}
#[must_use]
pub struct MappedRwLockWriteGuard<'a, T: ?Sized> {
    raw: &'a RawRw,
    v: *mut T,
    m: PhantomData<&'a mut T>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for MappedRwLockReadGuard<'_, T> {}

pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::new(v)
}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { raw: RawRw::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.lock_shared();
        RwLockReadGuard { l: self, m: PhantomData }
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.raw.lock_shared_recursive();
        RwLockReadGuard { l: self, m: PhantomData }
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.raw.try_lock_shared().then(|| RwLockReadGuard { l: self, m: PhantomData })
    }
    pub fn try_read_recursive(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.try_read()
    }
    pub fn try_read_for(&self, _d: Duration) -> Option<RwLockReadGuard<'_, T>> {
        self.try_read()
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.lock_exclusive();
        RwLockWriteGuard { l: self, m: PhantomData }
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.raw.try_lock_exclusive().then(|| RwLockWriteGuard { l: self, m: PhantomData })
    }
    pub fn try_write_for(&self, _d: Duration) -> Option<RwLockWriteGuard<'_, T>> {
        self.try_write()
    }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        self.raw.lock_upgradable();
        RwLockUpgradableReadGuard { l: self, m: PhantomData }
    }
    pub fn try_upgradable_read(&self) -> Option<RwLockUpgradableReadGuard<'_, T>> {
        self.raw.try_lock_upgradable().then(|| RwLockUpgradableReadGuard { l: self, m: PhantomData })
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        vstd::sched::yield_point();
        self.raw.is_locked()
    }
    pub fn is_locked_exclusive(&self) -> bool {
        vstd::sched::yield_point();
        self.raw.is_locked_exclusive()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.v.get()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}

impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
    pub fn rwlock(s: &Self) -> &'a RwLock<T> {
        s.l
    }
    pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(s: Self, f: F) -> MappedRwLockReadGuard<'a, U> {
        let l = s.l;
        let v = f(unsafe { &*l.v.get() }) as *const U;
        mem::forget(s);
        MappedRwLockReadGuard { raw: &l.raw, v, m: PhantomData }
    }
    pub fn try_map<U: ?Sized, F: FnOnce(&T) -> Option<&U>>(
        s: Self,
        f: F,
    ) -> Result<MappedRwLockReadGuard<'a, U>, Self> {
        let l = s.l;
        match f(unsafe { &*l.v.get() }) {
            Some(v) => {
                let v = v as *const U;
                mem::forget(s);
                Ok(MappedRwLockReadGuard { raw: &l.raw, v, m: PhantomData })
            }
            None => Err(s),
        }
    }
    pub fn unlocked<F: FnOnce() -> R, R>(s: &mut Self, f: F) -> R {
        s.l.raw.unlock_shared();
        let r = f();
        s.l.raw.lock_shared();
        r
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
    pub fn bump(s: &mut Self) {
        Self::unlocked(s, || ())
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn rwlock(s: &Self) -> &'a RwLock<T> {
        s.l
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        mem::forget(s);
        l.raw.downgrade();
        RwLockReadGuard { l, m: PhantomData }
    }
    pub fn downgrade_to_upgradable(s: Self) -> RwLockUpgradableReadGuard<'a, T> {
        let l = s.l;
        mem::forget(s);
        l.raw.downgrade_to_upgradable();
        RwLockUpgradableReadGuard { l, m: PhantomData }
    }
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> MappedRwLockWriteGuard<'a, U> {
        let l = s.l;
        let v = f(unsafe { &mut *l.v.get() }) as *mut U;
        mem::forget(s);
        MappedRwLockWriteGuard { raw: &l.raw, v, m: PhantomData }
    }
    pub fn try_map<U: ?Sized, F: FnOnce(&mut T) -> Option<&mut U>>(
        s: Self,
        f: F,
    ) -> Result<MappedRwLockWriteGuard<'a, U>, Self> {
        let l = s.l;
        match f(unsafe { &mut *l.v.get() }) {
            Some(v) => {
                let v = v as *mut U;
                mem::forget(s);
                Ok(MappedRwLockWriteGuard { raw: &l.raw, v, m: PhantomData })
            }
            None => Err(s),
        }
    }
    pub fn unlocked<F: FnOnce() -> R, R>(s: &mut Self, f: F) -> R {
        s.l.raw.unlock_exclusive();
        let r = f();
        s.l.raw.lock_exclusive();
        r
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
    pub fn bump(s: &mut Self) {
        Self::unlocked(s, || ())
    }
}
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> {
        let l = s.l;
        mem::forget(s);
        l.raw.upgrade();
        RwLockWriteGuard { l, m: PhantomData }
    }
    pub fn try_upgrade(s: Self) -> Result<RwLockWriteGuard<'a, T>, Self> {
        if s.l.raw.try_upgrade() {
            let l = s.l;
            mem::forget(s);
            Ok(RwLockWriteGuard { l, m: PhantomData })
        } else {
            Err(s)
        }
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        mem::forget(s);
        l.raw.downgrade_upgradable();
        RwLockReadGuard { l, m: PhantomData }
    }
    pub fn rwlock(s: &Self) -> &'a RwLock<T> {
        s.l
    }
    pub fn with_upgraded<R, F: FnOnce(&mut T) -> R>(s: &mut Self, f: F) -> R {
        s.l.raw.upgrade();
        let r = f(unsafe { &mut *s.l.v.get() });
        s.l.raw.downgrade_to_upgradable();
        r
    }
}
impl<'a, T: ?Sized> MappedRwLockReadGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(s: Self, f: F) -> MappedRwLockReadGuard<'a, U> {
        let raw = s.raw;
        let v = f(unsafe { &*s.v }) as *const U;
        mem::forget(s);
        MappedRwLockReadGuard { raw, v, m: PhantomData }
    }
    pub fn try_map<U: ?Sized, F: FnOnce(&T) -> Option<&U>>(
        s: Self,
        f: F,
    ) -> Result<MappedRwLockReadGuard<'a, U>, Self> {
        match f(unsafe { &*s.v }) {
            Some(v) => {
                let v = v as *const U;
                let raw = s.raw;
                mem::forget(s);
                Ok(MappedRwLockReadGuard { raw, v, m: PhantomData })
            }
            None => Err(s),
        }
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
}
impl<'a, T: ?Sized> MappedRwLockWriteGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> MappedRwLockWriteGuard<'a, U> {
        let raw = s.raw;
        let v = f(unsafe { &mut *s.v }) as *mut U;
        mem::forget(s);
        MappedRwLockWriteGuard { raw, v, m: PhantomData }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockUpgradableReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Deref for MappedRwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.v }
    }
}
impl<T: ?Sized> Deref for MappedRwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.v }
    }
}
impl<T: ?Sized> DerefMut for MappedRwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.v }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_shared()
    }
}
impl<T: ?Sized> Drop for RwLockUpgradableReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_upgradable()
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_exclusive()
    }
}
impl<T: ?Sized> Drop for MappedRwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.raw.unlock_shared()
    }
}
impl<T: ?Sized> Drop for MappedRwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.raw.unlock_exclusive()
    }
}

pub struct Mutex<T: ?Sized> {
    raw: RawRw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
#[must_use]
pub struct MutexGuard<'a, T: ?Sized> {
    l: &'a Mutex<T>,
    m: PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
#[must_use]
pub struct MappedMutexGuard<'a, T: ?Sized> {
    raw: &'a RawRw,
    v: *mut T,
    m: PhantomData<&'a mut T>,
}
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::new(v)
}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { raw: RawRw::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.lock_exclusive();
        MutexGuard { l: self, m: PhantomData }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.raw.try_lock_exclusive().then(|| MutexGuard { l: self, m: PhantomData })
    }
    pub fn try_lock_for(&self, _d: Duration) -> Option<MutexGuard<'_, T>> {
        self.try_lock()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        vstd::sched::yield_point();
        self.raw.is_locked()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> MappedMutexGuard<'a, U> {
        let l = s.l;
        let v = f(unsafe { &mut *l.v.get() }) as *mut U;
        mem::forget(s);
        MappedMutexGuard { raw: &l.raw, v, m: PhantomData }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_exclusive()
    }
}
impl<T: ?Sized> Deref for MappedMutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.v }
    }
}
impl<T: ?Sized> DerefMut for MappedMutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.v }
    }
}
impl<T: ?Sized> Drop for MappedMutexGuard<'_, T> {
    fn drop(&mut self) {
        self.raw.unlock_exclusive()
    }
}

macro_rules! shown {
    ($($g:ident)*) => { $(
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&**self, f)
            }
        }
        impl<T: ?Sized + fmt::Display> fmt::Display for $g<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Display::fmt(&**self, f)
            }
        }
    )* };
}
shown!(RwLockReadGuard RwLockWriteGuard RwLockUpgradableReadGuard MappedRwLockReadGuard MappedRwLockWriteGuard MutexGuard MappedMutexGuard);

pub struct Once(RawOnce);
impl Once {
    pub const fn new() -> Self {
        Once(RawOnce::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        vstd::sched::yield_point();
        if !self.0.done() {
            self.0.call(f)
        }
    }
}
