//! The lock and once-cell state machines used by every shim (std and parking_lot flavours).
use crate::sched;
use ::std::sync::atomic::{AtomicBool, AtomicU8, AtomicUsize, Ordering::SeqCst};

#[derive(Debug)]
struct S {
    readers: usize,
    writer: bool,
    upgradable: bool,
    waiting: usize,
}

/// Readers/writer lock. With WRITER_PREF a waiting writer keeps new readers out (as parking_lot
/// does); without it, readers always pass.
#[derive(Debug)]
pub struct RawRw(::std::sync::Mutex<S>);

impl RawRw {
    pub const fn new() -> Self {
        RawRw(::std::sync::Mutex::new(S { readers: 0, writer: false, upgradable: false, waiting: 0 }))
    }
    fn rid(&self) -> usize {
        self as *const _ as usize
    }
    fn s(&self) -> ::std::sync::MutexGuard<'_, S> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wake(&self) {
        sched::wake(self.rid());
    }
    fn take_shared(&self, recursive: bool) -> bool {
        let pref = sched::WRITER_PREF.load(SeqCst) && !recursive;
        let mut s = self.s();
        if s.writer || (pref && s.waiting > 0) {
            return false;
        }
        s.readers += 1;
        true
    }
    fn take_exclusive(&self) -> bool {
        let mut s = self.s();
        if s.writer || s.readers > 0 || s.upgradable {
            return false;
        }
        s.writer = true;
        true
    }
    pub fn lock_shared(&self) {
        sched::yield_point();
        sched::block_on(self.rid(), || self.take_shared(false).then_some(()));
    }
    pub fn lock_shared_recursive(&self) {
        sched::yield_point();
        sched::block_on(self.rid(), || self.take_shared(true).then_some(()));
    }
    pub fn try_lock_shared(&self) -> bool {
        sched::yield_point();
        self.take_shared(false)
    }
    pub fn unlock_shared(&self) {
        let last = {
            let mut s = self.s();
            s.readers -= 1;
            s.readers == 0
        };
        if last {
            self.wake();
        }
    }
    pub fn lock_exclusive(&self) {
        sched::yield_point();
        if self.take_exclusive() {
            return;
        }
        self.s().waiting += 1;
        sched::block_on(self.rid(), || self.take_exclusive().then_some(()));
        self.s().waiting -= 1;
    }
    pub fn try_lock_exclusive(&self) -> bool {
        sched::yield_point();
        self.take_exclusive()
    }
    pub fn unlock_exclusive(&self) {
        self.s().writer = false;
        self.wake();
    }
    pub fn downgrade(&self) {
        // atomic: nobody gets in between
        {
            let mut s = self.s();
            s.readers += 1;
            s.writer = false;
        }
        self.wake();
    }
    fn take_upgradable(&self) -> bool {
        let mut s = self.s();
        if s.writer || s.upgradable {
            return false;
        }
        s.upgradable = true;
        true
    }
    pub fn lock_upgradable(&self) {
        sched::yield_point();
        sched::block_on(self.rid(), || self.take_upgradable().then_some(()));
    }
    pub fn try_lock_upgradable(&self) -> bool {
        sched::yield_point();
        self.take_upgradable()
    }
    pub fn unlock_upgradable(&self) {
        self.s().upgradable = false;
        self.wake();
    }
    fn take_upgrade(&self) -> bool {
        let mut s = self.s();
        if s.readers > 0 || s.writer {
            return false;
        }
        s.writer = true;
        s.upgradable = false;
        true
    }
    pub fn upgrade(&self) {
        sched::yield_point();
        self.s().waiting += 1;
        sched::block_on(self.rid(), || self.take_upgrade().then_some(()));
        self.s().waiting -= 1;
    }
    pub fn try_upgrade(&self) -> bool {
        sched::yield_point();
        self.take_upgrade()
    }
    pub fn downgrade_upgradable(&self) {
        {
            let mut s = self.s();
            s.readers += 1;
            s.upgradable = false;
        }
        self.wake();
    }
    pub fn downgrade_to_upgradable(&self) {
        {
            let mut s = self.s();
            s.upgradable = true;
            s.writer = false;
        }
        self.wake();
    }
    pub fn is_locked(&self) -> bool {
        let s = self.s();
        s.writer || s.upgradable || s.readers > 0
    }
    pub fn is_locked_exclusive(&self) -> bool {
        self.s().writer
    }
}

/// 0 empty, 1 running, 2 done
#[derive(Debug)]
pub struct RawOnce(AtomicU8);

impl RawOnce {
    pub const fn new() -> Self {
        RawOnce(AtomicU8::new(0))
    }
    pub const fn new_done() -> Self {
        RawOnce(AtomicU8::new(2))
    }
    pub fn done(&self) -> bool {
        self.0.load(SeqCst) == 2
    }
    pub fn wait(&self) {
        sched::block_on(self as *const _ as usize, || self.done().then_some(()));
    }
    pub fn call(&self, f: impl FnOnce()) {
        struct Reset<'a>(&'a RawOnce, u8);
        impl Drop for Reset<'_> {
            fn drop(&mut self) {
                self.0 .0.store(self.1, SeqCst);
                sched::wake(self.0 as *const _ as usize);
            }
        }
        let won = sched::block_on(self as *const _ as usize, || match self.0.compare_exchange(
            0, 1, SeqCst, SeqCst,
        ) {
            Ok(_) => Some(true),
            Err(2) => Some(false),
            Err(_) => None,
        });
        if won {
            let mut r = Reset(self, 0);
            f();
            // the initialiser has run, the value is not yet published
            sched::yield_point();
            r.1 = 2;
        }
    }
}
