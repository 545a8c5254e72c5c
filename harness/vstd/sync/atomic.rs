pub use ::std::sync::atomic::*;
use crate::sched;
use ::std::fmt;
use ::std::sync::atomic as real;

pub fn fence(o: Ordering) {
    sched::yield_point();
    real::fence(o)
}

macro_rules! atomic_int {
    ($n:ident, $t:ty) => {
        #[derive(Default)]
        #[repr(transparent)]
        pub struct $n(real::$n);
        impl $n {
            pub const fn new(v: $t) -> Self {
                $n(real::$n::new(v))
            }
            pub fn load(&self, o: Ordering) -> $t {
                sched::yield_point();
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                sched::yield_point();
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                sched::yield_point();
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                sched::yield_point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                sched::yield_point();
                if self.0.load(real::Ordering::SeqCst) == a && sched::spurious() {
                    return Err(a);
                }
                self.0.compare_exchange(a, b, s, f)
            }
            #[allow(deprecated)]
            pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                sched::yield_point();
                self.0.compare_and_swap(a, b, o)
            }
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                sched::yield_point();
                self.0.fetch_add(v, o)
            }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                sched::yield_point();
                self.0.fetch_sub(v, o)
            }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                sched::yield_point();
                self.0.fetch_and(v, o)
            }
            pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t {
                sched::yield_point();
                self.0.fetch_nand(v, o)
            }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                sched::yield_point();
                self.0.fetch_or(v, o)
            }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                sched::yield_point();
                self.0.fetch_xor(v, o)
            }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                sched::yield_point();
                self.0.fetch_max(v, o)
            }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                sched::yield_point();
                self.0.fetch_min(v, o)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                &self, s: Ordering, fo: Ordering, mut f: F,
            ) -> Result<$t, $t> {
                let mut prev = self.load(fo);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, s, fo) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub const fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub const fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
            pub const unsafe fn from_ptr<'a>(p: *mut $t) -> &'a Self {
                unsafe { &*(p as *const Self) }
            }
        }
        impl From<$t> for $n {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl fmt::Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&self.0, f)
            }
        }
    };
}
atomic_int!(AtomicU8, u8);
atomic_int!(AtomicU16, u16);
atomic_int!(AtomicU32, u32);
atomic_int!(AtomicU64, u64);
atomic_int!(AtomicUsize, usize);
atomic_int!(AtomicI8, i8);
atomic_int!(AtomicI16, i16);
atomic_int!(AtomicI32, i32);
atomic_int!(AtomicI64, i64);
atomic_int!(AtomicIsize, isize);

#[derive(Default)]
#[repr(transparent)]
pub struct AtomicBool(real::AtomicBool);
impl AtomicBool {
    pub const fn new(v: bool) -> Self {
        AtomicBool(real::AtomicBool::new(v))
    }
    pub fn load(&self, o: Ordering) -> bool {
        sched::yield_point();
        self.0.load(o)
    }
    pub fn store(&self, v: bool, o: Ordering) {
        sched::yield_point();
        self.0.store(v, o)
    }
    pub fn swap(&self, v: bool, o: Ordering) -> bool {
        sched::yield_point();
        self.0.swap(v, o)
    }
    pub fn compare_exchange(&self, a: bool, b: bool, s: Ordering, f: Ordering) -> Result<bool, bool> {
        sched::yield_point();
        self.0.compare_exchange(a, b, s, f)
    }
    pub fn compare_exchange_weak(&self, a: bool, b: bool, s: Ordering, f: Ordering) -> Result<bool, bool> {
        sched::yield_point();
        if self.0.load(real::Ordering::SeqCst) == a && sched::spurious() {
            return Err(a);
        }
        self.0.compare_exchange(a, b, s, f)
    }
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        sched::yield_point();
        self.0.fetch_and(v, o)
    }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        sched::yield_point();
        self.0.fetch_or(v, o)
    }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        sched::yield_point();
        self.0.fetch_xor(v, o)
    }
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
    pub fn get_mut(&mut self) -> &mut bool {
        self.0.get_mut()
    }
    pub const fn into_inner(self) -> bool {
        self.0.into_inner()
    }
}
impl From<bool> for AtomicBool {
    fn from(v: bool) -> Self {
        Self::new(v)
    }
}
impl fmt::Debug for AtomicBool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(real::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    pub const fn new(v: *mut T) -> Self {
        AtomicPtr(real::AtomicPtr::new(v))
    }
    pub fn load(&self, o: Ordering) -> *mut T {
        sched::yield_point();
        self.0.load(o)
    }
    pub fn store(&self, v: *mut T, o: Ordering) {
        sched::yield_point();
        self.0.store(v, o)
    }
    pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T {
        sched::yield_point();
        self.0.swap(v, o)
    }
    pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        sched::yield_point();
        self.0.compare_exchange(a, b, s, f)
    }
    pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        sched::yield_point();
        if self.0.load(real::Ordering::SeqCst) == a && sched::spurious() {
            return Err(a);
        }
        self.0.compare_exchange(a, b, s, f)
    }
    pub fn get_mut(&mut self) -> &mut *mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> *mut T {
        self.0.into_inner()
    }
}
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(::std::ptr::null_mut())
    }
}
impl<T> fmt::Debug for AtomicPtr<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
