//! `std::sync` with instrumented atomics and locks.
pub use std::sync::*;

pub mod atomic {
    use crate::exec::{visible, Done, Op};
    pub use std::sync::atomic::{compiler_fence, AtomicPtr, Ordering};
    use std::sync::atomic as real;
    use Ordering::{AcqRel, Acquire, Relaxed, Release, SeqCst};
    #[allow(deprecated)]
    pub use std::sync::atomic::spin_loop_hint;

    pub fn fence(o: Ordering) {
        real::fence(o)
    }
    fn acq(o: Ordering) -> bool {
        matches!(o, Acquire | AcqRel | SeqCst)
    }
    fn rel(o: Ordering) -> bool {
        matches!(o, Release | AcqRel | SeqCst)
    }
    macro_rules! atomic {
        ($name:ident, $t:ty, $to:expr, $from:expr) => {
            /// keeps the latest value; histories live in the scheduler
            #[repr(transparent)]
            pub struct $name(real::$name);
            impl $name {
                pub const fn new(v: $t) -> Self {
                    Self(real::$name::new(v))
                }
                fn addr(&self) -> usize {
                    self as *const _ as usize
                }
                fn go(&self, make: impl FnOnce(usize) -> Op, f: &dyn Fn($t) -> $t) -> Option<Done> {
                    let cur = ($to)(self.0.load(SeqCst));
                    visible(self.addr(), cur, make, &|v| ($to)(f(($from)(v))), &|v| self.0.store(($from)(v), SeqCst))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    match self.go(|loc| Op::Load { loc, acquire: acq(o), sc: o == SeqCst }, &|v| v) {
                        Some(Done::Value(v)) => ($from)(v),
                        _ => self.0.load(o),
                    }
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    if self.go(|loc| Op::Store { loc, value: ($to)(v), release: rel(o) }, &|v| v).is_none() {
                        self.0.store(v, o)
                    }
                }
                fn rmw(&self, o: Ordering, code: u64, f: &dyn Fn($t) -> $t) -> $t {
                    match self.go(|loc| Op::Rmw { loc, release: rel(o), acquire: acq(o), code }, f) {
                        Some(Done::Value(v)) => ($from)(v),
                        _ => {
                            let mut cur = self.0.load(SeqCst);
                            loop {
                                match self.0.compare_exchange(cur, f(cur), SeqCst, SeqCst) {
                                    Ok(v) => return v,
                                    Err(v) => cur = v,
                                }
                            }
                        }
                    }
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    self.rmw(o, ($to)(v), &|_| v)
                }
                fn cas(&self, old: $t, new: $t, o: Ordering, e: Ordering, weak: bool) -> Result<$t, $t> {
                    match self.go(
                        |loc| Op::Cas { loc, old: ($to)(old), new: ($to)(new), weak, release: rel(o), acquire: acq(o), fail_acquire: acq(e) },
                        &|v| v,
                    ) {
                        Some(Done::CasOk(v)) => Ok(($from)(v)),
                        Some(Done::CasErr(v)) => Err(($from)(v)),
                        _ => self.0.compare_exchange(old, new, o, e),
                    }
                }
                pub fn compare_exchange(&self, old: $t, new: $t, o: Ordering, e: Ordering) -> Result<$t, $t> {
                    self.cas(old, new, o, e, false)
                }
                pub fn compare_exchange_weak(&self, old: $t, new: $t, o: Ordering, e: Ordering) -> Result<$t, $t> {
                    self.cas(old, new, o, e, true)
                }
                pub fn compare_and_swap(&self, old: $t, new: $t, o: Ordering) -> $t {
                    match self.cas(old, new, o, Relaxed, false) {
                        Ok(v) | Err(v) => v,
                    }
                }
                pub fn fetch_update(&self, set: Ordering, fetch: Ordering, mut f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                    let mut prev = self.load(fetch);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, set, fetch) {
                            x @ Ok(_) => return x,
                            Err(p) => prev = p,
                        }
                    }
                    Err(prev)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
            impl std::fmt::Debug for $name {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    self.0.fmt(f)
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl Default for $name {
                fn default() -> Self {
                    Self::new(Default::default())
                }
            }
        };
    }
    macro_rules! arithmetic {
        ($($name:ident, $t:ty);*) => {$(
            atomic!($name, $t, |v: $t| v as u64, |v: u64| v as $t);
            impl $name {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                    self.rmw(o, 1 << 32 ^ v as u64, &|x| x.wrapping_add(v))
                }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                    self.rmw(o, 2 << 32 ^ v as u64, &|x| x.wrapping_sub(v))
                }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                    self.rmw(o, 3 << 32 ^ v as u64, &|x| x.max(v))
                }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                    self.rmw(o, 4 << 32 ^ v as u64, &|x| x.min(v))
                }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                    self.rmw(o, 5 << 32 ^ v as u64, &|x| x & v)
                }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                    self.rmw(o, 6 << 32 ^ v as u64, &|x| x | v)
                }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                    self.rmw(o, 7 << 32 ^ v as u64, &|x| x ^ v)
                }
                pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t {
                    self.rmw(o, 8 << 32 ^ v as u64, &|x| !(x & v))
                }
            }
        )*};
    }
    arithmetic!(AtomicU64, u64; AtomicU32, u32; AtomicU16, u16; AtomicU8, u8; AtomicUsize, usize; AtomicI64, i64; AtomicI32, i32; AtomicI16, i16; AtomicI8, i8; AtomicIsize, isize);
    atomic!(AtomicBool, bool, |v: bool| v as u64, |v: u64| v != 0);
    impl AtomicBool {
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
            self.rmw(o, 9 << 32 ^ v as u64, &|x| x | v)
        }
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
            self.rmw(o, 10 << 32 ^ v as u64, &|x| x & v)
        }
        pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
            self.rmw(o, 11 << 32 ^ v as u64, &|x| x ^ v)
        }
    }
}

use crate::exec::{visible, Op};
use std::sync as real;

/// a mutex whose lock and unlock are scheduling points
#[derive(Debug, Default)]
pub struct Mutex<T: ?Sized> {
    id: u8,
    inner: real::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    g: Option<real::MutexGuard<'a, T>>,
}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Self { id: 0, inner: real::Mutex::new(v) }
    }
    pub fn into_inner(self) -> real::LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
        &self.id as *const u8 as usize
    }
    pub fn lock(&self) -> real::LockResult<MutexGuard<'_, T>> {
        let _ = visible(self.addr(), 0, |loc| Op::Lock { loc }, &|v| v, &|_| ());
        match self.inner.lock() {
            Ok(g) => Ok(MutexGuard { m: self, g: Some(g) }),
            Err(e) => Err(real::PoisonError::new(MutexGuard { m: self, g: Some(e.into_inner()) })),
        }
    }
    pub fn get_mut(&mut self) -> real::LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized> std::ops::Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> std::ops::DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        let _ = visible(self.m.addr(), 0, |loc| Op::Unlock { loc }, &|v| v, &|_| ());
    }
}
