//! The standard library with scheduling points in its atomics and locks.
//!
//! rustc_wrap.sh compiles the crate under test with `--extern std=<this crate>`, so that every
//! `std::...` path of its unmodified source resolves here.
pub use std::*;

pub mod sync {
    pub use std::sync::*;

    pub mod atomic {
        pub use std::sync::atomic::*;
        use simhook::{point, K_ATOMIC};

        macro_rules! common {
            ($name:ident, $ty:ty) => {
                #[derive(Default)]
                #[repr(transparent)]
                pub struct $name(std::sync::atomic::$name);
                impl std::fmt::Debug for $name {
                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                        self.0.fmt(f)
                    }
                }
                impl From<$ty> for $name {
                    fn from(v: $ty) -> Self {
                        Self::new(v)
                    }
                }
                #[allow(deprecated)]
                impl $name {
                    pub const fn new(v: $ty) -> Self {
                        Self(std::sync::atomic::$name::new(v))
                    }
                    pub fn get_mut(&mut self) -> &mut $ty {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $ty {
                        self.0.into_inner()
                    }
                    pub fn load(&self, o: Ordering) -> $ty {
                        point(K_ATOMIC);
                        let r = self.0.load(o);
                        point(K_ATOMIC);
                        r
                    }
                    pub fn store(&self, v: $ty, o: Ordering) {
                        point(K_ATOMIC);
                        self.0.store(v, o);
                        point(K_ATOMIC);
                    }
                    pub fn swap(&self, v: $ty, o: Ordering) -> $ty {
                        point(K_ATOMIC);
                        let r = self.0.swap(v, o);
                        point(K_ATOMIC);
                        r
                    }
                    pub fn compare_and_swap(&self, c: $ty, n: $ty, o: Ordering) -> $ty {
                        point(K_ATOMIC);
                        let r = self.0.compare_and_swap(c, n, o);
                        point(K_ATOMIC);
                        r
                    }
                    pub fn compare_exchange(
                        &self,
                        c: $ty,
                        n: $ty,
                        s: Ordering,
                        f: Ordering,
                    ) -> Result<$ty, $ty> {
                        point(K_ATOMIC);
                        let r = self.0.compare_exchange(c, n, s, f);
                        point(K_ATOMIC);
                        r
                    }
                    pub fn compare_exchange_weak(
                        &self,
                        c: $ty,
                        n: $ty,
                        s: Ordering,
                        f: Ordering,
                    ) -> Result<$ty, $ty> {
                        // never fails spuriously: retry loops stay bounded
                        self.compare_exchange(c, n, s, f)
                    }
                    pub fn fetch_update<F: FnMut($ty) -> Option<$ty>>(
                        &self,
                        set: Ordering,
                        fetch: Ordering,
                        mut f: F,
                    ) -> Result<$ty, $ty> {
                        let mut prev = self.load(fetch);
                        while let Some(next) = f(prev) {
                            match self.compare_exchange(prev, next, set, fetch) {
                                Ok(x) => return Ok(x),
                                Err(p) => prev = p,
                            }
                        }
                        Err(prev)
                    }
                    pub fn fetch_and(&self, v: $ty, o: Ordering) -> $ty {
                        point(K_ATOMIC);
                        let r = self.0.fetch_and(v, o);
                        point(K_ATOMIC);
                        r
                    }
                    pub fn fetch_or(&self, v: $ty, o: Ordering) -> $ty {
                        point(K_ATOMIC);
                        let r = self.0.fetch_or(v, o);
                        point(K_ATOMIC);
                        r
                    }
                    pub fn fetch_xor(&self, v: $ty, o: Ordering) -> $ty {
                        point(K_ATOMIC);
                        let r = self.0.fetch_xor(v, o);
                        point(K_ATOMIC);
                        r
                    }
                    pub fn fetch_nand(&self, v: $ty, o: Ordering) -> $ty {
                        point(K_ATOMIC);
                        let r = self.0.fetch_nand(v, o);
                        point(K_ATOMIC);
                        r
                    }
                }
            };
        }
        macro_rules! int {
            ($name:ident, $ty:ty) => {
                common!($name, $ty);
                impl $name {
                    pub fn fetch_add(&self, v: $ty, o: Ordering) -> $ty {
                        point(K_ATOMIC);
                        let r = self.0.fetch_add(v, o);
                        point(K_ATOMIC);
                        r
                    }
                    pub fn fetch_sub(&self, v: $ty, o: Ordering) -> $ty {
                        point(K_ATOMIC);
                        let r = self.0.fetch_sub(v, o);
                        point(K_ATOMIC);
                        r
                    }
                    pub fn fetch_max(&self, v: $ty, o: Ordering) -> $ty {
                        point(K_ATOMIC);
                        let r = self.0.fetch_max(v, o);
                        point(K_ATOMIC);
                        r
                    }
                    pub fn fetch_min(&self, v: $ty, o: Ordering) -> $ty {
                        point(K_ATOMIC);
                        let r = self.0.fetch_min(v, o);
                        point(K_ATOMIC);
                        r
                    }
                }
            };
        }
        common!(AtomicBool, bool);
        impl AtomicBool {
            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.fetch_xor(true, o)
            }
        }
        int!(AtomicU8, u8);
        int!(AtomicU16, u16);
        int!(AtomicU32, u32);
        int!(AtomicU64, u64);
        int!(AtomicUsize, usize);
        int!(AtomicI8, i8);
        int!(AtomicI16, i16);
        int!(AtomicI32, i32);
        int!(AtomicI64, i64);
        int!(AtomicIsize, isize);
    }

    use simhook::{contended, guard_acquired, guard_released, point, K_LOCK, K_UNLOCK};
    use std::fmt;
    use std::ops::{Deref, DerefMut};

    #[derive(Default)]
    pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
    pub struct MutexGuard<'a, T: ?Sized>(Option<std::sync::MutexGuard<'a, T>>);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex(std::sync::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    fn map_lock<G, H>(r: LockResult<G>, f: impl Fn(G) -> H) -> LockResult<H> {
        match r {
            Ok(g) => Ok(f(g)),
            Err(e) => Err(PoisonError::new(f(e.into_inner()))),
        }
    }
    fn map_try<G, H>(r: TryLockResult<G>, f: impl Fn(G) -> H) -> TryLockResult<H> {
        match r {
            Ok(g) => Ok(f(g)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(f(e.into_inner()))))
            }
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            point(K_LOCK);
            let r = match self.0.try_lock() {
                Ok(g) => Ok(g),
                Err(TryLockError::Poisoned(e)) => Err(e),
                Err(TryLockError::WouldBlock) => {
                    contended();
                    self.0.lock()
                }
            };
            guard_acquired();
            map_lock(r, |g| MutexGuard(Some(g)))
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point(K_LOCK);
            let r = self.0.try_lock();
            if !matches!(r, Err(TryLockError::WouldBlock)) {
                guard_acquired();
            }
            map_try(r, |g| MutexGuard(Some(g)))
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            self.0.take();
            guard_released();
            point(K_UNLOCK);
        }
    }

    #[derive(Default)]
    pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
    pub struct RwLockReadGuard<'a, T: ?Sized>(Option<std::sync::RwLockReadGuard<'a, T>>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(Option<std::sync::RwLockWriteGuard<'a, T>>);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock(std::sync::RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            point(K_LOCK);
            let r = match self.0.try_read() {
                Ok(g) => Ok(g),
                Err(TryLockError::Poisoned(e)) => Err(e),
                Err(TryLockError::WouldBlock) => {
                    contended();
                    self.0.read()
                }
            };
            guard_acquired();
            map_lock(r, |g| RwLockReadGuard(Some(g)))
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            point(K_LOCK);
            let r = match self.0.try_write() {
                Ok(g) => Ok(g),
                Err(TryLockError::Poisoned(e)) => Err(e),
                Err(TryLockError::WouldBlock) => {
                    contended();
                    self.0.write()
                }
            };
            guard_acquired();
            map_lock(r, |g| RwLockWriteGuard(Some(g)))
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            point(K_LOCK);
            let r = self.0.try_read();
            if !matches!(r, Err(TryLockError::WouldBlock)) {
                guard_acquired();
            }
            map_try(r, |g| RwLockReadGuard(Some(g)))
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            point(K_LOCK);
            let r = self.0.try_write();
            if !matches!(r, Err(TryLockError::WouldBlock)) {
                guard_acquired();
            }
            map_try(r, |g| RwLockWriteGuard(Some(g)))
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.0.take();
            guard_released();
            point(K_UNLOCK);
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            self.0.take();
            guard_released();
            point(K_UNLOCK);
        }
    }
}
