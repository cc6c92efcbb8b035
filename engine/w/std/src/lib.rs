//! The standard library as seen by the worker program: environment, arguments, exit, sleeping and
//! static atomics belong to the simulated process.
pub use std::*;

pub mod env {
    pub use std::env::*;
    use std::ffi::{OsStr, OsString};
    pub fn var_os<K: AsRef<OsStr>>(k: K) -> Option<OsString> {
        let k = k.as_ref().to_string_lossy().to_string();
        wctl::with(wctl::cur(), |g| g.env.get(&k).map(|v| v.into())).flatten()
    }
    pub fn var<K: AsRef<OsStr>>(k: K) -> Result<String, VarError> {
        var_os(k).ok_or(VarError::NotPresent).and_then(|v| v.into_string().map_err(VarError::NotUnicode))
    }
    pub fn remove_var<K: AsRef<OsStr>>(k: K) {
        let k = k.as_ref().to_string_lossy().to_string();
        wctl::with(wctl::cur(), |g| g.env.remove(&k));
    }
    pub fn set_var<K: AsRef<OsStr>, V: AsRef<OsStr>>(k: K, v: V) {
        let k = k.as_ref().to_string_lossy().to_string();
        let v = v.as_ref().to_string_lossy().to_string();
        wctl::with(wctl::cur(), |g| g.env.insert(k, v));
    }
    pub fn args() -> std::vec::IntoIter<String> {
        wctl::with(wctl::cur(), |g| g.args.clone()).unwrap_or_default().into_iter()
    }
    pub fn args_os() -> std::vec::IntoIter<OsString> {
        args().map(|s| s.into()).collect::<Vec<_>>().into_iter()
    }
}
pub mod process {
    pub use std::process::*;
    pub fn exit(code: i32) -> ! {
        wctl::exit(code)
    }
    pub fn abort() -> ! {
        wctl::exit(-6)
    }
    pub fn id() -> u32 {
        wctl::with(wctl::cur(), |g| g.pid).unwrap_or(1)
    }
}
pub mod thread {
    pub use std::thread::*;
    pub fn sleep(d: std::time::Duration) {
        wctl::block_sleep(d)
    }
}
pub mod sync {
    pub use std::sync::*;
    pub mod atomic {
        pub use std::sync::atomic::*;
        macro_rules! atom {
            ($name:ident, $t:ty, $from:expr, $to:expr) => {
                pub struct $name($t);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        $name(v)
                    }
                    fn a(&self) -> usize {
                        self as *const Self as usize
                    }
                    pub fn load(&self, _: Ordering) -> $t {
                        $from(wctl::atom(self.a(), $to(self.0)))
                    }
                    pub fn store(&self, v: $t, _: Ordering) {
                        wctl::atom_set(self.a(), $to(v))
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        let r = self.load(o);
                        self.store(v, o);
                        r
                    }
                    pub fn compare_exchange(&self, c: $t, n: $t, o: Ordering, _: Ordering) -> Result<$t, $t> {
                        let r = self.load(o);
                        if r == c {
                            self.store(n, o);
                            Ok(r)
                        } else {
                            Err(r)
                        }
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                        let r = self.load(o);
                        match f(r) {
                            Some(n) => {
                                self.store(n, o);
                                Ok(r)
                            }
                            None => Err(r),
                        }
                    }
                }
                impl Drop for $name {
                    fn drop(&mut self) {
                        wctl::atom_drop(self.a())
                    }
                }
                impl Default for $name {
                    fn default() -> Self {
                        Self::new(Default::default())
                    }
                }
            };
        }
        atom!(AtomicBool, bool, |v: u64| v != 0, |v: bool| v as u64);
        atom!(AtomicU32, u32, |v: u64| v as u32, |v: u32| v as u64);
        atom!(AtomicU64, u64, |v: u64| v, |v: u64| v);
        atom!(AtomicUsize, usize, |v: u64| v as usize, |v: usize| v as u64);
        atom!(AtomicI32, i32, |v: u64| v as i32, |v: i32| v as u32 as u64);
        impl AtomicBool {
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
                let r = self.load(o);
                self.store(r | v, o);
                r
            }
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
                let r = self.load(o);
                self.store(r & v, o);
                r
            }
        }
        macro_rules! arith {
            ($($name:ident $t:ty),*) => {$(
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                        let r = self.load(o);
                        self.store(r.wrapping_add(v), o);
                        r
                    }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                        let r = self.load(o);
                        self.store(r.wrapping_sub(v), o);
                        r
                    }
                }
            )*};
        }
        arith!(AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI32 i32);
    }
    /// One value per simulated process.
    pub struct OnceLock<T: 'static>(std::marker::PhantomData<T>, u8);
    impl<T: 'static> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock(std::marker::PhantomData, 0)
        }
        fn cell(&self) -> &'static std::cell::OnceCell<T> {
            wctl::slot(self as *const Self as usize, std::cell::OnceCell::new)
        }
        pub fn get(&self) -> Option<&T> {
            self.cell().get()
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            self.cell().set(v)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            self.cell().get_or_init(f)
        }
    }
    unsafe impl<T> Sync for OnceLock<T> {}
    unsafe impl<T> Send for OnceLock<T> {}
}
