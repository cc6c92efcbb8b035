//! lazy_static with one value per simulated process.
pub trait LazyStatic {
    fn initialize(lazy: &Self);
}
pub fn initialize<T: LazyStatic>(l: &T) {
    LazyStatic::initialize(l)
}
pub use wctl::slot;
#[macro_export]
macro_rules! lazy_static {
    () => {};
    ($(#[$a:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        #[allow(non_camel_case_types, dead_code)]
        $(#[$a])*
        $v struct $n { _pad: u8 }
        #[allow(dead_code)]
        $v static $n: $n = $n { _pad: 0 };
        impl ::core::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                fn init() -> $t { $e }
                $crate::slot(self as *const $n as usize, init)
            }
        }
        impl $crate::LazyStatic for $n {
            fn initialize(l: &Self) {
                let _ = &**l;
            }
        }
        $crate::lazy_static!($($rest)*);
    };
}
