//! The worker program's diagnostics go nowhere.
pub mod fmt {
    pub mod time {
        pub struct LocalTime;
        impl LocalTime {
            pub fn rfc_3339() -> Self {
                LocalTime
            }
        }
        pub struct UtcTime;
        impl UtcTime {
            pub fn rfc_3339() -> Self {
                UtcTime
            }
        }
    }
    pub struct Builder;
    impl Builder {
        pub fn with_timer<T>(self, _: T) -> Self {
            self
        }
        pub fn with_env_filter<T>(self, _: T) -> Self {
            self
        }
        pub fn with_writer<T>(self, _: T) -> Self {
            self
        }
        pub fn with_ansi(self, _: bool) -> Self {
            self
        }
        pub fn with_target(self, _: bool) -> Self {
            self
        }
        pub fn with_max_level<T>(self, _: T) -> Self {
            self
        }
        pub fn init(self) {}
        pub fn try_init(self) -> Result<(), String> {
            Ok(())
        }
    }
}
pub fn fmt() -> fmt::Builder {
    fmt::Builder
}
pub struct EnvFilter;
impl EnvFilter {
    pub fn from_default_env() -> Self {
        EnvFilter
    }
    pub fn new<S: AsRef<str>>(_: S) -> Self {
        EnvFilter
    }
}
