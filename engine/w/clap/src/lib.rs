//! clap as seen by the worker program: the arguments are those of the simulated process.
pub use clap::*;
pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self {
        let args = wctl::with(wctl::cur(), |g| g.args.clone()).unwrap_or_default();
        match Self::try_parse_from(args) {
            Ok(v) => v,
            Err(e) => {
                if std::env::var("SIM_DEBUG").is_ok() {
                    eprintln!("{e}");
                }
                wctl::exit(2)
            }
        }
    }
    fn try_parse() -> Result<Self, Error> {
        Self::try_parse_from(wctl::with(wctl::cur(), |g| g.args.clone()).unwrap_or_default())
    }
    fn parse_from<I, T>(i: I) -> Self
    where
        I: IntoIterator<Item = T>,
        T: Into<std::ffi::OsString> + Clone,
    {
        Self::try_parse_from(i).unwrap_or_else(|_| wctl::exit(2))
    }
    fn try_parse_from<I, T>(i: I) -> Result<Self, Error>
    where
        I: IntoIterator<Item = T>,
        T: Into<std::ffi::OsString> + Clone,
    {
        let mut m = <Self as CommandFactory>::command().try_get_matches_from(i)?;
        <Self as FromArgMatches>::from_arg_matches_mut(&mut m)
    }
}
