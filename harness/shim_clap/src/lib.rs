//! clap, except that a program's arguments and its end are the harness's.
pub use real_clap::*;
use shim_std::ffi::OsString;

pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self {
        Self::parse_from(shim_std::env::args_os())
    }
    fn try_parse() -> Result<Self, Error> {
        Self::try_parse_from(shim_std::env::args_os())
    }
    fn parse_from<I, T>(itr: I) -> Self
    where
        I: IntoIterator<Item = T>,
        T: Into<OsString> + Clone,
    {
        match Self::try_parse_from(itr) {
            Ok(x) => x,
            Err(e) => shim_std::process::exit(e.exit_code()),
        }
    }
    fn try_parse_from<I, T>(itr: I) -> Result<Self, Error>
    where
        I: IntoIterator<Item = T>,
        T: Into<OsString> + Clone,
    {
        let mut m = Self::command().try_get_matches_from(itr)?;
        Self::from_arg_matches_mut(&mut m)
    }
}
