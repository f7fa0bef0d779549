//! clap, except that `parse` takes its arguments from here instead of the process.
pub use ::clap::*;
use std::sync::Mutex;
static ARGS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub fn set_args(a: &[&str]) {
    *ARGS.lock().unwrap() = a.iter().map(|s| s.to_string()).collect();
}
fn args() -> Vec<String> {
    ARGS.lock().unwrap().clone()
}
/// clap's own trait of this name with `args()` for `std::env::args_os()`
pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self {
        Self::parse_from(args())
    }
    fn try_parse() -> Result<Self, Error> {
        Self::try_parse_from(args())
    }
    fn parse_from<I, T>(itr: I) -> Self
    where
        I: IntoIterator<Item = T>,
        T: Into<std::ffi::OsString> + Clone,
    {
        match Self::try_parse_from(itr) {
            Ok(x) => x,
            Err(e) => e.exit(),
        }
    }
    fn try_parse_from<I, T>(itr: I) -> Result<Self, Error>
    where
        I: IntoIterator<Item = T>,
        T: Into<std::ffi::OsString> + Clone,
    {
        let mut m = Self::command().try_get_matches_from(itr)?;
        Self::from_arg_matches_mut(&mut m).map_err(|e| e.format(&mut Self::command()))
    }
}
