//! Stand-in for clap with its derive macros (clap_derive is not available
//! offline): the real clap_builder, and arguments that a harness sets.
pub use clap_builder::*;
pub use clap_derive::{Args, Parser, Subcommand, ValueEnum};
use std::cell::RefCell;

thread_local! {
    static ARGV: RefCell<Vec<String>> = Default::default();
}
/// The command line that `Parser::parse` reads.
pub fn set_argv(a: Vec<String>) {
    ARGV.with(|v| *v.borrow_mut() = a);
}
pub trait Parser: Sized {
    fn spec(c: Command) -> Command;
    fn from(m: &mut ArgMatches) -> Self;
    fn command() -> Command {
        Self::spec(Command::new("x"))
    }
    fn try_parse_from<I, T>(i: I) -> Result<Self, Error>
    where
        I: IntoIterator<Item = T>,
        T: Into<std::ffi::OsString> + Clone,
    {
        let mut m = <Self as Parser>::command().try_get_matches_from(i)?;
        Ok(Self::from(&mut m))
    }
    fn try_parse() -> Result<Self, Error> {
        Self::try_parse_from(ARGV.with(|v| v.borrow().clone()))
    }
    fn parse() -> Self {
        match Self::try_parse() {
            Ok(x) => x,
            Err(e) => e.exit(),
        }
    }
}
