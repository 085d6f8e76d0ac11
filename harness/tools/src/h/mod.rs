//! Harness entries over generated command lines and mocks.
mod cli;
mod mock;
use crate::common;

macro_rules! entries {
    ($($name:ident => $f:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        #[allow(dead_code)]
        pub fn lookup(n: &str) -> Option<fn()> {
            match n {
                $(stringify!($name) => Some($f as fn()),)*
                _ => None,
            }
        }
    };
}
entries! {
    t_cli_view => cli::view,
    t_cli_values => cli::values,
    t_cli_body => cli::body,
    t_cli_body_file => cli::body_file,
    t_cli_results => cli::results,
    t_cli_pages => cli::pages,
    t_cli_commands => cli::commands,
    t_mock_match => mock::matching,
    t_mock_other => mock::other,
    t_mock_body => mock::body,
    t_mock_answer => mock::answers,
    t_mock_special => mock::special,
}
