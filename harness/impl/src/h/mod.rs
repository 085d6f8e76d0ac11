//! Harness entries over the generator's own code (compiled into its crate).
//! One feature per part, so that a part still builds when another does not.
#![allow(missing_docs, dead_code, unused)]
mod doc;

macro_rules! entries {
    ($($name:ident => $f:ident),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        pub fn lookup(n: &str) -> Option<fn()> {
            match n {
                $(stringify!($name) => Some($f as fn()),)*
                _ => None,
            }
        }
    };
}
#[cfg(feature = "template")]
mod template;
#[cfg(feature = "names")]
mod names;
#[cfg(feature = "validate")]
mod validate;
#[cfg(feature = "params")]
mod params;
#[cfg(feature = "ops")]
mod ops;
#[cfg(feature = "schema")]
mod schema;

pub fn lookup(n: &str) -> Option<fn()> {
    let mut f = None;
    #[cfg(feature = "template")]
    let f = f.or(template::lookup(n));
    #[cfg(feature = "names")]
    let f = f.or(names::lookup(n));
    #[cfg(feature = "validate")]
    let f = f.or(validate::lookup(n));
    #[cfg(feature = "params")]
    let f = f.or(params::lookup(n));
    #[cfg(feature = "ops")]
    let f = f.or(ops::lookup(n));
    #[cfg(feature = "schema")]
    let f = f.or(schema::lookup(n));
    f
}
