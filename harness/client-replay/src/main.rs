//! Native replay: runs one harness entry with the assignment found by the
//! solver against the natively compiled client.
//! usage: sxclient-replay ENTRY ARGS DRAWS   (comma separated numbers)
//! exit: 0 all checks hold, 1 a check failed, 101 panic, 77 assumption false.
#[path = "../../client/src/h/mod.rs"]
mod h;
#[path = "../../client/src/rt.rs"]
mod rt;
include!("../../common/native.rs");
fn lookup(name: &str) -> Option<fn()> {
    h::lookup(name)
}
