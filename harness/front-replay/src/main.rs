//! Native replay of the macro and cargo command harness; see client-replay.
#![allow(unused, clippy::all)]
#[path = "../../front/src/h/mod.rs"]
mod h;
#[path = "../../client/src/rt.rs"]
mod rt;
include!("../../common/native.rs");
fn lookup(name: &str) -> Option<fn()> {
    h::lookup(name)
}
