//! Native replay of the command-line and mock harness; see client-replay.
#![allow(unused, clippy::all)]
#[path = "../../tools/src/gen.rs"]
mod gen;
#[path = "../../tools/src/h/mod.rs"]
mod h;
#[path = "../../ops/src/h/common.rs"]
mod common;
#[path = "../../ops/src/net.rs"]
mod net;
#[path = "../../client/src/h/resp.rs"]
#[allow(dead_code)]
mod resp;
#[path = "../../client/src/rt.rs"]
mod rt;
#[path = "../../client/src/h/util.rs"]
#[allow(dead_code)]
mod util;
include!("../../common/native.rs");
fn lookup(name: &str) -> Option<fn()> {
    h::lookup(name)
}
