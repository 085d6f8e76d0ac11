//! Native replay of the generated-client harness; see client-replay.
#[path = "../../ops/src/gen.rs"]
mod gen;
#[path = "../../ops/src/h/mod.rs"]
mod h;
#[path = "../../ops/src/hooks.rs"]
mod hooks;
#[path = "../../ops/src/net.rs"]
mod net;
#[path = "../../client/src/h/resp.rs"]
#[allow(dead_code)]
mod resp;
#[path = "../../client/src/rt.rs"]
mod rt;
#[path = "../../client/src/h/util.rs"]
#[allow(dead_code)]
mod util;
include!("../../common/native.rs");
fn lookup(name: &str) -> Option<fn()> {
    h::lookup(name)
}
