#![allow(unused, clippy::all)]
mod gen;
mod h;
#[path = "../../ops/src/h/common.rs"]
mod common;
#[path = "../../ops/src/net.rs"]
mod net;
#[path = "../../client/src/h/resp.rs"]
#[allow(dead_code)]
mod resp;
#[path = "../../client/src/rt.rs"]
mod rt;
#[path = "../../client/src/h/util.rs"]
#[allow(dead_code)]
mod util;
