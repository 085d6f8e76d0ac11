#![allow(unused, clippy::all)]
mod gen;
mod h;
mod hooks;
mod net;
#[path = "../../client/src/h/resp.rs"]
#[allow(dead_code)]
mod resp;
#[path = "../../client/src/rt.rs"]
mod rt;
#[path = "../../client/src/h/util.rs"]
#[allow(dead_code)]
mod util;
