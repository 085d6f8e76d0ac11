#![allow(unused, clippy::all)]
mod h;
#[path = "../../client/src/rt.rs"]
mod rt;
