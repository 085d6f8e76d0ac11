#![allow(unused, clippy::all)]
mod net;
use net::{net, answer};
pub mod c {
    pub mod reqwest {
        pub use ::reqwest::*;
        pub use crate::net::{Client, ClientBuilder};
    }
    include!("c.gen.rs");
}
fn reply(status: u16, body: &str) {
    let r = ::http::Response::builder().status(status).header("content-type", "application/json").body(body.to_string()).unwrap();
    answer(::reqwest::Response::from(r));
}
fn run<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}
const BASE: &str = "http://h.example";

fn main() {
    let c = c::Client::new_with_client(BASE, net::Client::new());
    reply(204, "");
    assert!(run(c.find().k("nope").send()).is_err());
    assert!(run(c.find().k("one").k("nope").send()).is_err());
    assert!(net().sent.is_empty());
    assert!(run(c.find().k("nope").k("one").send()).is_ok());
}
