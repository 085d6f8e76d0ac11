#![allow(unused, clippy::all)]
mod net;
use net::{net, answer};
pub mod c {
    pub mod reqwest {
        pub use ::reqwest::*;
        pub use crate::net::{Client, ClientBuilder};
    }
    include!("c.gen.rs");
}
fn reply(status: u16, body: &str) {
    let r = ::http::Response::builder().status(status).header("content-type", "application/json").body(body.to_string()).unwrap();
    answer(::reqwest::Response::from(r));
}
fn run<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}
const BASE: &str = "http://h.example";

fn main() {
    use futures::TryStreamExt;
    let c = c::Client::new_with_client(BASE, net::Client::new());
    reply(200, "{\"items\":[\"a\"],\"next_page\":\"t\"}");
    reply(200, "{\"items\":[\"b\"]}");
    let all: Vec<String> = run(c.pages().id("i").x_h("v").stream().try_collect()).unwrap();
    assert_eq!(all, ["a", "b"]);
    assert_eq!(net().sent.len(), 2);
    for s in &net().sent {
        assert_eq!(s.headers.get("x-h").unwrap(), "v");
    }
}
