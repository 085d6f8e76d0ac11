#![allow(unused, clippy::all)]
mod net;
use net::{net, answer};
pub mod c {
    pub mod reqwest {
        pub use ::reqwest::*;
        pub use crate::net::{Client, ClientBuilder};
    }
    include!("c.gen.rs");
}
fn reply(status: u16, body: &str) {
    let r = ::http::Response::builder().status(status).header("content-type", "application/json").body(body.to_string()).unwrap();
    answer(::reqwest::Response::from(r));
}
fn run<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}
const BASE: &str = "http://h.example";

fn main() {
    let c = c::Client::new_with_client(BASE, net::Client::new());
    for v in [Some("v"), Some(""), None] {
        reply(204, "");
        run(c.find(v)).unwrap();
        assert_eq!(net().sent.last().unwrap().headers.get("x-h").map(|v| v.to_str().unwrap()), v);
    }
}
