#![allow(unused, clippy::all)]
mod net;
use net::{net, answer};
pub mod c {
    pub mod reqwest {
        pub use ::reqwest::*;
        pub use crate::net::{Client, ClientBuilder};
    }
    include!("c.gen.rs");
}
fn reply(status: u16, body: &str) {
    let r = ::http::Response::builder().status(status).header("content-type", "application/json").body(body.to_string()).unwrap();
    answer(::reqwest::Response::from(r));
}
fn run<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}
const BASE: &str = "http://h.example";

pub mod hooks {
    use std::sync::Mutex;
    pub static LOG: Mutex<Vec<&str>> = Mutex::new(Vec::new());
    #[derive(Clone, Debug)]
    pub struct Inner;
    pub fn pre(_: &Inner, _: &reqwest::Request) {
        LOG.lock().unwrap().push("pre");
    }
    pub async fn pre_async(_: &Inner, _: &mut reqwest::Request) -> Result<(), String> {
        LOG.lock().unwrap().push("pre async");
        Ok(())
    }
    pub fn post(_: &Inner, _: &Result<reqwest::Response, reqwest::Error>) {
        LOG.lock().unwrap().push("post");
    }
    pub async fn post_async(_: &Inner, _: &Result<reqwest::Response, reqwest::Error>) -> Result<(), String> {
        LOG.lock().unwrap().push("post async");
        Ok(())
    }
}
fn main() {
    let c = c::Client::new_with_client(BASE, net::Client::new(), hooks::Inner);
    reply(200, "{\"name\":\"n\"}");
    run(c.one("i", None, &c::types::Thing { name: "n".into(), size: None })).unwrap();
    assert_eq!(*hooks::LOG.lock().unwrap(), ["pre", "pre async", "post", "post async"]);
}
