#![allow(unused, clippy::all)]
mod net;
use net::{net, answer};
pub mod tb {
    pub mod reqwest {
        pub use ::reqwest::*;
        pub use crate::net::{Client, ClientBuilder};
    }
    include!("tb.gen.rs");
}
pub mod tc {
    include!("tc.gen.rs");
}
fn reply(status: u16, body: &str) {
    let r = ::http::Response::builder().status(status).header("content-type", "application/json").body(body.to_string()).unwrap();
    answer(::reqwest::Response::from(r));
}
fn run<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}
const BASE: &str = "http://h.example";

struct Quiet;
impl tc::CliConfig for Quiet {
    fn success_item<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, _: &progenitor_client::ResponseValue<T>) {}
    fn success_no_item(&self, _: &progenitor_client::ResponseValue<()>) {}
    fn error<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, _: &progenitor_client::Error<T>) {}
    fn list_start<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self) {}
    fn list_item<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, _: &T) {}
    fn list_end_success<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self) {}
    fn list_end_error<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, _: &progenitor_client::Error<T>) {}
}
fn main() {
    let parse = |a: &[&str]| {
        let a: Vec<String> = a.iter().map(|s| s.to_string()).collect();
        tc::Cli::<Quiet>::get_command(tc::CliCommand::Walk).no_binary_name(true).try_get_matches_from(a).is_ok()
    };
    assert!(parse(&["--filter=f"]));
    assert!(!parse(&[]));
}
