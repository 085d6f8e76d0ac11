#![allow(unused, clippy::all)]
mod net;
use net::{net, answer};
pub mod mb {
    pub mod reqwest {
        pub use ::reqwest::*;
        pub use crate::net::{Client, ClientBuilder};
    }
    include!("mb.gen.rs");
}
pub mod mm {
    include!("mm.gen.rs");
}
fn reply(status: u16, body: &str) {
    let r = ::http::Response::builder().status(status).header("content-type", "application/json").body(body.to_string()).unwrap();
    answer(::reqwest::Response::from(r));
}
fn run<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}
const BASE: &str = "http://h.example";

use mm::MockServerExt;
fn main() {
    let srv = httpmock::MockServer::start();
    let m = srv.two(|w, _| drop(w.may(None).into_inner()));
    let c = mb::Client::new_with_client(BASE, net::Client::new());
    for may in [None, Some("v"), Some("")] {
        reply(200, "{\"name\":\"n\"}");
        let mut b = c.two().a("a").b("b").must("m");
        if let Some(v) = may {
            b = b.may(v);
        }
        run(b.send()).unwrap();
        let s = net().sent.last().unwrap();
        let r = httpmock::HttpMockRequest {
            path: s.url.path().to_string(),
            method: s.method.clone(),
            headers: None,
            query_params: Some(s.url.query_pairs().map(|(k, v)| (k.into_owned(), v.into_owned())).collect()),
            body: None,
        };
        assert_eq!(m.spec.borrow().matches(&r), may.is_none(), "{may:?}");
    }
}
