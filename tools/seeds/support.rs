#![allow(dead_code, unused_imports)]
pub use bytes::Bytes;
pub use futures_core::Stream;
pub use progenitor_client::*;
pub use serde::{Deserialize, Serialize};
pub use std::collections::VecDeque;
pub use std::future::Future;
pub use std::pin::Pin;
pub use std::task::{Context, Poll, Wake, Waker};

struct W;
impl Wake for W {
    fn wake(self: std::sync::Arc<Self>) {}
}
pub fn waker() -> Waker {
    Waker::from(std::sync::Arc::new(W))
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..100000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    panic!("never finished");
}
#[derive(Debug)]
pub struct Cause(pub u8, pub Option<Box<Cause>>);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cause {}", self.0)
    }
}
impl std::error::Error for Cause {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|c| &**c as &(dyn std::error::Error + 'static))
    }
}
pub enum Ev {
    Data(Vec<u8>),
    Wait,
    Fail(Cause),
}
pub struct Body(pub VecDeque<Ev>);
impl Stream for Body {
    type Item = Result<Bytes, Cause>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match self.0.pop_front() {
            None => Poll::Ready(None),
            Some(Ev::Data(b)) => Poll::Ready(Some(Ok(Bytes::from(b)))),
            Some(Ev::Wait) => Poll::Pending,
            Some(Ev::Fail(c)) => Poll::Ready(Some(Err(c))),
        }
    }
}
pub fn response(status: u16, hs: &[(&'static str, &[u8])], evs: Vec<Ev>) -> reqwest::Response {
    let mut r = http::Response::new(reqwest::Body::wrap_stream(Body(evs.into())));
    *r.status_mut() = http::StatusCode::from_u16(status).unwrap();
    for (n, v) in hs {
        r.headers_mut().append(http::HeaderName::from_static(n), http::HeaderValue::from_bytes(v).unwrap());
    }
    r.into()
}
pub fn client() -> reqwest::Client {
    reqwest::Client::builder().no_proxy().build().unwrap()
}
/// The decoded pairs of a request with this query parameter.
pub fn pairs<T: Serialize>(name: &str, v: &T) -> Result<Vec<(String, String)>, reqwest::Error> {
    let r = client().get("http://h/p").query(&QueryParam::new(name, v)).build()?;
    Ok(r.url().query_pairs().map(|(a, b)| (a.to_string(), b.to_string())).collect())
}
/// The decoded segments of a path with this parameter in the middle.
pub fn segments(v: &str) -> Vec<String> {
    let r = client().get(format!("http://h/a/{}/b", encode_path(v))).build().unwrap();
    assert_eq!((r.url().host_str(), r.url().query(), r.url().fragment()), (Some("h"), None, None));
    r.url().path().split('/').map(|s| {
        let p = format!("x={}", s.replace('+', "%2B"));
        url::form_urlencoded::parse(p.as_bytes()).next().unwrap().1.to_string()
    }).collect()
}
pub fn kv(n: &str, v: &str) -> (String, String) {
    (n.to_string(), v.to_string())
}
