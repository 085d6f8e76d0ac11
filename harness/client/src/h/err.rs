//! Errors: status, untyped conversion, text, sources.
use super::resp::*;
use crate::rt;
use bytes::Bytes;
use progenitor_client::{ByteStream, Error, ResponseValue};
use std::error::Error as _;

#[derive(Debug)]
pub struct Val(#[allow(dead_code)] u8);

struct One<C>(Option<C>);
impl<C> Unpin for One<C> {}
impl<C> futures_core::Stream for One<C> {
    type Item = Result<Bytes, C>;
    fn poll_next(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>> {
        std::task::Poll::Ready(self.0.take().map(Err))
    }
}
/// A client whose every host lookup fails.
struct Nowhere;
impl reqwest::dns::Resolve for Nowhere {
    fn resolve(&self, _: reqwest::dns::Name) -> reqwest::dns::Resolving {
        Box::pin(std::future::ready(Err::<reqwest::dns::Addrs, _>(Box::new(Cause(6, None)) as Box<dyn std::error::Error + Send + Sync>)))
    }
}
fn unsent(url: &str) -> reqwest::Error {
    let c = reqwest::Client::builder().no_proxy().dns_resolver(std::sync::Arc::new(Nowhere)).build().unwrap();
    match block_on(c.get(url).send(), 9) {
        Some(Err(e)) => e,
        _ => {
            rt::check(false, "error: a request to nowhere fails");
            unreachable!()
        }
    }
}

/// Reqwest's error for a body that fails with `c`.
fn broken<C: std::error::Error + Send + Sync + 'static>(c: C) -> reqwest::Error {
    let r = http::Response::new(reqwest::Body::wrap_stream(One(Some(c))));
    let r: reqwest::Response = r.into();
    match block_on(r.bytes(), 9) {
        Some(Err(e)) => e,
        _ => {
            rt::assume(false);
            unreachable!()
        }
    }
}

/// A reqwest error of some kind; returns the status it carries.
fn rerr() -> (reqwest::Error, Option<u16>) {
    match rt::choose(11) {
        0 => {
            let s = rt::u16();
            rt::assume(s >= 400 && s <= 599);
            let r = response(s, &vec![], vec![]);
            match r.error_for_status() {
                Err(e) => (e, Some(s)),
                Ok(_) => {
                    rt::assume(false);
                    unreachable!()
                }
            }
        }
        1 => (super::util::client().get("no-scheme").build().unwrap_err(), None),
        2 => {
            // a body failure with a chain of up to 13 causes
            let mut c = Cause(0, None);
            for i in 0..[0u8, 1, 2, 3, 12][rt::choose(5) as usize] {
                c = Cause(i + 1, Some(Box::new(c)));
            }
            (broken(c), None)
        }
        3 => {
            // causes that say the same, or nothing
            let mut c = Cause([0, 200, 201][rt::choose(3) as usize], None);
            for _ in 0..rt::choose(4) {
                c = Cause([200, 201][rt::choose(2) as usize], Some(Box::new(c)));
            }
            (broken(c), None)
        }
        4 => {
            // failures of the connection, some of which reqwest knows
            use std::io::ErrorKind::*;
            let k = [TimedOut, ConnectionReset, ConnectionAborted, ConnectionRefused, BrokenPipe, UnexpectedEof, NotConnected, Interrupted, Other]
                [rt::choose(9) as usize];
            let e = broken(std::io::Error::new(k, Cause(3, None)));
            rt::check(e.is_timeout() == matches!(k, TimedOut), "error: a timeout is told apart");
            (e, None)
        }
        5 => {
            // one that names its request's url
            let u: reqwest::Url = "http://h/p?q=1".parse().unwrap();
            (broken(Cause(2, Some(Box::new(Cause(1, None))))).with_url(u), None)
        }
        6 => match block_on(response(101, &vec![], vec![]).upgrade(), 9) {
            // an upgrade that fails
            Some(Err(e)) => (e, None),
            _ => {
                rt::assume(false);
                unreachable!()
            }
        },
        7 => {
            // a request that never reaches a server
            let e = unsent("http://h.example/p");
            rt::check(e.is_request() && e.is_connect(), "error: an unsent request is told apart");
            (e, None)
        }
        8 => {
            let e = unsent("gopher://h.example/p");
            rt::check(e.is_builder(), "error: an unsupported scheme is told apart");
            (e, None)
        }
        9 => {
            // a request body that fails
            use http_body::Body as _;
            let mut b = reqwest::Body::wrap_stream(One(Some(Cause(4, Some(Box::new(Cause(5, None)))))));
            let w = waker();
            match std::pin::Pin::new(&mut b).poll_frame(&mut std::task::Context::from_waker(&w)) {
                std::task::Poll::Ready(Some(Err(e))) => {
                    rt::check(e.is_body(), "error: a failing request body is told apart");
                    (e, None)
                }
                _ => {
                    rt::assume(false);
                    unreachable!()
                }
            }
        }
        _ => {
            // a decoding failure inside reqwest
            let r = response(200, &vec![], vec![Ev::Data(b"?".to_vec())]);
            match block_on(r.json::<u8>(), 9) {
                Some(Err(e)) => (e, None),
                _ => {
                    rt::assume(false);
                    unreachable!()
                }
            }
        }
    }
}

fn st() -> u16 {
    let s = rt::u16();
    rt::assume(s >= 100 && s <= 999);
    s
}

/// n < 100: any n bytes of UTF-8; otherwise n - 100 letters and digits.
fn text(n: u64) -> String {
    if n < 100 {
        rt::string(n as usize)
    } else if n < 200 {
        rt::word(n as usize - 100, 3)
    } else {
        // a long text with two free letters in it
        let n = n as usize - 100;
        format!("{}{}{}", rt::word(1, 3), "y".repeat(n - 2), rt::word(1, 3))
    }
}
/// A decoder's error: syntax, data, end of input, or a failing reader.
fn jerr(k: u8) -> serde_json::Error {
    struct Broken;
    impl std::io::Read for Broken {
        fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
            Err(std::io::Error::new(std::io::ErrorKind::TimedOut, Cause(7, Some(Box::new(Cause(8, None))))))
        }
    }
    match k {
        0 => serde_json::from_slice::<u8>(b"[\n x").unwrap_err(),
        1 => serde_json::from_slice::<bool>(b"\n \n  {}").unwrap_err(),
        2 => serde_json::from_slice::<bool>(b"tr").unwrap_err(),
        _ => serde_json::from_reader::<_, u8>(Broken).unwrap_err(),
    }
}
/// One error of every kind with its status by the API's contract.
fn mk(kind: u32, s: u16, hs: &Hdrs, text: &str, v: u8) -> (Error<Val>, Option<u16>) {
    match kind {
        0 => (Error::InvalidRequest(text.into()), None),
        1 => {
            let (e, s) = rerr();
            (Error::CommunicationError(e), s)
        }
        2 => {
            let (e, s) = rerr();
            (Error::InvalidUpgrade(e), s)
        }
        3 => {
            let r = response(s, hs, vec![]);
            (Error::ErrorResponse(ResponseValue::new(Val(v), r.status(), r.headers().clone())), Some(s))
        }
        4 => {
            let (e, s) = rerr();
            (Error::ResponseBodyError(e), s)
        }
        5 => (
            Error::InvalidResponsePayload(
                Bytes::copy_from_slice(text.as_bytes()),
                jerr(v % 4),
            ),
            None,
        ),
        6 => (
            Error::UnexpectedResponse(response(s, hs, vec![Ev::Data(text.as_bytes().to_vec())])),
            Some(s),
        ),
        7 => (Error::PreHookError(text.into()), None),
        _ => (Error::PostHookError(text.into()), None),
    }
}

/// arg0: kind
pub fn status() {
    let (e, want) = mk(rt::arg(0) as u32, st(), &headers(), &rt::string(1), rt::u8());
    let got = e.status().map(|s| s.as_u16());
    rt::check(
        match (got, want) {
            (Some(a), Some(b)) => a == b,
            (None, None) => true,
            _ => false,
        },
        "error: status of the response it came from",
    );
    let got = e.into_untyped().status().map(|s| s.as_u16());
    rt::check(
        match (got, want) {
            (Some(a), Some(b)) => a == b,
            (None, None) => true,
            _ => false,
        },
        "error: untyped keeps the status",
    );
}

/// arg0: kind
pub fn untyped() {
    let k = rt::arg(0) as u32;
    let s = st();
    let hs = headers();
    let t = text(rt::arg(1));
    let v = rt::u8();
    let (e, want) = mk(k, s, &hs, &t, v);
    // a reqwest error's identity: its text
    let before = match &e {
        Error::CommunicationError(e) | Error::InvalidUpgrade(e) | Error::ResponseBodyError(e) => {
            if want.is_some() {
                None
            } else {
                Some(chain(e))
            }
        }
        _ => None,
    };
    let id = "error: untyped keeps the kind and what it carries";
    let same_r = |e: &reqwest::Error| {
        (e.status().map(|s| s.as_u16()) == want) && before.as_ref().map(|b| *b == chain(e)).unwrap_or(true)
    };
    let ok = match e.into_untyped() {
        Error::InvalidRequest(x) => k == 0 && rt::same(x.as_bytes(), t.as_bytes()),
        Error::CommunicationError(e) => k == 1 && same_r(&e),
        Error::InvalidUpgrade(e) => k == 2 && same_r(&e),
        Error::ErrorResponse(rv) => k == 3 && (rv.status().as_u16() == s) & hdr_eq(rv.headers(), &hs),
        Error::ResponseBodyError(e) => k == 4 && same_r(&e),
        Error::InvalidResponsePayload(b, e) => {
            k == 5 && rt::same(&b, t.as_bytes()) && {
                let w = jerr(v % 4);
                e.line() == w.line() && e.column() == w.column() && e.classify() == w.classify() && eq(&chain(&e), &chain(&w))
            }
        }
        Error::UnexpectedResponse(r) => {
            k == 6
                && (r.status().as_u16() == s) & hdr_eq(r.headers(), &hs)
                && match block_on(r.bytes(), 9) {
                    Some(Ok(b)) => rt::same(&b, t.as_bytes()),
                    _ => false,
                }
        }
        Error::PreHookError(x) => k == 7 && rt::same(x.as_bytes(), t.as_bytes()),
        Error::PostHookError(x) => k == 8 && rt::same(x.as_bytes(), t.as_bytes()),
    };
    rt::check(ok, id);
}

fn chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(" / ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}
/// ": cause" for every cause below `e`.
fn causes(e: &dyn std::error::Error) -> String {
    let mut s = String::new();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(": ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}

fn eq(a: &str, b: &str) -> bool {
    rt::same(a.as_bytes(), b.as_bytes())
}

fn texts<E>(e: &Error<E>, plain: &str, deep: &str, id: &str)
where
    Error<E>: std::fmt::Display + std::fmt::Debug,
{
    let d = format!("{}", e);
    rt::out(d.as_bytes());
    rt::check(eq(&d, plain), id);
    rt::check(eq(&format!("{:?}", e), plain), "error: debug text is the display text");
    let full = format!("{}{}", plain, deep);
    rt::check(eq(&format!("{:#}", e), &full), "error: alternate text adds every cause in order");
    rt::check(eq(&format!("{:#?}", e), &full), "error: debug text is the display text");
}

/// arg0: kind; arg1: bytes of text
pub fn display() {
    let k = rt::arg(0) as u32;
    let t = text(rt::arg(1));
    let s = [200u16, 404, 299][if k == 3 || k == 6 { rt::choose(3) as usize } else { 0 }];
    let v = rt::u8();
    let hs: Hdrs = vec![("x-one", b"a\"b".to_vec())];
    let id = "error: text names the kind and its details";
    let (e, _) = if k == 9 || k == 10 { mk(0, s, &hs, &t, v) } else { mk(k, s, &hs, &t, v) };
    let r;
    let (plain, deep) = match &e {
        _ if k == 9 => {
            // streamed error body: never consumed for the text
            let r = response(s, &hs, vec![Ev::Data(vec![1])]);
            let rv: ResponseValue<ByteStream> = ResponseValue::stream(r);
            let plain = format!("Error Response: status: {}; headers: {:?}; value: <stream>", rv.status(), rv.headers());
            texts(&Error::ErrorResponse(rv), &plain, "", id);
            return;
        }
        _ if k == 10 => {
            let r = response(s, &hs, vec![]);
            let plain = format!("Error Response: status: {}; headers: {:?}; value: ()", r.status(), r.headers());
            let e: Error = Error::ErrorResponse(ResponseValue::empty(r));
            texts(&e, &plain, "", id);
            return;
        }
        Error::InvalidRequest(_) => (format!("Invalid Request: {}", t), String::new()),
        Error::CommunicationError(e) => (format!("Communication Error: {}", e), causes(e)),
        Error::ErrorResponse(rv) => (
            format!("Error Response: status: {}; headers: {:?}; value: {:?}", rv.status(), rv.headers(), Val(v)),
            String::new(),
        ),
        Error::InvalidUpgrade(e) => (format!("Invalid Response Upgrade: {}", e), causes(e)),
        Error::ResponseBodyError(e) => (format!("Invalid Response Body Bytes: {}", e), causes(e)),
        Error::InvalidResponsePayload(_, e) => (
            format!("Invalid Response Payload ({:?}): {}", Bytes::copy_from_slice(t.as_bytes()), e),
            causes(e),
        ),
        Error::UnexpectedResponse(_) => {
            r = response(s, &hs, vec![Ev::Data(t.as_bytes().to_vec())]);
            (format!("Unexpected Response: {:?}", r), String::new())
        }
        Error::PreHookError(_) => (format!("Pre-hook Error: {}", t), String::new()),
        Error::PostHookError(_) => (format!("Post-hook Error: {}", t), String::new()),
    };
    let src_ok = match &e {
        Error::CommunicationError(x) | Error::InvalidUpgrade(x) | Error::ResponseBodyError(x) => {
            e.source().map(|s| eq(&s.to_string(), &x.to_string())).unwrap_or(false)
        }
        Error::InvalidResponsePayload(_, x) => {
            e.source().map(|s| eq(&s.to_string(), &x.to_string())).unwrap_or(false)
        }
        _ => e.source().is_none(),
    };
    rt::check(src_ok, "error: source is the underlying error");
    texts(&e, &plain, &deep, id);
}

/// Conversions used by `?` in generated methods.
pub fn from() {
    match rt::choose(2) {
        0 => {
            let (r, s) = rerr();
            let want = chain(&r);
            let e: Error<Val> = r.into();
            match e {
                Error::CommunicationError(e) => {
                    rt::check(e.status().map(|s| s.as_u16()) == s && eq(&chain(&e), &want), "error: transport errors are communication errors")
                }
                _ => rt::check(false, "error: transport errors are communication errors"),
            }
        }
        _ => {
            let b = rt::bytes(rt::arg(0) as usize);
            let bad = b.iter().fold(false, |a, c| a | ((*c < 32 && *c != 9) | (*c == 127)));
            match http::HeaderValue::from_bytes(&b) {
                Ok(_) => rt::check(!bad, "error: header values"),
                Err(h) => {
                    let want = h.to_string();
                    let e: Error<Val> = h.into();
                    match e {
                        Error::InvalidRequest(s) => rt::check(eq(&s, &want), "error: bad header values are invalid requests"),
                        _ => rt::check(false, "error: bad header values are invalid requests"),
                    }
                }
            }
        }
    }
}
