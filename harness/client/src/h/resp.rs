//! Responses: decoding, streaming, emptiness, upgrade refusal, accessors.
use crate::rt;
use bytes::Bytes;
use futures_core::Stream;
use progenitor_client::{ByteStream, Error, ResponseValue};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
pub fn waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
/// Polls to completion; None after `n` polls without one.
pub fn block_on<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..n {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
    }
    None
}

#[derive(Debug)]
pub struct Cause(pub u8, pub Option<Box<Cause>>);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        if f.alternate() {
            // a cause may tell its own causes when asked to
            f.write_char('#')?;
        }
        if self.0 >= 200 {
            // 200: a cause with nothing to say; from 201 on all alike
            return f.write_str(if self.0 == 200 { "" } else { "alike" });
        }
        f.write_str("cause ")?;
        f.write_char((b'a' + self.0 % 26) as char)
    }
}
impl std::error::Error for Cause {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|c| &**c as &(dyn std::error::Error + 'static))
    }
}

#[derive(Clone)]
pub enum Ev {
    Data(Vec<u8>),
    Wait,
    Fail,
    /// Fails with an I/O error of the given kind.
    FailIo(std::io::ErrorKind),
}
pub const KINDS: [std::io::ErrorKind; 4] = [std::io::ErrorKind::TimedOut, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::InvalidData];
/// A body that delivers exactly these events.
pub struct Body(VecDeque<Ev>);
impl Stream for Body {
    type Item = Result<Bytes, Box<dyn std::error::Error + Send + Sync>>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match self.0.pop_front() {
            None => Poll::Ready(None),
            Some(Ev::Data(b)) => Poll::Ready(Some(Ok(Bytes::from(b)))),
            Some(Ev::Wait) => Poll::Pending,
            Some(Ev::Fail) => Poll::Ready(Some(Err(Box::new(Cause(1, None))))),
            Some(Ev::FailIo(k)) => Poll::Ready(Some(Err(Box::new(std::io::Error::from(k))))),
        }
    }
}

pub type Hdrs = Vec<(&'static str, Vec<u8>)>;

pub fn response(status: u16, hs: &Hdrs, evs: Vec<Ev>) -> reqwest::Response {
    whole(status, hs, reqwest::Body::wrap_stream(Body(evs.into())))
}
/// A response whose body is at hand and its length known.
pub fn at_hand(status: u16, hs: &Hdrs, body: &[u8]) -> reqwest::Response {
    whole(status, hs, reqwest::Body::from(body.to_vec()))
}
fn whole(status: u16, hs: &Hdrs, body: reqwest::Body) -> reqwest::Response {
    let mut r = http::Response::new(body);
    *r.status_mut() = match http::StatusCode::from_u16(status) {
        Ok(s) => s,
        Err(_) => {
            rt::assume(false);
            unreachable!()
        }
    };
    for (n, v) in hs {
        let v = match http::HeaderValue::from_bytes(v) {
            Ok(v) => v,
            Err(_) => {
                rt::assume(false);
                unreachable!()
            }
        };
        r.headers_mut().append(http::HeaderName::from_static(n), v);
    }
    r.into()
}
fn status() -> u16 {
    let s = rt::u16();
    rt::assume(s >= 100 && s <= 999);
    s
}
pub fn headers() -> Hdrs {
    let mut v = vec![("x-one", rt::bytes(1)), ("x-two", b"2".to_vec()), ("x-one", b"again".to_vec())];
    match rt::choose(3) {
        0 => {}
        1 => {
            v.push(("content-type", b"text/plain".to_vec()));
            v.push(("content-length", b"3".to_vec()));
        }
        _ => {
            // what proxies and connections care about
            for (n, t) in [("content-length", "0"), ("content-length", "12"), ("content-encoding", "gzip"), ("transfer-encoding", "chunked"), ("connection", "upgrade"), ("upgrade", "websocket"), ("set-cookie", "a=b"), ("set-cookie", "c=d"), ("location", "/"), ("content-type", "application/json")] {
                v.push((n, t.as_bytes().to_vec()));
            }
        }
    }
    v
}
/// Same multimap, keeping the order of values per name.
pub fn hdr_eq(h: &http::HeaderMap, want: &Hdrs) -> bool {
    let mut ok = h.len() == want.len();
    for (n, _) in want {
        let got: Vec<&[u8]> = h.get_all(*n).iter().map(|v| v.as_bytes()).collect();
        let w: Vec<&[u8]> = want.iter().filter(|(m, _)| m == n).map(|(_, v)| &v[..]).collect();
        if got.len() != w.len() {
            return false;
        }
        for i in 0..w.len() {
            ok &= rt::same(got[i], w[i]);
        }
    }
    ok
}
fn meta_ok<T>(rv: &ResponseValue<T>, st: u16, hs: &Hdrs) -> bool {
    (rv.status().as_u16() == st) & hdr_eq(rv.headers(), hs)
}

/// Splits `b` into events: choices of cut points, waits and empty chunks.
fn events(b: &[u8], split: u64) -> Vec<Ev> {
    match split {
        0 => vec![Ev::Data(b.to_vec())],
        1 => {
            let k = rt::choose(b.len() as u32 + 1) as usize;
            let mut v = vec![];
            if rt::choose(2) == 1 {
                v.push(Ev::Wait);
            }
            v.push(Ev::Data(b[..k].to_vec()));
            if rt::choose(2) == 1 {
                v.push(Ev::Wait);
                v.push(Ev::Data(vec![]));
            }
            v.push(Ev::Data(b[k..].to_vec()));
            v
        }
        _ => {
            let mut v = vec![];
            for x in b {
                v.push(Ev::Wait);
                v.push(Ev::Data(vec![*x]));
            }
            v
        }
    }
}

fn decode<T: serde::de::DeserializeOwned + PartialEq>(b: Vec<u8>, split: u64) {
    let st = status();
    let hs = headers();
    let r = if split == 3 { at_hand(st, &hs, &b) } else { response(st, &hs, events(&b, split)) };
    let want = serde_json::from_slice::<T>(&b);
    match (block_on(ResponseValue::<T>::from_response::<u8>(r), 64), want) {
        (Some(Ok(rv)), Ok(w)) => {
            rt::out(b"ok");
            rt::check(meta_ok(&rv, st, &hs), "decode: status and headers kept");
            let same = rv.into_inner() == w;
            rt::check(same, "decode: value is the JSON body's");
        }
        (Some(Err(Error::InvalidResponsePayload(p, e))), Err(w)) => {
            rt::out(b"invalid");
            rt::check(rt::same(&p, &b), "decode: an undecodable body is returned byte for byte");
            rt::check(
                e.line() == w.line() && e.column() == w.column() && e.classify() == w.classify(),
                "decode: the decoder's own error",
            );
        }
        (None, _) => rt::check(false, "decode: finishes when the body does"),
        (Some(Ok(_)), Err(_)) => rt::check(false, "decode: an undecodable body is an error"),
        (Some(Err(_)), Ok(_)) => rt::check(false, "decode: a decodable body is accepted"),
        (Some(Err(_)), Err(_)) => rt::check(false, "decode: an undecodable body is a payload error"),
    }
}

#[derive(serde::Deserialize, PartialEq)]
struct Obj {
    #[allow(dead_code)]
    a: u8,
    b: Option<bool>,
}
#[derive(serde::Deserialize, PartialEq)]
enum En {
    #[serde(rename = "x")]
    X,
    Y(u8),
}

/// arg0 type, arg1 symbolic bytes, arg2 chunking.
pub fn from_response() {
    let n = rt::arg(1) as usize;
    let sp = rt::arg(2);
    match rt::arg(0) {
        0 => decode::<u8>(rt::bytes(n), sp),
        1 => decode::<bool>(rt::bytes(n), sp),
        2 => {
            let mut b = vec![b'"'];
            b.extend(rt::bytes(n));
            b.push(b'"');
            decode::<String>(b, sp)
        }
        3 => decode::<Option<u8>>(rt::bytes(n), sp),
        4 => decode::<Vec<u8>>(rt::bytes(n), sp),
        5 => {
            let mut b = b"{\"a\":".to_vec();
            let x = rt::bytes(n);
            // strings and newlines only exercise the decoder's message formatting
            rt::assume(x.iter().fold(true, |a, c| a & (*c != b'"') & (*c != b'\n')));
            b.extend(x);
            b.extend(b",\"b\":true}");
            let t = rt::u8();
            rt::assume(t != b'\n');
            b.push(t);
            decode::<Obj>(b, sp)
        }
        6 => {
            let mut b = b"{\"Y\":".to_vec();
            b.extend(rt::bytes(n));
            b.push(b'}');
            decode::<En>(b, sp)
        }
        7 => decode::<()>(rt::bytes(n), sp),
        8 => {
            let mut b = b"nul".to_vec();
            b.extend(rt::bytes(n));
            decode::<()>(b, sp)
        }
        9 => {
            let mut b = b"tru".to_vec();
            b.extend(rt::bytes(n));
            decode::<bool>(b, sp)
        }
        10 => {
            let mut b = rt::bytes(n);
            b.extend(b"\"x\"");
            b.extend(rt::bytes(1));
            decode::<En>(b, sp)
        }
        12 => {
            // byte order mark, then text
            let mut b = vec![0xef, 0xbb, 0xbf];
            b.extend(rt::bytes(n));
            decode::<u8>(b, sp)
        }
        _ => {
            // long body, one symbolic filler
            let f = rt::u8();
            let mut b = vec![b'"'];
            b.extend(vec![f; n]);
            b.push(rt::u8());
            b.push(b'"');
            decode::<String>(b, sp)
        }
    }
}

/// A body that breaks off is never a value; arg0: bytes before the failure.
pub fn body_error() {
    let n = rt::arg(0) as usize;
    let st = status();
    let mut b = rt::bytes(n);
    let mut evs = vec![];
    if rt::choose(2) == 1 {
        evs.push(Ev::Wait);
    }
    if n == 0 || rt::choose(2) == 1 {
        // a complete document precedes the failure
        b = b"17".to_vec();
    }
    // what the headers promise may have arrived already
    let len = b.len().to_string().into_bytes();
    let hs: Hdrs = match rt::choose(4) {
        0 => vec![],
        1 => vec![("content-length", len)],
        2 => vec![("content-length", b"4096".to_vec()), ("connection", b"close".to_vec())],
        _ => vec![("transfer-encoding", b"chunked".to_vec()), ("content-type", b"application/json".to_vec())],
    };
    evs.push(Ev::Data(b));
    if rt::choose(2) == 1 {
        evs.push(Ev::Wait);
    }
    let kind = rt::choose(1 + KINDS.len() as u32) as usize;
    let kind = if kind == 0 { None } else { Some(KINDS[kind - 1]) };
    evs.push(match kind {
        None => Ev::Fail,
        Some(k) => Ev::FailIo(k),
    });
    if rt::choose(2) == 1 {
        evs.push(Ev::Data(b"1".to_vec()));
    }
    let r = response(st, &hs, evs);
    match block_on(ResponseValue::<u8>::from_response::<u8>(r), 64) {
        Some(Err(Error::ResponseBodyError(e))) => {
            use std::error::Error as _;
            let mut src = e.source();
            let mut seen = false;
            while let Some(s) = src {
                seen |= match kind {
                    None => s.downcast_ref::<Cause>().is_some(),
                    Some(k) => s.downcast_ref::<std::io::Error>().map(|e| e.kind() == k).unwrap_or(false),
                };
                src = s.source();
            }
            rt::check(seen, "body error: carries the transport's cause");
        }
        _ => rt::check(false, "body error: a broken-off body is a body error"),
    }
}

/// arg0 chunks of one symbolic byte, interleaved with waits and a failure.
pub fn stream() {
    let n = rt::arg(0) as usize;
    let st = status();
    let hs = headers();
    let mut evs = vec![];
    for _ in 0..n {
        match rt::choose(4) {
            0 => evs.push(Ev::Wait),
            1 => evs.push(Ev::Data(rt::bytes(1))),
            2 => evs.push(Ev::Data(rt::bytes(2))),
            _ => evs.push(if st % 2 == 0 { Ev::Fail } else { Ev::FailIo(KINDS[st as usize / 2 % KINDS.len()]) }),
        }
    }
    let script = evs.clone();
    let rv = ResponseValue::stream(response(st, &hs, evs));
    rt::check(meta_ok(&rv, st, &hs), "stream: status and headers kept");
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut s = match rt::choose(2) {
        0 => rv.into_inner_stream(),
        _ => rv.into_inner().into_inner(),
    };
    let mut ok = true;
    for e in script {
        let p = s.as_mut().poll_next(&mut cx);
        match (e, p) {
            (Ev::Wait, Poll::Pending) => {}
            (Ev::Data(d), Poll::Ready(Some(Ok(b)))) => {
                rt::out(&b);
                ok &= rt::same(&d, &b)
            }
            (Ev::Fail | Ev::FailIo(_), Poll::Ready(Some(Err(_)))) => {
                // an error ends the delivery
                rt::check(ok, "stream: bytes arrive unchanged and in order");
                return;
            }
            _ => {
                rt::check(false, "stream: every event arrives when it happens");
                return;
            }
        }
    }
    rt::check(ok, "stream: bytes arrive unchanged and in order");
    rt::check(matches!(s.as_mut().poll_next(&mut cx), Poll::Ready(None)), "stream: ends when the body ends");
}

/// arg0 chunks of arg1 bytes each: a long transfer with few variables.
pub fn stream_long() {
    let (n, m) = (rt::arg(0) as usize, rt::arg(1) as usize);
    let (f, g) = (rt::u8(), rt::u8());
    let mut evs = vec![];
    for i in 0..n {
        let mut c = vec![f; m];
        if m > 0 {
            c[i % m] = g;
        }
        evs.push(Ev::Data(c));
    }
    let script = evs.clone();
    let rv = ResponseValue::stream(response(200, &vec![], evs));
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut s = rv.into_inner_stream();
    let (mut got, mut want) = (vec![], vec![]);
    for e in script {
        if let Ev::Data(d) = e {
            want.extend(d);
        }
    }
    for _ in 0..=n {
        match s.as_mut().poll_next(&mut cx) {
            Poll::Ready(Some(Ok(b))) => got.extend_from_slice(&b),
            Poll::Ready(None) => break,
            _ => {
                rt::check(false, "stream: a long transfer arrives unchanged");
                return;
            }
        }
    }
    rt::check(rt::same(&got, &want), "stream: a long transfer arrives unchanged");
}

/// ByteStream::new / Deref keep the stream.
pub fn byte_stream() {
    let n = rt::arg(0) as usize;
    let b = rt::bytes(n);
    struct Own(VecDeque<u8>);
    impl Stream for Own {
        type Item = reqwest::Result<Bytes>;
        fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            Poll::Ready(self.0.pop_front().map(|b| Ok(Bytes::from(vec![b]))))
        }
    }
    let mut s = ByteStream::new(Box::pin(Own(b.clone().into())));
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut got = vec![];
    for _ in 0..=n {
        match s.as_mut().poll_next(&mut cx) {
            Poll::Ready(Some(Ok(x))) => got.extend_from_slice(&x),
            _ => break,
        }
    }
    rt::check(rt::same(&got, &b), "stream: a fixture stream is passed through");
    rt::check(
        matches!(s.into_inner().as_mut().poll_next(&mut cx), Poll::Ready(None)),
        "stream: a fixture stream is passed through",
    );
}

/// Polls counted: an empty response never touches the body.
pub fn empty() {
    let st = status();
    let hs = headers();
    let r = match rt::choose(6) {
        0 => response(st, &hs, vec![]),
        5 => response(st, &hs, vec![Ev::FailIo(KINDS[rt::choose(4) as usize])]),
        1 => response(st, &hs, vec![Ev::Fail]),
        2 => response(st, &hs, vec![Ev::Wait, Ev::Data(rt::bytes(1))]),
        3 => at_hand(st, &hs, b""),
        _ => at_hand(st, &hs, &rt::bytes(2)),
    };
    let rv = ResponseValue::empty(r);
    rt::check(meta_ok(&rv, st, &hs), "empty: status and headers kept, whatever the body");
}

/// A body at hand, of arg0 bytes, as a stream.
pub fn stream_at_hand() {
    let st = status();
    let hs = headers();
    let b = rt::bytes(rt::arg(0) as usize);
    let rv = ResponseValue::stream(at_hand(st, &hs, &b));
    rt::check(meta_ok(&rv, st, &hs), "stream: status and headers kept");
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut s = rv.into_inner_stream();
    let mut got = vec![];
    let mut ok = false;
    for _ in 0..8 {
        match s.as_mut().poll_next(&mut cx) {
            Poll::Ready(Some(Ok(d))) => got.extend_from_slice(&d),
            Poll::Ready(None) => {
                ok = true;
                break;
            }
            _ => break,
        }
    }
    rt::check(ok && rt::same(&got, &b), "stream: bytes arrive unchanged and in order");
}

/// Every status; only 101 may be upgraded, and only by a real upgrade.
pub fn upgrade() {
    let st = status();
    let hs = headers();
    let b = rt::bytes(rt::arg(0) as usize);
    let r = if rt::choose(2) == 1 {
        let mut two = b.clone();
        two.extend(&b);
        at_hand(st, &hs, &two)
    } else {
        response(st, &hs, vec![Ev::Data(b.clone()), Ev::Wait, Ev::Data(b.clone())])
    };
    let res = block_on(ResponseValue::<reqwest::Upgraded>::upgrade::<u8>(r), 64);
    if st == 101 {
        rt::reach("101");
        rt::check(
            matches!(res, Some(Err(Error::InvalidUpgrade(_)))),
            "upgrade: a 101 that cannot be upgraded is an invalid upgrade",
        );
        return;
    }
    match res {
        Some(Err(Error::UnexpectedResponse(r))) => {
            let mut two = b.clone();
            two.extend(&b);
            rt::check((r.status().as_u16() == st) & hdr_eq(r.headers(), &hs), "upgrade: refused response intact");
            let body = block_on(r.bytes(), 64);
            rt::check(
                match body {
                    Some(Ok(x)) => rt::same(&x, &two),
                    _ => false,
                },
                "upgrade: refused response's body intact",
            );
        }
        _ => rt::check(false, "upgrade: any other status is an unexpected response"),
    }
}

/// Tells which options it was shown with.
struct Shown(u8);
impl std::fmt::Debug for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        for c in [
            f.alternate() as usize,
            f.sign_plus() as usize,
            f.sign_aware_zero_pad() as usize,
            f.width().unwrap_or(30),
            f.precision().unwrap_or(30),
            f.fill() as usize % 32,
        ] {
            f.write_char((b'A' + c as u8) as char)?;
        }
        f.write_char((self.0 % 64 + 32) as char)
    }
}
#[derive(Debug, PartialEq, Clone)]
struct Pay(u64, Vec<u8>);

/// new/map/accessors; arg0 bytes of payload.
pub fn accessors() {
    let st = status();
    let hs = headers();
    let n = rt::arg(0) as usize;
    let p = Pay(rt::u64(), rt::bytes(n));
    let r = response(st, &hs, vec![]);
    let (sc, hm) = (r.status(), r.headers().clone());
    let mut rv = ResponseValue::new(p.clone(), sc, hm);
    let eq = |x: &Pay, y: &Pay| (x.0 == y.0) & rt::same(&x.1, &y.1);
    rt::check(meta_ok(&rv, st, &hs), "value: status and headers as given");
    rt::check(eq(&rv, &p) & eq(rv.as_ref(), &p), "value: reads as the inner value");
    if n == 0 {
        // with every formatting option the caller may ask for
        let s = Shown(p.0 as u8);
        let rs = response(st, &hs, vec![]);
        let v = ResponseValue::new(s, rs.status(), rs.headers().clone());
        let same = match rt::choose(6) {
            0 => format!("{:?}", v) == format!("{:?}", *v),
            1 => format!("{:#?}", v) == format!("{:#?}", *v),
            2 => format!("{:x?}", v) == format!("{:x?}", *v),
            3 => format!("{:8.3?}", v) == format!("{:8.3?}", *v),
            4 => format!("{:<+09?}", v) == format!("{:<+09?}", *v),
            _ => format!("{:#?}", Some(&v)) == format!("{:#?}", Some(&*v)),
        };
        rt::check(same, "value: shown as the inner value is");
    }
    if rt::choose(2) == 1 {
        let k = rt::u64();
        rv.0 = k;
        rt::check((rv.0 == k) & rt::same(&rv.1, &p.1), "value: writes reach the inner value");
        rt::check(meta_ok(&rv, st, &hs), "value: status and headers as given");
        return;
    }
    match rt::choose(2) {
        0 => rt::check(eq(&rv.into_inner(), &p), "value: into_inner is the inner value"),
        _ => {
            let m: Result<ResponseValue<(Pay, u8)>, ()> = rv.map(|x| (x, 9));
            match m {
                Ok(m) => {
                    rt::check(meta_ok(&m, st, &hs), "value: map keeps status and headers");
                    rt::check(eq(&m.0, &p) && m.1 == 9, "value: map applies to the inner value");
                }
                Err(_) => rt::check(false, "value: map applies to the inner value"),
            }
        }
    }
}

fn digits_value(b: &[u8]) -> Option<u64> {
    if b.is_empty() {
        return None;
    }
    let mut x: u64 = 0;
    for c in b {
        if *c < b'0' || *c > b'9' {
            return None;
        }
        x = x.checked_mul(10)?.checked_add((*c - b'0') as u64)?;
    }
    Some(x)
}
/// arg0: 0 any bytes, 1 filler digit pattern, 2 absent; arg1 length, arg2: see below.
pub fn content_length() {
    let n = rt::arg(1) as usize;
    let v = match rt::arg(0) {
        0 => rt::bytes(n),
        1 => {
            // a long numeral with one symbolic digit repeated; arg2: with a
            // fixed leading numeral at the edge of the range
            let f = rt::u8();
            const LEAD: [&[u8]; 6] = [b"", b"1844674407370955161", b"0000", b"18446744073709551615", b"9", b"-"];
            let mut v = LEAD[rt::choose(6) as usize].to_vec();
            v.extend(vec![f; n]);
            v
        }
        _ => {
            let r = response(status(), &vec![("x-content-length", b"7".to_vec())], vec![]);
            let rv = ResponseValue::empty(r);
            rt::check(rv.content_length().is_none(), "content-length: absent");
            return;
        }
    };
    let want = digits_value(&v);
    if rt::arg(0) == 0 && n > 0 && n < 3 {
        // repeated: one of equal values, otherwise no one number
        let other = rt::bytes(rt::choose(3) as usize);
        let same = rt::same(&v, &other);
        let r = response(200, &vec![("content-length", v.clone()), ("x-a", b"1".to_vec()), ("content-length", other)], vec![]);
        let got = ResponseValue::empty(r).content_length();
        // the first is the one that is read
        rt::check(if same { got == want } else { got.is_none() || got == want }, "content-length: never another header's number");
    }
    // whatever else the response says
    let hs: Hdrs = match rt::choose(6) {
        0 => vec![("x-a", b"1".to_vec()), ("content-length", v)],
        1 => vec![("transfer-encoding", b"chunked".to_vec()), ("content-length", v)],
        2 => vec![("content-length", v), ("content-encoding", b"gzip".to_vec())],
        3 => vec![("content-length", v), ("connection", b"close".to_vec()), ("content-range", b"bytes 0-1/7".to_vec())],
        4 => vec![("x-content-length", b"7".to_vec()), ("content-type", b"text/plain".to_vec()), ("content-length", v)],
        _ => vec![("content-length", v)],
    };
    let r = response(status(), &hs, vec![]);
    let rv = if rt::choose(2) == 0 {
        ResponseValue::empty(r).map::<(), _, ()>(|_| ())
    } else {
        let (sc, hm) = (r.status(), r.headers().clone());
        ResponseValue::new((), sc, hm).map::<(), _, ()>(|_| ())
    };
    let rv = match rv {
        Ok(rv) => rv,
        Err(()) => return,
    };
    rt::check(rv.content_length() == want, "content-length: the header's decimal number, if it is one");
}
