use crate::net::{net, Sent};
use crate::resp::{block_on, response, Ev, Hdrs};
use crate::rt;
use crate::util::{pct_decode, split};
use progenitor_client::{Error, ResponseValue};

pub use crate::net::{answer, transport, Answer, Client};
pub(crate) use crate::{gen, resp, util};

pub const BASES: [&str; 3] = ["http://h.example:8080/p", "https://h.example", "http://h.example/v1/api"];
pub const VERSION: &[u8] = b"1.2.3-x";

pub fn run<F: std::future::Future>(f: F) -> F::Output {
    match block_on(f, 64) {
        Some(x) => x,
        None => {
            rt::check(false, "op: the call completes");
            rt::assume(false);
            unreachable!()
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Ok,
    InvalidRequest,
    Comm,
    Upgrade,
    Documented,
    BodyErr,
    Payload,
    Unexpected,
    Pre,
    Post,
}
pub fn kind<T, E>(r: &Result<ResponseValue<T>, Error<E>>) -> K {
    match r {
        Ok(_) => K::Ok,
        Err(e) => ekind(e),
    }
}
pub fn ekind<E>(e: &Error<E>) -> K {
    match e {
        Error::InvalidRequest(_) => K::InvalidRequest,
        Error::CommunicationError(_) => K::Comm,
        Error::InvalidUpgrade(_) => K::Upgrade,
        Error::ErrorResponse(_) => K::Documented,
        Error::ResponseBodyError(_) => K::BodyErr,
        Error::InvalidResponsePayload(..) => K::Payload,
        Error::UnexpectedResponse(_) => K::Unexpected,
        Error::PreHookError(_) => K::Pre,
        Error::PostHookError(_) => K::Post,
    }
}

pub fn json(status: u16, body: &str) -> reqwest::Response {
    let hs: Hdrs = vec![("content-type", b"application/json".to_vec()), ("x-one", b"v".to_vec())];
    response(status, &hs, if body.is_empty() { vec![] } else { vec![Ev::Data(body.as_bytes().to_vec())] })
}
pub fn no_content() {
    answer(response(204, &vec![], vec![]));
}

/// The one request a call must have sent.
pub fn only() -> Option<&'static Sent> {
    let n = net();
    if n.sent.len() == 1 {
        Some(&n.sent[0])
    } else {
        None
    }
}

/// Decoded path segments after the base URL's own, if scheme, host, port and
/// the base's path are the caller's and there is no fragment or user info.
pub fn segments(u: &reqwest::Url, base: &str) -> Option<Vec<Vec<u8>>> {
    rt::out(u.as_str().as_bytes());
    let (scheme, port, stem): (_, _, &[&[u8]]) = match base {
        "http://h.example:8080/p" => ("http", Some(8080), &[b"p"]),
        "https://h.example" => ("https", None, &[]),
        "http://h.example/v1/api" => ("http", None, &[b"v1", b"api"]),
        _ => return None,
    };
    if u.scheme() != scheme
        || u.host_str() != Some("h.example")
        || u.port() != port
        || u.fragment().is_some()
        || !u.username().is_empty()
        || u.password().is_some()
    {
        return None;
    }
    let s = split(u.path().as_bytes(), b'/');
    if s.is_empty() || !s[0].is_empty() || s.len() < 1 + stem.len() {
        return None;
    }
    for i in 0..stem.len() {
        if s[1 + i] != stem[i] {
            return None;
        }
    }
    let mut r = vec![];
    for x in &s[1 + stem.len()..] {
        r.push(pct_decode(x, false)?);
    }
    Some(r)
}
pub fn segs_eq(got: &Option<Vec<Vec<u8>>>, want: &[Vec<u8>]) -> bool {
    let Some(g) = got else { return false };
    if g.len() != want.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..g.len() {
        ok &= rt::same(&g[i], &want[i]);
    }
    ok
}
pub fn not_dot(s: &[u8]) {
    rt::assume(!(rt::same(s, b".") || rt::same(s, b"..")));
}
/// Same pairs, each name's values in order; names are concrete.
pub fn query_is(u: &reqwest::Url, want: &[(&str, &[u8])]) -> bool {
    let Some(got) = crate::util::parse_pairs(u.query().unwrap_or("").as_bytes()) else { return false };
    if got.len() != want.len() {
        return false;
    }
    let mut ok = true;
    for (i, (n, v)) in want.iter().enumerate() {
        let nth = want[..i].iter().filter(|(m, _)| m == n).count();
        match got.iter().filter(|(m, _)| m == n.as_bytes()).nth(nth) {
            Some((_, g)) => ok &= rt::same(g, v),
            None => return false,
        }
    }
    ok
}
/// Exactly these headers, nothing else.
pub fn headers_are(h: &http::HeaderMap, want: &[(&str, &[u8])]) -> bool {
    if h.len() != want.len() {
        return false;
    }
    let mut ok = true;
    for (n, v) in want {
        let mut it = h.get_all(*n).iter();
        match (it.next(), it.next()) {
            (Some(g), None) => ok &= rt::same(g.as_bytes(), v),
            _ => return false,
        }
    }
    ok
}
/// Text a header value may carry.
pub fn header_text(b: &[u8]) -> bool {
    let mut ok = true;
    for c in b {
        ok &= ((*c >= 32) & (*c != 127)) | (*c == 9);
    }
    ok
}

/// Any text of n bytes; a long one has one free ASCII byte in its middle.
pub fn value(n: usize) -> String {
    if n < 100 {
        return rt::string(n);
    }
    let c = rt::u8();
    rt::assume(c < 128);
    let mut v = "a word/of many, 50%41 + x=y&z; [q]\"t\"{u}".repeat(n / 30 + 1).into_bytes();
    v.truncate(n);
    v[n / 2] = c;
    String::from_utf8(v).unwrap_or_default()
}
/// 256 consecutive integers from one of the given places.
pub fn window(starts: &[i128]) -> i128 {
    starts[rt::choose(starts.len() as u32) as usize].wrapping_add(rt::u8() as i128)
}
pub fn int32() -> i32 {
    window(&[0, -128, 900, -1100, 9_900, 65_400, 99_999_900, 2_147_483_392, -2_147_483_648]) as i32
}
pub fn uint64() -> u64 {
    window(&[0, 900, 65_400, 4_294_967_200, 999_999_999_900, 9_223_372_036_854_775_700, 9_999_999_999_999_999_900, 18_446_744_073_709_551_360]) as u64
}
pub fn int64() -> i64 {
    window(&[-128, 2_147_483_548, -2_147_483_748, 4_294_967_200, -4_294_967_400, 9_223_372_036_854_775_552, -9_223_372_036_854_775_808]) as i64
}
