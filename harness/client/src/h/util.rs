use crate::rt;
use serde::Serialize;

pub fn client() -> reqwest::Client {
    reqwest::Client::builder().no_proxy().build().unwrap()
}

fn hex(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}

/// RFC 3986 percent-decoding; None on a malformed escape.
pub fn pct_decode(s: &[u8], plus: bool) -> Option<Vec<u8>> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' {
            if i + 2 >= s.len() {
                return None;
            }
            let h = hex(s[i + 1])?;
            let l = hex(s[i + 2])?;
            o.push(h * 16 + l);
            i += 3;
        } else if plus && s[i] == b'+' {
            o.push(b' ');
            i += 1;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    Some(o)
}

pub fn split(s: &[u8], sep: u8) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut st = 0;
    for i in 0..s.len() {
        if s[i] == sep {
            v.push(&s[st..i]);
            st = i + 1;
        }
    }
    v.push(&s[st..]);
    v
}

pub type Pairs = Vec<(Vec<u8>, Vec<u8>)>;

/// What a server's form decoder makes of a query string or form body.
pub fn parse_pairs(s: &[u8]) -> Option<Pairs> {
    let mut r = vec![];
    if s.is_empty() {
        return Some(r);
    }
    for p in split(s, b'&') {
        let mut eq = None;
        for (i, b) in p.iter().enumerate() {
            if *b == b'=' {
                eq = Some(i);
                break;
            }
        }
        let i = eq?;
        r.push((pct_decode(&p[..i], true)?, pct_decode(&p[i + 1..], true)?));
    }
    Some(r)
}

/// Pairs equal, as one formula.
pub fn pairs_eq(a: &Pairs, b: &Pairs) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= rt::same(&a[i].0, &b[i].0);
        ok &= rt::same(&a[i].1, &b[i].1);
    }
    ok
}

pub fn pair(k: &[u8], v: &[u8]) -> (Vec<u8>, Vec<u8>) {
    (k.to_vec(), v.to_vec())
}

pub const BASE: &str = "http://h.example:8080/p/q";

/// Sends one query parameter through the real request builder.
pub fn query<T: Serialize>(name: &str, v: &T) -> Result<reqwest::Request, reqwest::Error> {
    client()
        .get(BASE)
        .query(&progenitor_client::QueryParam::new(name, v))
        .build()
}

/// Everything but the query is what the caller passed in.
pub fn rest_intact(r: &reqwest::Request) -> bool {
    let u = r.url();
    u.scheme() == "http"
        && u.host_str() == Some("h.example")
        && u.port() == Some(8080)
        && u.path() == "/p/q"
        && u.fragment().is_none()
        && u.username().is_empty()
        && u.password().is_none()
}

pub fn pairs_of(r: &reqwest::Request) -> Option<Pairs> {
    parse_pairs(r.url().query().unwrap_or("").as_bytes())
}

/// The query of the built request decodes to exactly `want`.
pub fn check_pairs(r: Result<reqwest::Request, reqwest::Error>, want: &Pairs, id: &str) {
    match r {
        Ok(r) => {
            rt::out(r.url().as_str().as_bytes());
            let ok = match pairs_of(&r) {
                Some(p) => pairs_eq(&p, want),
                None => false,
            };
            rt::check(ok & rest_intact(&r), id);
        }
        Err(_) => rt::check(false, id),
    }
}
