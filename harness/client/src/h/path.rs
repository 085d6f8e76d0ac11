use super::util::*;
use crate::rt;
use progenitor_client::encode_path;

/// `get` of a URL made the way generated code makes it; returns the path
/// segments if nothing but the path could have been influenced.
fn segments(url: &str) -> Option<Vec<Vec<u8>>> {
    let r = client().get(url).build().ok()?;
    let u = r.url();
    rt::out(u.as_str().as_bytes());
    if u.scheme() != "http"
        || u.host_str() != Some("h.example")
        || u.port().is_some()
        || u.query().is_some()
        || u.fragment().is_some()
        || !u.username().is_empty()
        || u.password().is_some()
    {
        return None;
    }
    Some(split(u.path().as_bytes(), b'/').into_iter().map(|s| s.to_vec()).collect())
}

fn is_dot(s: &str) -> bool {
    rt::same(s.as_bytes(), b".") || rt::same(s.as_bytes(), b"..")
}

pub fn one(s: &str) {
    let url = format!("http://h.example/pre/{}/post", encode_path(s));
    let ok = match segments(&url) {
        Some(v) => {
            v.len() == 4
                && v[0].is_empty()
                && v[1] == b"pre"
                && v[3] == b"post"
                && match pct_decode(&v[2], false) {
                    Some(d) => rt::same(&d, s.as_bytes()),
                    None => false,
                }
        }
        None => false,
    };
    if is_dot(s) {
        rt::check(ok, "path: a dot-segment value stays one segment");
    } else {
        rt::check(ok, "path: value arrives as exactly one segment");
    }
}

/// arg0: bytes of UTF-8.
pub fn seg() {
    let s = rt::string(rt::arg(0) as usize);
    one(&s);
}

/// arg0: total bytes, arg1: independent bytes besides the filler.
pub fn long() {
    let s = rt::pattern(rt::arg(0) as usize, rt::arg(1) as usize);
    one(&s);
}

/// Two parameters in one path, also as the last segment.
pub fn two() {
    let a = rt::string(rt::arg(0) as usize);
    let b = rt::string(rt::arg(1) as usize);
    let url = format!("http://h.example/{}/k/{}", encode_path(&a), encode_path(&b));
    if is_dot(&a) || is_dot(&b) {
        return;
    }
    let ok = match segments(&url) {
        Some(v) => {
            v.len() == 4
                && v[2] == b"k"
                && match (pct_decode(&v[1], false), pct_decode(&v[3], false)) {
                    (Some(x), Some(y)) => rt::same(&x, a.as_bytes()) & rt::same(&y, b.as_bytes()),
                    _ => false,
                }
        }
        None => false,
    };
    rt::check(ok, "path: two values arrive as their own segments");
}
