//! Which documents are refused outright.
use super::doc;
use crate::sx_rt as rt;
use openapiv3::*;

fn space(c: u8) -> bool {
    (c == b' ') | ((c >= 9) & (c <= 13))
}
fn supported(v: &[u8]) -> bool {
    let mut i = 0;
    while i < v.len() && space(v[i]) {
        i += 1;
    }
    v.len() >= i + 4 && rt::same(&v[i..i + 4], b"3.0.")
}

/// Args: length. Every ASCII version text.
pub fn version() {
    let b = rt::bytes(rt::arg(0) as usize);
    for c in &b {
        rt::assume(*c < 128);
    }
    one_version(b)
}
/// Args: bytes before and after; "3.0." in the middle with one byte free.
pub fn version_near() {
    let mut v = rt::bytes(rt::arg(0) as usize);
    for c in &v {
        rt::assume(*c < 128);
    }
    let mut m = b"3.0.".to_vec();
    let k = rt::choose(4) as usize;
    m[k] = rt::u8();
    rt::assume(m[k] < 128);
    v.extend_from_slice(&m);
    let t = rt::bytes(rt::arg(1) as usize);
    for c in &t {
        rt::assume(*c < 128);
    }
    v.extend_from_slice(&t);
    one_version(v)
}
fn one_version(b: Vec<u8>) {
    let want = supported(&b);
    let mut spec = OpenAPI { openapi: String::from_utf8(b).unwrap_or_default(), ..Default::default() };
    let got = crate::validate_openapi(&spec).is_ok();
    rt::out(&[got as u8]);
    rt::check(got == want, "document: accepted exactly for OpenAPI 3.0");
}

/// Args: paths. Each path: a reference or an item with up to two operations of
/// any two methods, whose ids are absent, short or shared.
pub fn ids() {
    let n = rt::arg(0) as usize;
    let mut spec = OpenAPI { openapi: "3.0.3".into(), ..Default::default() };
    let mut seen: Vec<u8> = vec![];
    let mut good = true;
    for i in 0..n {
        let r = if rt::choose(4) == 0 {
            good = false;
            ReferenceOr::ref_("#/x")
        } else {
            let mut it = PathItem::default();
            let ops = rt::choose(3);
            for k in 0..ops {
                let id = rt::choose(4);
                let mut op = Operation::default();
                if id == 3 {
                    good = false;
                } else {
                    good &= !seen.contains(&(id as u8));
                    seen.push(id as u8);
                    op.operation_id = Some(["a", "ab", "aB"][id as usize].into());
                }
                let o = Some(op);
                match (k, if i == 0 { rt::choose(4) } else { 0 }) {
                    (0, 0) => it.get = o,
                    (0, 1) => it.put = o,
                    (0, 2) => it.post = o,
                    (0, _) => it.delete = o,
                    (_, 0) => it.options = o,
                    (_, 1) => it.head = o,
                    (_, 2) => it.patch = o,
                    (_, _) => it.trace = o,
                }
            }
            ReferenceOr::Item(it)
        };
        spec.paths.paths.insert(format!("/p{}", i), r);
    }
    let got = crate::validate_openapi(&spec).is_ok();
    rt::out(&[got as u8]);
    rt::check(got == good, "document: every operation needs an id of its own");
}

/// Args: paths. A long document: every path has operations of all methods with
/// ids of their own, but for any one path that is a reference, lacks one id or
/// repeats another's, in any method.
pub fn ids_many() {
    let n = rt::arg(0) as usize;
    let mut spec = OpenAPI { openapi: "3.0.3".into(), ..Default::default() };
    let odd = rt::choose(4);
    let place = |k: u32| match k {
        0 => 0,
        1 => n / 2,
        _ => n - 1,
    };
    let (p, m) = (place(rt::choose(3)), rt::choose(8) as usize);
    let (p2, m2) = if odd == 3 { (place(rt::choose(3)), rt::choose(8) as usize) } else { (p, m) };
    rt::assume(odd != 3 || (p, m) != (p2, m2));
    for i in 0..n {
        if odd == 1 && i == p {
            rt::assume(m == 0);
            spec.paths.paths.insert(format!("/p{}", i), ReferenceOr::ref_("#/x"));
            continue;
        }
        let mut it = PathItem::default();
        for k in 0..8 {
            let mut id = Some(format!("op_{}_{}", i, k));
            if (i, k) == (p, m) {
                if odd == 2 {
                    id = None;
                } else if odd == 3 {
                    id = Some(format!("op_{}_{}", p2, m2));
                }
            }
            let o = Some(Operation { operation_id: id, ..Default::default() });
            match k {
                0 => it.get = o,
                1 => it.put = o,
                2 => it.post = o,
                3 => it.delete = o,
                4 => it.options = o,
                5 => it.head = o,
                6 => it.patch = o,
                _ => it.trace = o,
            }
        }
        spec.paths.paths.insert(format!("/p{}", i), ReferenceOr::Item(it));
    }
    let got = crate::validate_openapi(&spec).is_ok();
    rt::out(&[got as u8]);
    rt::check(got == (odd == 0), "document: every operation needs an id of its own");
}

entries! {
    i_ids_many => ids_many,
    i_version => version,
    i_version_near => version_near,
    i_ids => ids,
}
