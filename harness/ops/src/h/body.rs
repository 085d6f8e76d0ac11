//! Request bodies by documented content type.
use super::common::*;
use crate::net::net;
use crate::rt;
use crate::util::{pair, pairs_eq, parse_pairs};

/// arg0: operation, arg1: interface style, arg2: bytes of symbolic content.
pub fn body() {
    let (op, mode, n) = (rt::arg(0), rt::arg(1), rt::arg(2) as usize);
    let base = BASES[0];
    let c = gen::pm::Client::new_with_client(base, Client::new());
    let bc = gen::bm::Client::new_with_client(base, Client::new());
    let text = value(n);
    let q = if op == 0 || op == 2 { rt::choose(2) == 1 } else { false };
    let (qv, hv) = (rt::word(1, 3), rt::word(1, 3));
    let (qo, ho) = if q { (Some(qv.as_str()), Some(hv.as_str())) } else { (None, None) };
    let size = if matches!(op, 0 | 1 | 6) {
        match rt::choose(3) {
            0 => None,
            1 => Some(-5),
            _ => Some((rt::u8() as i32) - 100),
        }
    } else {
        None
    };
    answer(json(if op == 0 { 200 } else { 204 }, if op == 0 { "{\"name\":\"x\"}" } else { "" }));
    let pt = gen::pm::types::Thing { name: text.clone(), size };
    let bt = gen::bm::types::Thing { name: text.clone(), size };
    let (method, seg, ctype, k): (_, _, &[u8], K) = match (op, mode) {
        (0, 0) => ("POST", "b", b"application/json", kind(&run(c.body_json("i", qo, ho, &pt)))),
        (0, _) => ("POST", "b", b"application/json", {
            let mut x = bc.body_json().id("i").body(bt);
            if q {
                x = x.q(&qv).x_h(&hv);
            }
            kind(&run(x.send()))
        }),
        (1, 0) => ("PUT", "b", b"application/x-www-form-urlencoded", kind(&run(c.body_form("i", &pt)))),
        (1, _) => ("PUT", "b", b"application/x-www-form-urlencoded", kind(&run(bc.body_form().body(bt).id("i").send()))),
        (2, 0) => ("PATCH", "b", b"application/octet-stream", kind(&run(c.body_octets("i", qo, ho, text.clone())))),
        (2, _) => ("PATCH", "b", b"application/octet-stream", {
            let mut x = bc.body_octets().body(text.clone());
            if q {
                x = x.q(&qv).x_h(&hv);
            }
            kind(&run(x.id("i").send()))
        }),
        (3, 0) => ("POST", "bt", b"text/plain", kind(&run(c.body_text("i", text.clone())))),
        (3, _) => ("POST", "bt", b"text/plain", kind(&run(bc.body_text().body(text.clone()).id("i").send()))),
        (4, 0) => ("PUT", "bt", b"text/x-markdown", kind(&run(c.body_markdown("i", text.clone())))),
        (4, _) => ("PUT", "bt", b"text/x-markdown", kind(&run(bc.body_markdown().id("i").body(text.clone()).send()))),
        (5, 0) => ("PATCH", "bt", b"application/json", kind(&run(c.body_json_charset("i", &text)))),
        (5, _) => ("PATCH", "bt", b"application/json", kind(&run(bc.body_json_charset().id("i").body(&text).send()))),
        (_, 0) => ("DELETE", "bt", b"application/json", kind(&run(c.body_ref("i", &pt)))),
        (_, _) => ("DELETE", "bt", b"application/json", kind(&run(bc.body_ref().id("i").body(bt).send()))),
    };
    rt::check(k == K::Ok, "body: the documented answer is returned");
    let n = net();
    if n.sent.len() != 1 {
        rt::check(false, "body: one call sends one request");
        return;
    }
    let s = &n.sent[0];
    let mut w: Vec<(&str, &[u8])> = vec![("api-version", VERSION), ("content-type", ctype)];
    if op == 0 {
        w.push(("accept", b"application/json"));
    }
    if q {
        w.push(("x-h", hv.as_bytes()));
    }
    rt::check(headers_are(&s.headers, &w), "body: the documented content type is announced");
    let qs: Vec<(&str, &[u8])> = if q { vec![("q", qv.as_bytes())] } else { vec![] };
    rt::check(
        s.method == method
            && segs_eq(&segments(&s.url, base), &[seg.as_bytes().to_vec(), b"i".to_vec()])
            && query_is(&s.url, &qs),
        "body: parameters beside the body reach their places",
    );
    let Some(Some(got)) = &s.body else {
        rt::check(false, "body: the content is sent");
        return;
    };
    rt::out(got);
    let ok = match op {
        0 | 6 => match serde_json::from_slice::<gen::pm::types::Thing>(got) {
            Ok(t) => rt::same(t.name.as_bytes(), text.as_bytes()) & (t.size == size),
            Err(_) => false,
        },
        1 => {
            let mut w = vec![pair(b"name", text.as_bytes())];
            if let Some(s) = size {
                w.push(pair(b"size", &super::params::dec(s as i128)));
            }
            match parse_pairs(got) {
                Some(p) => pairs_eq(&p, &w),
                None => false,
            }
        }
        5 => match serde_json::from_slice::<String>(got) {
            Ok(t) => rt::same(t.as_bytes(), text.as_bytes()),
            Err(_) => false,
        },
        _ => rt::same(got, text.as_bytes()),
    };
    rt::check(ok, "body: the content is the caller's, in the documented encoding");
}
