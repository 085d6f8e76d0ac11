//! Header parameters, the API version, and values a header cannot carry.
use super::common::*;
use super::params::undec;
use crate::net::net;
use crate::rt;

/// arg0: interface style, arg1: bytes of the required one, arg2: of an
/// optional one, arg3: 0 valid UTF-8, 1 ASCII.
pub fn headers() {
    let (mode, n, m) = (rt::arg(0), rt::arg(1) as usize, rt::arg(2) as usize);
    let base = BASES[0];
    let id = rt::word(1, 3);
    let q = if rt::choose(2) == 1 { Some(rt::word(1, 3)) } else { None };
    let req = value(n);
    let opt = if rt::choose(2) == 1 { Some(value(m)) } else { None };
    let first = if rt::choose(2) == 1 { Some(rt::word(2, 3)) } else { None };
    no_content();
    let k = if mode == 0 {
        let c = gen::pm::Client::new_with_client(base, Client::new());
        kind(&run(c.headed(&id, q.as_deref(), &req, first.as_deref(), opt.as_deref())))
    } else {
        let c = gen::bm::Client::new_with_client(base, Client::new());
        let mut b = c.headed();
        if let Some(v) = &opt {
            b = b.x_opt(v);
        }
        b = b.id(&id).x_req(&req);
        if let Some(v) = &first {
            b = b.a_first(v);
        }
        if let Some(v) = &q {
            b = b.q(v);
        }
        kind(&run(b.send()))
    };
    let good = header_text(req.as_bytes()) & opt.as_ref().map_or(true, |o| header_text(o.as_bytes()));
    if !good {
        rt::check(k == K::InvalidRequest, "header: a value no header can carry is an invalid request");
        rt::check(net().sent.is_empty(), "header: nothing is sent for an invalid value");
        return;
    }
    rt::check(k == K::Ok, "header: every other value is accepted");
    let Some(s) = only() else {
        rt::check(false, "header: one call sends one request");
        return;
    };
    let mut w: Vec<(&str, &[u8])> = vec![("api-version", VERSION), ("x-req", req.as_bytes())];
    if let Some(o) = &opt {
        w.push(("x-opt", o.as_bytes()));
    }
    if let Some(o) = &first {
        w.push(("a-first", o.as_bytes()));
    }
    rt::check(headers_are(&s.headers, &w), "header: exactly the documented headers, with the caller's values");
    let qs: Vec<(&str, &[u8])> = q.iter().map(|q| ("q", q.as_bytes())).collect();
    rt::check(
        segs_eq(&segments(&s.url, base), &[b"h".to_vec(), id.as_bytes().to_vec()]) && query_is(&s.url, &qs),
        "header: header parameters stay out of the url",
    );
}

/// Integer header parameters, arg0: interface style.
pub fn ints() {
    let base = BASES[1];
    let n = int32();
    let m = if rt::choose(2) == 1 { Some(7i32) } else { None };
    no_content();
    let k = if rt::arg(0) == 0 {
        let c = gen::pm::Client::new_with_client(base, Client::new());
        kind(&run(c.headed_int("i", m, n)))
    } else {
        let c = gen::bm::Client::new_with_client(base, Client::new());
        let mut b = c.headed_int().id("i").x_n(n);
        if let Some(m) = m {
            b = b.x_m(m);
        }
        kind(&run(b.send()))
    };
    rt::check(k == K::Ok, "header: every other value is accepted");
    let Some(s) = only() else {
        rt::check(false, "header: one call sends one request");
        return;
    };
    let one = |name: &str| {
        let mut i = s.headers.get_all(name).iter();
        match (i.next(), i.next()) {
            (Some(v), None) => undec(v.as_bytes()),
            _ => None,
        }
    };
    let ok = one("x-n") == Some(n as i128) && s.headers.contains_key("x-m") == m.is_some() && one("x-m") == m.map(|m| m as i128);
    rt::check(ok, "header: exactly the documented headers, with the caller's values");
}
