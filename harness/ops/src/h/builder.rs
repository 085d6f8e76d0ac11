//! Builders: unset and unconvertible values, order and repetition of setters.
use super::common::*;
use super::params::undec;
use crate::net::net;
use crate::rt;

/// Any subset of the required parameters, in two orders, some set twice.
pub fn missing() {
    let c = gen::bm::Client::new_with_client(BASES[0], Client::new());
    let mut b = c.queries();
    let v: Vec<String> = (0..4).map(|_| rt::word(1, 3)).collect();
    let set = rt::choose(16);
    let back = rt::choose(2) == 1;
    let twice = rt::choose(2) == 1;
    for i in 0..4 {
        let i = if back { 3 - i } else { i };
        if set & (1 << i) == 0 {
            continue;
        }
        for r in 0..2 {
            if r == 0 && !twice {
                continue;
            }
            let x = if r == 0 { "old" } else { v[i].as_str() };
            b = match i {
                0 => b.id(x),
                1 => b.shared(x),
                2 => b.over(x),
                _ => b.alpha_beta(x),
            };
        }
    }
    no_content();
    // a copy of a builder stands for the same call
    let b = if rt::choose(2) == 1 { b.clone() } else { b };
    let k = kind(&run(b.send()));
    if set != 15 {
        rt::check(k == K::InvalidRequest, "builder: a missing required parameter is an invalid request");
        rt::check(net().sent.is_empty(), "builder: nothing is sent for an incomplete request");
        return;
    }
    rt::check(k == K::Ok, "builder: a complete request is sent");
    let ok = match only() {
        Some(s) => {
            segs_eq(&segments(&s.url, BASES[0]), &[b"q".to_vec(), v[0].as_bytes().to_vec()])
                && query_is(&s.url, &[("shared", v[1].as_bytes()), ("over", v[2].as_bytes()), ("alpha-beta", v[3].as_bytes())])
        }
        None => false,
    };
    rt::check(ok, "builder: the last value set is the one sent, whatever the order");
}

/// Values that need converting: i64 into the documented i32, text into an
/// enumeration. arg0: bytes of the text.
pub fn conversion() {
    let c = gen::bm::Client::new_with_client(BASES[0], Client::new());
    no_content();
    if rt::arg(0) == 0 {
        let n = int64();
        let fits = n >= i32::MIN as i64 && n <= i32::MAX as i64;
        let required = rt::choose(2) == 1;
        let order = rt::choose(3);
        let again = order == 1;
        let mut b = c.headed_int().id("i");
        if order == 2 {
            // an earlier good value does not survive a failed one
            b = if required { b.x_n(9i32) } else { b.x_m(9i32) };
        }
        b = if required { b.x_n(n) } else { b.x_n(1i32).x_m(n) };
        if again {
            // a later good value replaces a failed one
            b = if required { b.x_n(9i32) } else { b.x_m(9i32) };
        }
        let k = kind(&run(b.send()));
        if !fits && !again {
            rt::check(k == K::InvalidRequest, "builder: a value that does not convert is an invalid request");
            rt::check(net().sent.is_empty(), "builder: nothing is sent for an unconvertible value");
            return;
        }
        rt::check(k == K::Ok, "builder: a convertible value is accepted");
        let want = if again { 9 } else { n as i128 };
        let ok = match only() {
            Some(s) => match s.headers.get(if required { "x-n" } else { "x-m" }) {
                Some(v) => undec(v.as_bytes()) == Some(want),
                None => false,
            },
            None => false,
        };
        rt::check(ok, "builder: the converted value is the one sent");
        return;
    }
    let t = rt::string(rt::arg(0) as usize);
    let mut valid = false;
    for k in ["one-x", "Two", "three y"] {
        valid |= rt::same(t.as_bytes(), k.as_bytes());
    }
    let mut b = c.scalars().b(true);
    if rt::choose(2) == 1 {
        b = b.k("Two");
    }
    let k = kind(&run(b.k(t.as_str()).send()));
    if valid {
        rt::check(k == K::Ok, "builder: a convertible value is accepted");
        let ok = match only() {
            Some(s) => query_is(&s.url, &[("b", b"true"), ("k", t.as_bytes())]),
            None => false,
        };
        rt::check(ok, "builder: the converted value is the one sent");
    } else {
        rt::check(k == K::InvalidRequest, "builder: a value that does not convert is an invalid request");
        rt::check(net().sent.is_empty(), "builder: nothing is sent for an unconvertible value");
    }
}

/// Bodies assembled field by field.
pub fn body() {
    let c = gen::bm::Client::new_with_client(BASES[0], Client::new());
    no_content();
    let name = if rt::choose(2) == 1 { Some(rt::word(2, 3)) } else { None };
    let size = match rt::choose(4) {
        0 => None,
        1 => Some(rt::u8() as i64 - 100),
        2 => Some(i32::MAX as i64 + 1 + rt::u8() as i64),
        _ => Some(i32::MIN as i64 - 1 - rt::u8() as i64),
    };
    let whole = rt::choose(2) == 1;
    let mut b = c.body_ref().id("i");
    if whole {
        b = b.body(gen::bm::types::Thing { name: "first".into(), size: Some(1) });
    }
    let (n, s) = (name.clone(), size);
    b = b.body_map(|x| {
        let x = match n {
            Some(n) => x.name(n),
            None => x,
        };
        match s {
            Some(s) => x.size(i32::try_from(s).map(Some).map_err(|e| e.to_string()).unwrap_or(None)),
            None => x,
        }
    });
    let k = kind(&run(b.send()));
    if name.is_none() && !whole {
        rt::check(k == K::InvalidRequest, "builder: an incomplete body is an invalid request");
        rt::check(net().sent.is_empty(), "builder: nothing is sent for an incomplete body");
        return;
    }
    rt::check(k == K::Ok, "builder: a complete request is sent");
    let fits = |s: i64| if s >= i32::MIN as i64 && s <= i32::MAX as i64 { Some(s as i32) } else { None };
    let ok = match only() {
        Some(q) => match q.body.as_ref().and_then(|b| b.as_ref()).map(|b| serde_json::from_slice::<gen::bm::types::Thing>(b)) {
            Some(Ok(t)) => {
                let want = name.as_deref().unwrap_or("first");
                let wsize = match size {
                    Some(s) => fits(s),
                    None => {
                        if whole {
                            Some(1)
                        } else {
                            None
                        }
                    }
                };
                rt::same(t.name.as_bytes(), want.as_bytes()) & (t.size == wsize)
            }
            _ => false,
        },
        None => false,
    };
    rt::check(ok, "builder: the assembled body is the one sent");
}
