//! Request line: method and URL of every operation shape.
use super::common::*;
use crate::rt;

macro_rules! call {
    ($mode:expr, $base:expr, $op:ident($($p:ident = $v:expr),*)) => {
        match $mode {
            0 => {
                let c = gen::pm::Client::new_with_client($base, Client::new());
                kind(&run(c.$op($($v),*)))
            }
            1 => {
                let c = gen::bm::Client::new_with_client($base, Client::new());
                kind(&run(c.$op()$(.$p($v))*.send()))
            }
            2 => {
                use gen::tm::{ClientFirstExt as _, ClientSecondExt as _};
                let c = gen::tm::Client::new_with_client($base, Client::new());
                kind(&run(c.$op()$(.$p($v))*.send()))
            }
            _ => {
                let c = gen::pm::Client::new($base);
                kind(&run(c.$op($($v),*)))
            }
        }
    };
}

fn cat(xs: &[&[u8]]) -> Vec<u8> {
    xs.concat()
}

/// arg0: operation, arg1: interface style, arg2: bytes per value, arg3: base.
pub fn line() {
    let (op, mode, n) = (rt::arg(0), rt::arg(1), rt::arg(2) as usize);
    let base = BASES[rt::arg(3) as usize % 3];
    let count = match op {
        8 | 9 => 0,
        10 | 13 => 3,
        _ => 1,
    };
    let v: Vec<String> = (0..count).map(|_| value(n)).collect();
    let b: Vec<&[u8]> = v.iter().map(|s| s.as_bytes()).collect();
    no_content();
    let mut method = "GET";
    let (k, want): (K, Vec<Vec<u8>>) = match op {
        0..=7 => {
            let s = &v[0];
            let (m, k) = match op {
                0 => ("GET", call!(mode, base, alpha_get(one = s))),
                1 => ("PUT", call!(mode, base, alpha_put(one = s))),
                2 => ("POST", call!(mode, base, alpha_post(one = s))),
                3 => ("DELETE", call!(mode, base, alpha_delete(one = s))),
                4 => ("HEAD", call!(mode, base, alpha_head(one = s))),
                5 => ("PATCH", call!(mode, base, alpha_patch(one = s))),
                6 => ("OPTIONS", call!(mode, base, alpha_options(one = s))),
                _ => ("TRACE", call!(mode, base, alpha_trace(one = s))),
            };
            method = m;
            (k, vec![b"alpha".to_vec(), b[0].to_vec()])
        }
        8 => (call!(mode, base, plain()), vec![b"plain".to_vec()]),
        9 => (call!(mode, base, root()), vec![vec![]]),
        10 => (
            call!(mode, base, adjacent(x = &v[0], y = &v[1], z = &v[2])),
            vec![cat(&[b"a-", b[0], b".b"]), cat(&[b[1], b[2]]), b"c".to_vec()],
        ),
        11 => (
            call!(mode, base, slashes(id = &v[0])),
            vec![b"dup".to_vec(), b[0].to_vec(), b"tail".to_vec(), vec![]],
        ),
        12 => (
            call!(mode, base, repeated(w = &v[0])),
            vec![b"rep".to_vec(), b[0].to_vec(), b"mid".to_vec(), b[0].to_vec()],
        ),
        13 => (
            call!(mode, base, renames(type_ = &v[0], foo_bar = &v[1], self_ = &v[2])),
            vec![b"kw".to_vec(), b[0].to_vec(), cat(&[b[1], b":go"]), b[2].to_vec()],
        ),
        _ => (call!(mode, base, leading(first = &v[0])), vec![b[0].to_vec()]),
    };
    for s in &want {
        not_dot(s);
    }
    rt::check(k == K::Ok, "line: the documented answer is returned");
    match only() {
        Some(r) => {
            rt::check(r.method == method, "line: the documented method is used");
            let ok = segs_eq(&segments(&r.url, base), &want) && r.url.query().is_none();
            rt::check(ok, "line: the url is the base plus the filled-in template");
            rt::check(
                headers_are(&r.headers, &[("api-version", VERSION)]) && r.body.is_none(),
                "line: nothing undocumented is sent",
            );
        }
        None => rt::check(false, "line: one call sends one request"),
    }
}

/// Parameters that are numbers, booleans or enumerations. arg0: interface
/// style, arg1: which of the numbers is symbolic.
pub fn typed() {
    let (mode, which) = (rt::arg(0), rt::arg(1));
    let base = BASES[0];
    let n = if which == 0 { int32() } else { -7 };
    let u = if which == 1 { uint64() } else { u64::MAX };
    let b = rt::choose(2) == 1;
    let k = ["one-x", "Two", "a/b c"][rt::choose(3) as usize];
    no_content();
    let r = match mode {
        0 => {
            let c = gen::pm::Client::new_with_client(base, Client::new());
            let Ok(kk) = k.parse() else {
                rt::check(false, "line: every documented enumeration value can be passed");
                return;
            };
            kind(&run(c.typed_path(n, b, kk, u)))
        }
        1 => {
            let c = gen::bm::Client::new_with_client(base, Client::new());
            kind(&run(c.typed_path().u(u).k(k).b(b).n(n).send()))
        }
        _ => {
            let c = gen::tm::Client::new_with_client(base, Client::new());
            kind(&run(c.typed_path().k(k).n(n).u(u).b(b).send()))
        }
    };
    rt::check(r == K::Ok, "line: the documented answer is returned");
    let ok = match only() {
        Some(s) => match segments(&s.url, base) {
            Some(g) => {
                use super::params::undec;
                g.len() == 5
                    && rt::same(&g[0], b"tp")
                    && (undec(&g[1]) == Some(n as i128))
                    && rt::same(&g[2], if b { b"true" } else { b"false" })
                    && rt::same(&g[3], k.as_bytes())
                    && (undec(&g[4]) == Some(u as i128))
                    && s.url.query().is_none()
            }
            None => false,
        },
        None => false,
    };
    rt::check(ok, "line: numbers, booleans and enumerations fill the template with their text");
}

/// The transport fails: one attempt, reported as such. arg0: interface style.
pub fn fails() {
    let mode = rt::arg(0);
    let op = rt::choose(7);
    let base = BASES[0];
    let late = rt::choose(2) == 1;
    crate::net::net().answers.push_back(if late { Answer::Later(Box::new(Answer::Fail)) } else { Answer::Fail });
    // an answer is at hand should the call be repeated
    no_content();
    let pt = gen::pm::types::Thing { name: "n".into(), size: None };
    let bt = gen::bm::types::Thing { name: "n".into(), size: None };
    let k = match (op, mode) {
        (0, _) => call!(mode, base, plain()),
        (1, _) => call!(mode, base, alpha_put(one = "x")),
        (2, _) => call!(mode, base, alpha_delete(one = "x")),
        (3, 0) => kind(&run(gen::pm::Client::new_with_client(base, Client::new()).typed_ok())),
        (3, _) => kind(&run(gen::bm::Client::new_with_client(base, Client::new()).typed_ok().send())),
        (4, 0) => kind(&run(gen::pm::Client::new_with_client(base, Client::new()).raw_ok())),
        (4, _) => kind(&run(gen::bm::Client::new_with_client(base, Client::new()).raw_ok().send())),
        (5, 0) => kind(&run(gen::pm::Client::new_with_client(base, Client::new()).body_json("i", None, None, &pt))),
        (5, _) => kind(&run(gen::bm::Client::new_with_client(base, Client::new()).body_json().id("i").body(bt).send())),
        (_, 0) => kind(&run(gen::pm::Client::new_with_client(base, Client::new()).body_octets("i", None, None, "b"))),
        (_, _) => kind(&run(gen::bm::Client::new_with_client(base, Client::new()).body_octets().id("i").body("b").send())),
    };
    rt::check(k == K::Comm, "fail: a failed exchange is a communication error");
    rt::check(only().is_some(), "fail: the request is not repeated");
}
