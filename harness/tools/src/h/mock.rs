//! Mocks: what they match and what they answer, against the generated client.
use super::common::*;
use crate::gen::mb;
use crate::gen::mm::MockServerExt;
use crate::net::{net, Sent};
use crate::rt;
use httpmock::{HttpMockRequest, MockServer};

fn client() -> mb::Client {
    mb::Client::new_with_client("http://h.example", Client::new())
}
/// The last request, as the mock server sees it.
fn seen() -> HttpMockRequest {
    let s = net().sent.last().unwrap();
    HttpMockRequest {
        path: s.url.path().to_string(),
        method: s.method.clone(),
        headers: None,
        query_params: Some(s.url.query_pairs().map(|(k, v)| (k.into_owned(), v.into_owned())).collect()),
        body: s.body.clone().flatten(),
    }
}
/// Args: which parameter, bytes. A mock for given values and a call with
/// other values.
pub fn matching() {
    let k = rt::arg(0);
    let n = rt::arg(1) as usize;
    let (x, y) = (rt::word(n, 3), rt::word(rt::arg(2) as usize, 3));
    let given = rt::choose(2) == 1;
    let given = given || k < 3;
    let srv = MockServer::start();
    let num = [-12i32, 0, 12][rt::choose(if k == 5 { 3 } else { 1 }) as usize];
    let want_absent = (k == 3 || k == 4 || k == 5) && rt::choose(2) == 1;
    let m = srv.two(|when, then| {
        let w = match k {
            0 => when.a(&x),
            1 => when.b(&x),
            2 => when.must(&x),
            3 if want_absent => when.may(None),
            3 => when.may(x.as_str()),
            4 if want_absent => when.type_(None),
            4 => when.type_(x.as_str()),
            5 if want_absent => when.n_um(None),
            5 => when.n_um(0),
            _ => when,
        };
        let _ = w.into_inner();
    });
    no_content();
    let c = client();
    let mut b = c.two().a(if k == 0 { &y } else { "p" }).b(if k == 1 { &y } else { "q" }).must(if k == 2 { &y } else { "r" });
    if given {
        b = match k {
            3 => b.may(&y),
            4 => b.type_(&y),
            5 => b.n_um(num),
            _ => b,
        };
    }
    let _ = run(b.send());
    let got = m.spec.borrow().matches(&seen());
    let want = match k {
        0..=2 => rt::same(x.as_bytes(), y.as_bytes()),
        3 | 4 if want_absent => !given,
        3 | 4 => given && rt::same(x.as_bytes(), y.as_bytes()),
        5 if want_absent => !given,
        5 => given && num == 0,
        _ => true,
    };
    rt::out(&[got as u8]);
    rt::check(got == want, "mock: matches exactly the requests with the prescribed value");
}
/// Each operation's mock against each operation's request.
pub fn other() {
    let (i, j) = (rt::choose(9), rt::choose(9));
    let v = rt::word(rt::arg(0) as usize, 3);
    let srv = MockServer::start();
    let m = match i {
        0 => srv.two(|_, _| {}),
        1 => srv.two_put(|w, t| {}),
        2 => srv.one(|_, _| {}),
        3 => srv.send(|_, _| {}),
        4 => srv.send_text(|_, _| {}),
        5 => srv.send_form(|_, _| {}),
        6 => srv.odd(|_, _| {}),
        7 => srv.odd_delete(|_, _| {}),
        _ => srv.all(|_, _| {}),
    };
    let _ = ();
    no_content();
    let c = client();
    match j {
        0 => drop(run(c.two().a(&v).b("b").must("m").send())),
        1 => drop(run(c.two_put().a("a").b(&v).send())),
        2 => drop(run(c.one().a(3).send())),
        3 => drop(run(c.send().a(&v).body_map(|b| b.name("n")).send())),
        4 => drop(run(c.send_text().a(&v).body("t").send())),
        5 => drop(run(c.send_form().a(&v).body_map(|b| b.name("n")).send())),
        6 => drop(run(c.odd().send())),
        7 => drop(run(c.odd_delete().send())),
        _ => drop(run(c.all().send())),
    };
    let _ = v;
    let got = m.spec.borrow().matches(&seen());
    rt::check(got == (i == j), "mock: matches its own operation's requests only");
}
/// Bodies.
pub fn body() {
    let (x, y) = (rt::word(rt::arg(0) as usize, 3), rt::word(rt::arg(1) as usize, 3));
    let srv = MockServer::start();
    let text = rt::choose(2) == 1;
    let size = rt::choose(3);
    let want;
    let m = if text {
        srv.send_text(|w, _| drop(w.body(x.clone())))
    } else {
        let t = mb::types::Thing { name: x.clone(), size: [None, Some(1), Some(2)][size as usize] };
        srv.send(|w, _| drop(w.body(&t)))
    };
    no_content();
    let c = client();
    let has = rt::choose(2);
    if text {
        want = rt::same(x.as_bytes(), y.as_bytes());
        drop(run(c.send_text().a("a").body(y).send()));
    } else {
        want = rt::same(x.as_bytes(), y.as_bytes()) && has == size;
        let b = c.send().a("a");
        drop(run(if has == 1 { b.body_map(|b| b.name(y).size(1)) } else { b.body_map(|b| b.name(y)) }.send()));
    }
    let got = m.spec.borrow().matches(&seen());
    rt::out(&[got as u8]);
    rt::check(got == want, "mock: matches exactly the requests with the prescribed body");
}
/// What a mock answers is what the client returns.
pub fn answers() {
    let x = rt::word(rt::arg(0) as usize, 3);
    let srv = MockServer::start();
    let st = rt::u16();
    let k = rt::choose(5);
    let m = match k {
        0 => srv.two(|_, t| drop(t.ok(&mb::types::Thing { name: x.clone(), size: Some(5) }))),
        1 => srv.two(|_, t| drop(t.not_found(&mb::types::Err { code: x.clone() }))),
        2 => {
            rt::assume((st >= 500) & (st <= 599));
            srv.two(|_, t| drop(t.server_error(st, &mb::types::Err { code: x.clone() })))
        }
        3 => srv.one(|_, t| drop(t.created())),
        _ => {
            rt::assume((st >= 300) & (st <= 599));
            srv.one(|_, t| drop(t.default_response(st)))
        }
    };
    let a = m.spec.borrow().answer.clone();
    let hs: crate::resp::Hdrs = a.headers.iter().map(|(k, v)| (&*rt::leak(k.clone()), v.as_bytes().to_vec())).collect();
    answer(crate::resp::response(a.status, &hs, vec![crate::resp::Ev::Data(a.body.clone())]));
    let want = match k {
        0 => 200,
        1 => 404,
        3 => 201,
        _ => st,
    };
    rt::check(a.status == want, "mock: answers with the named status");
    let c = client();
    let ok = if k < 3 {
        match run(c.two().a("a").b("b").must("m").send()) {
            Ok(v) => k == 0 && v.status().as_u16() == 200 && rt::same(v.name.as_bytes(), x.as_bytes()) && v.size == Some(5),
            Err(progenitor_client::Error::ErrorResponse(v)) => {
                k > 0 && v.status().as_u16() == want && rt::same(v.code.as_bytes(), x.as_bytes())
            }
            Err(_) => false,
        }
    } else {
        match run(c.one().a(1).send()) {
            Ok(v) => k == 3 && v.status().as_u16() == 201,
            Err(progenitor_client::Error::ErrorResponse(v)) => k == 4 && v.status().as_u16() == st,
            Err(_) => false,
        }
    };
    rt::check(ok, "mock: the client returns what the mock was told to answer");
}
/// Known limits, one at a time. Args: which.
pub fn special() {
    let srv = MockServer::start();
    no_content();
    let c = client();
    match rt::arg(0) {
        0 => {
            let m = srv.two_put(|w, _| drop(w.a(".")));
            drop(run(c.two_put().a("x").b("b").send()));
            let got = m.spec.borrow().matches(&seen());
            rt::check(!got, "mock: a path value with regular expression characters matches only itself");
        }
        1 => {
            let m = srv.two_put(|w, _| drop(w.a("x y")));
            drop(run(c.two_put().a("x y").b("b").send()));
            let got = m.spec.borrow().matches(&seen());
            rt::check(got, "mock: a path value that needs escaping in a URL matches itself");
        }
        _ => {
            let t = mb::types::Thing { name: "n".into(), size: None };
            let m = srv.send_form(|w, _| drop(w.body(&t)));
            drop(run(c.send_form().a("a").body_map(|b| b.name("n")).send()));
            let got = m.spec.borrow().matches(&seen());
            rt::check(got, "mock: matches the form body it was given");
        }
    }
}
