//! Which answer becomes which result: every status code against every way of
//! documenting responses.
use super::common::*;
use crate::net::net;
use crate::resp::{hdr_eq, response, Ev, Hdrs};
use crate::rt;
use futures_core::Stream;
use progenitor_client::{ByteStream, Error, ResponseValue};

#[derive(PartialEq, Clone, Copy)]
enum P {
    Code(u16),
    Range(u16),
    Default,
}
use P::*;
#[derive(PartialEq, Clone, Copy)]
enum D {
    A,
    E,
    Unit,
    Raw,
}

/// The documents, in the order of `call` below.
fn table(op: u64) -> &'static [(P, D)] {
    match op {
        0 => &[(Code(200), D::A)],
        1 => &[(Code(200), D::A), (Range(4), D::E), (Range(5), D::E)],
        2 => &[(Code(200), D::A), (Code(201), D::A), (Code(404), D::E), (Code(503), D::E)],
        3 => &[(Code(204), D::Unit), (Default, D::Unit)],
        4 => &[(Default, D::A)],
        5 => &[(Code(201), D::A), (Default, D::A)],
        6 => &[(Range(2), D::A), (Default, D::A)],
        7 => &[(Code(404), D::Unit)],
        8 => &[(Code(302), D::Unit)],
        9 => &[(Code(200), D::Raw), (Range(4), D::Raw)],
        10 => &[(Default, D::Raw)],
        11 => &[(Range(2), D::A), (Code(404), D::E), (Range(4), D::E)],
        12 => &[(Range(2), D::Unit), (Range(5), D::Unit)],
        13 | 14 => &[(Code(200), D::A)],
        15 => &[(Code(200), D::A), (Code(404), D::E)],
        16 => &[(Code(299), D::Unit), (Code(400), D::E), (Code(599), D::E)],
        17 => &[(Code(100), D::Unit), (Code(200), D::A), (Code(304), D::Unit), (Code(600), D::E)],
        _ => &[(Code(200), D::Raw)],
    }
}

enum Want {
    Ok(D),
    Err(D),
    Unexpected,
}
fn expect(op: u64, st: u16) -> Want {
    let t = table(op);
    let ok = st >= 200 && st <= 299;
    let err = st >= 400 && st <= 599;
    let mut d = None;
    if ok || err {
        for (p, k) in t {
            if *p == Range(st / 100) {
                d = Some(*k);
            }
        }
        for (p, k) in t {
            if *p == Code(st) {
                d = Some(*k);
            }
        }
    }
    if d.is_none() {
        for (p, k) in t {
            if *p == Default {
                d = Some(*k);
            }
        }
    }
    // a document without any success response accepts any
    let documents_success = t.iter().any(|(p, _)| match p {
        Code(c) => *c >= 200 && *c <= 299,
        Range(r) => *r == 2,
        Default => true,
    });
    match d {
        _ if ok && !documents_success => Want::Ok(D::Raw),
        Some(d) if ok => Want::Ok(d),
        Some(d) => Want::Err(d),
        None => Want::Unexpected,
    }
}

enum V {
    A(String, Option<i32>),
    E(String),
    Unit,
    Raw(Vec<u8>),
}
trait Val {
    fn val(self) -> V;
}
impl Val for gen::pr::types::A {
    fn val(self) -> V {
        V::A(self.name, self.size)
    }
}
impl Val for gen::br::types::A {
    fn val(self) -> V {
        V::A(self.name, self.size)
    }
}
impl Val for gen::pr::types::E {
    fn val(self) -> V {
        V::E(self.code)
    }
}
impl Val for gen::br::types::E {
    fn val(self) -> V {
        V::E(self.code)
    }
}
impl Val for () {
    fn val(self) -> V {
        V::Unit
    }
}
impl Val for ByteStream {
    fn val(self) -> V {
        let mut s = self.into_inner();
        let mut out = vec![];
        let w = crate::resp::waker();
        let mut cx = std::task::Context::from_waker(&w);
        for _ in 0..8 {
            match s.as_mut().poll_next(&mut cx) {
                std::task::Poll::Ready(Some(Ok(b))) => out.extend_from_slice(&b),
                std::task::Poll::Ready(Some(Err(_))) => out.push(0),
                std::task::Poll::Ready(None) => break,
                std::task::Poll::Pending => {}
            }
        }
        V::Raw(out)
    }
}

enum Got {
    Ok(V, bool),
    Err(V, bool),
    Payload(Vec<u8>),
    Unexpected(Vec<u8>, bool),
    Other,
}
fn look<T: Val, E: Val>(r: Result<ResponseValue<T>, Error<E>>, st: u16, hs: &Hdrs) -> Got {
    fn meta<T>(v: &ResponseValue<T>, st: u16, hs: &Hdrs) -> bool {
        (v.status().as_u16() == st) & hdr_eq(v.headers(), hs)
    }
    match r {
        Ok(v) => {
            let m = meta(&v, st, hs);
            Got::Ok(v.into_inner().val(), m)
        }
        Err(Error::ErrorResponse(v)) => {
            let m = meta(&v, st, hs);
            Got::Err(v.into_inner().val(), m)
        }
        Err(Error::InvalidResponsePayload(b, _)) => Got::Payload(b.to_vec()),
        Err(Error::UnexpectedResponse(r)) => {
            let m = (r.status().as_u16() == st) & hdr_eq(r.headers(), hs);
            match run(r.bytes()) {
                Ok(b) => Got::Unexpected(b.to_vec(), m),
                Err(_) => Got::Other,
            }
        }
        Err(_) => Got::Other,
    }
}

/// arg0: operation, arg1: interface style, arg2: body (0 decodes as A, 1 as E,
/// 2 two free bytes, 3 none), arg3: 1 = the answer is late and in two parts.
pub fn respond() {
    let (op, mode, kind) = (rt::arg(0), rt::arg(1), rt::arg(2));
    let st = rt::u16();
    rt::assume(st >= 100 && st <= 999);
    let c = rt::word(1, 3);
    let body: Vec<u8> = match kind {
        0 => format!("{{\"name\":\"{}\",\"size\":3}}", c).into_bytes(),
        1 => format!("{{\"code\":\"{}\"}}", c).into_bytes(),
        2 => rt::bytes(2),
        _ => vec![],
    };
    let hs: Hdrs = vec![("x-one", vec![b'v']), ("x-two", c.clone().into_bytes()), ("x-one", b"again".to_vec())];
    let late = rt::arg(3) == 1;
    let evs = if body.is_empty() {
        vec![]
    } else if late {
        let m = body.len() / 2;
        vec![Ev::Data(body[..m].to_vec()), Ev::Wait, Ev::Data(body[m..].to_vec())]
    } else {
        vec![Ev::Data(body.clone())]
    };
    let a = Answer::Response(response(st, &hs, evs));
    net().answers.push_back(if late { Answer::Later(Box::new(a)) } else { a });
    macro_rules! call {
        ($op:ident) => {
            if mode == 0 {
                let c = gen::pr::Client::new_with_client(BASES[0], Client::new());
                look(run(c.$op()), st, &hs)
            } else {
                let c = gen::br::Client::new_with_client(BASES[0], Client::new());
                look(run(c.$op().send()), st, &hs)
            }
        };
    }
    let got = match op {
        0 => call!(ok_only),
        1 => call!(code_and_ranges),
        2 => call!(two_codes),
        3 => call!(none_and_default),
        4 => call!(default_typed),
        5 => call!(code_and_default),
        6 => call!(range_and_default),
        7 => call!(no_success),
        8 => call!(nothing),
        9 => call!(raw_both),
        10 => call!(raw_default),
        11 => call!(code_in_range),
        12 => call!(range_success),
        13 => call!(charset),
        14 => call!(among_others),
        15 => call!(by_ref),
        16 => call!(edges),
        17 => call!(odd_codes),
        _ => call!(json_prefix),
    };
    rt::check(net().sent.len() == 1, "respond: one call sends one request");
    // JSON is asked for when a success is documented as JSON, and nothing
    // else is ever asked for
    let wants = table(op).iter().any(|(p, d)| *d == D::A && (*p == Default || *p == Range(2) || matches!(p, Code(200..=299))));
    let h = &net().sent[0].headers;
    let mut it = h.get_all("accept").iter();
    let ok = match (it.next(), it.next()) {
        (Some(v), None) => rt::same(v.as_bytes(), b"application/json"),
        (None, _) => !wants,
        _ => false,
    };
    rt::check(ok, "respond: a documented JSON answer is asked for");
    let json_ok = |d: D| match (d, kind) {
        (D::A, 0) | (D::E, 1) => true,
        _ => false,
    };
    let right = |v: &V, d: D| match (v, d) {
        (V::A(n, s), D::A) => rt::same(n.as_bytes(), c.as_bytes()) & (*s == Some(3)),
        (V::E(e), D::E) => rt::same(e.as_bytes(), c.as_bytes()),
        (V::Unit, D::Unit) => true,
        (V::Raw(b), D::Raw) => rt::same(b, &body),
        _ => false,
    };
    let typed = |d: D| d == D::A || d == D::E;
    match expect(op, st) {
        Want::Ok(d) if !typed(d) || json_ok(d) => rt::check(
            match &got {
                Got::Ok(v, m) => *m & right(v, d),
                _ => false,
            },
            "respond: a documented success is returned with its value, status and headers",
        ),
        Want::Err(d) if !typed(d) || json_ok(d) => rt::check(
            match &got {
                Got::Err(v, m) => *m & right(v, d),
                _ => false,
            },
            "respond: a documented error is returned with its value, status and headers",
        ),
        Want::Ok(_) | Want::Err(_) => rt::check(
            match &got {
                Got::Payload(b) => rt::same(b, &body),
                _ => false,
            },
            "respond: a documented answer that does not decode is an invalid payload",
        ),
        Want::Unexpected => rt::check(
            match &got {
                Got::Unexpected(b, m) => *m & rt::same(b, &body),
                _ => false,
            },
            "respond: an undocumented answer is unexpected and stays readable",
        ),
    }
}
