//! Wide and long inputs: few free variables, many or long parts.
use super::query::form;
use super::resp::*;
use super::util::*;
use crate::rt;
use progenitor_client::{encode_path, Error, QueryParam, ResponseValue};
use serde::ser::*;

/// Words: text no encoder touches, so that one path covers all of it and any
/// treatment of particular words shows. arg0 bytes, arg1 use, arg2 alphabet.
pub fn word() {
    let s = rt::word(rt::arg(0) as usize, rt::arg(2));
    match rt::arg(1) {
        0 => super::path::one(&s),
        1 => check_pairs(query("n", &s), &vec![pair(b"n", s.as_bytes())], "query: a word decodes to itself"),
        2 => check_pairs(query(&s, &"v"), &vec![pair(s.as_bytes(), b"v")], "query: a word as the name"),
        3 => check_pairs(
            query("l", &vec![&s, &s]),
            &vec![pair(b"l", s.as_bytes()), pair(b"l", s.as_bytes())],
            "query: words in a list",
        ),
        4 => check_pairs(
            query("m", &Es(vec![(s.clone(), s.clone()), ("z".into(), s.clone())])),
            &vec![pair(s.as_bytes(), s.as_bytes()), pair(b"z", s.as_bytes())],
            "query: words in a map",
        ),
        5 => match form(&Es(vec![(s.clone(), s.clone())])) {
            Ok(p) => rt::check(pairs_eq(&p, &vec![pair(s.as_bytes(), s.as_bytes())]), "form: words"),
            Err(_) => rt::check(false, "form: words"),
        },
        _ => {
            // the same words as name and value
            let t = rt::word(s.len(), rt::arg(2));
            check_pairs(query(&s, &Some(&t)), &vec![pair(s.as_bytes(), t.as_bytes())], "query: a word as name and value")
        }
    }
}

pub struct Es(pub Vec<(String, String)>);
impl Serialize for Es {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(self.0.iter().map(|(k, v)| (k, v)))
    }
}

/// Serializer calls with symbolic names, variant names and indices.
struct Named {
    kind: u32,
    ty: &'static str,
    idx: u32,
    var: &'static str,
    fields: Vec<(&'static str, String)>,
    hint: usize,
}
impl Serialize for Named {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let f = &self.fields;
        match self.kind {
            0 => s.serialize_unit_variant(self.ty, self.idx, self.var),
            1 => s.serialize_newtype_variant(self.ty, self.idx, self.var, &f[0].1),
            2 => s.serialize_newtype_struct(self.ty, &f[0].1),
            3 => {
                let mut q = s.serialize_struct(self.ty, self.hint)?;
                for (k, v) in f {
                    q.serialize_field(k, v)?;
                }
                q.end()
            }
            4 => s.serialize_unit_struct(self.ty),
            5 => {
                let mut q = s.serialize_map(if self.hint == 99 { None } else { Some(self.hint) })?;
                for (k, v) in f {
                    q.serialize_key(k)?;
                    q.serialize_value(v)?;
                }
                q.end()
            }
            6 => {
                let mut q = s.serialize_seq(if self.hint == 99 { None } else { Some(self.hint) })?;
                for (_, v) in f {
                    q.serialize_element(v)?;
                }
                q.end()
            }
            7 => s.serialize_newtype_variant(self.ty, self.idx, self.var, &None::<u8>),
            8 => s.serialize_newtype_struct(
                self.ty,
                &Named { kind: 0, ty: self.ty, idx: self.idx, var: self.var, fields: vec![], hint: 0 },
            ),
            9 => {
                let mut q = s.serialize_struct_variant(self.ty, self.idx, self.var, self.hint)?;
                for (k, v) in f {
                    q.serialize_field(k, v)?;
                }
                q.end()
            }
            10 => {
                let mut q = s.serialize_tuple_variant(self.ty, self.idx, self.var, self.hint)?;
                for (_, v) in f {
                    q.serialize_field(v)?;
                }
                q.end()
            }
            _ => {
                let mut q = s.serialize_tuple_struct(self.ty, self.hint)?;
                for (_, v) in f {
                    q.serialize_field(v)?;
                }
                q.end()
            }
        }
    }
}

/// arg0: bytes of the names, arg1: alphabet (9: any UTF-8), arg2: kind, arg3: wrapping.
pub fn named() {
    let n = rt::arg(0) as usize;
    let a = rt::arg(1);
    let nm = || if a == 9 { rt::string(n) } else { rt::word(n, a) };
    let kind = rt::arg(2) as u32;
    let ty = rt::leak(rt::word(n, 3));
    let idx = rt::u32();
    let var = rt::leak(nm());
    let mut fields = vec![];
    if matches!(kind, 1 | 2 | 3 | 5 | 6 | 9 | 10 | 11) {
        fields.push((rt::leak(nm()), rt::word(2, 3)));
    }
    if matches!(kind, 3 | 5 | 6 | 9 | 10 | 11) {
        fields.push((rt::leak(nm()), rt::word(1, 0)));
        fields.push(("Zz", "".into()));
    }
    let hint = if kind == 5 || kind == 6 {
        // what may be announced: the size, or nothing
        [3, 99][rt::choose(2) as usize]
    } else {
        fields.len()
    };
    let own: Pairs = fields.iter().map(|(k, v)| pair(k.as_bytes(), v.as_bytes())).collect();
    let want: Option<Pairs> = match kind {
        0 | 8 => Some(vec![pair(b"q", var.as_bytes())]),
        1 => Some(vec![pair(var.as_bytes(), fields[0].1.as_bytes())]),
        2 => Some(vec![pair(b"q", fields[0].1.as_bytes())]),
        3 | 5 => Some(own),
        4 | 7 => Some(vec![]),
        6 => Some(fields.iter().map(|(_, v)| pair(b"q", v.as_bytes())).collect()),
        _ => None,
    };
    let v = Named { kind, ty, idx, var, fields, hint };
    let r = match rt::arg(3) {
        0 => query("q", &v),
        1 => query("q", &Some(v)),
        _ => {
            // a scalar in a list keeps the parameter's name
            query("q", &vec![Some(v)])
        }
    };
    match want {
        Some(w) => check_pairs(r, &w, "query: sent by its declared names"),
        None => rt::check(r.is_err(), "query: refused whatever its names"),
    }
}

/// arg0 entries; arg1: 0 map, 1 struct, 2 list of options, 3 many parameters.
pub fn many() {
    let n = rt::arg(0) as usize;
    let names: Vec<&'static str> = (0..n).map(|i| rt::leak(format!("k{}", i))).collect();
    let f = rt::u8();
    let mut vals: Vec<Option<u8>> = vec![Some(f); n];
    let mut free = vec![n - 1, n / 2, 0];
    free.dedup();
    for p in free {
        vals[p] = if rt::choose(2) == 1 { None } else { Some(rt::u8()) };
    }
    struct M<'a>(u64, &'a [&'static str], &'a [Option<u8>]);
    impl Serialize for M<'_> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            if self.0 == 0 {
                return s.collect_map(self.1.iter().zip(self.2.iter()));
            }
            let mut q = s.serialize_struct("S", self.1.len())?;
            for (k, v) in self.1.iter().zip(self.2.iter()) {
                q.serialize_field(k, v)?;
            }
            q.end()
        }
    }
    let id = "query: every one of many parts";
    let k = rt::arg(1);
    let r = match k {
        0 | 1 => QueryParam::new("q", &M(k, &names, &vals)).serialize(super::rec::Top),
        _ => QueryParam::new("q", &vals).serialize(super::rec::Top),
    };
    let mut want: super::rec::Recd = vec![];
    for i in 0..n {
        if let Some(v) = vals[i] {
            let nm = if k < 2 { names[i].as_bytes() } else { b"q" };
            want.push((super::rec::Leaf::Str(nm.to_vec()), super::rec::Leaf::Int(v as i128)));
        }
    }
    match r {
        Ok(p) => rt::check(super::rec::rec_eq(&p, &want), id),
        Err(_) => rt::check(false, id),
    }
}

/// arg0 parameters on one request, absent ones among them.
pub fn many_params() {
    let n = rt::arg(0) as usize;
    let s = rt::word(3, 3);
    let gone = rt::choose(n as u32 + 1) as usize;
    let mut b = client().get("http://h.example:8080/p/q?pre=1&pre=2");
    let mut want = vec![pair(b"pre", b"1"), pair(b"pre", b"2")];
    for i in 0..n {
        let nm = format!("p{}", i % 3);
        let v = if i == gone { None } else { Some(if i % 2 == 0 { s.clone() } else { i.to_string() }) };
        if let Some(v) = &v {
            want.push(pair(nm.as_bytes(), v.as_bytes()));
        }
        b = b.query(&QueryParam::new(&nm, &v));
    }
    check_pairs(b.build(), &want, "query: many parameters accumulate");
}

/// A long concrete body with free bytes in it. arg0 bytes, arg1 chunk size,
/// arg2: 0 a string document, 1 not a document at its very end, 2 a list.
pub fn decode_long() {
    let (n, m) = (rt::arg(0) as usize, rt::arg(1) as usize);
    let x = rt::u8();
    rt::assume((x != b'"') & (x != b'\\') & (x >= 32) & (x < 128));
    let mut b;
    let mut bad = false;
    match rt::arg(2) {
        2 => {
            b = vec![b'['];
            for _ in 0..n / 2 {
                b.extend(b"1,");
            }
            let d = rt::u8();
            rt::assume((d >= b'0') & (d <= b'9'));
            b.push(d);
            b.push(b']');
        }
        k => {
            b = vec![b'"'];
            b.extend(vec![b'a'; n]);
            b[n / 2] = x;
            b[n] = x;
            b.push(b'"');
            if k == 1 {
                b.push(rt::u8());
                let t = b[n + 2];
                bad = (t != b' ') & (t != b'\n') & (t != b'\t') & (t != b'\r');
            }
        }
    }
    let mut evs = vec![];
    let wait = rt::choose(2) == 1;
    for c in b.chunks(m) {
        if wait {
            evs.push(Ev::Wait);
        }
        evs.push(Ev::Data(c.to_vec()));
    }
    let polls = 2 * evs.len() + 9;
    let r = response(200, &headers(), evs);
    let id = "decode: a long document is its value";
    if rt::arg(2) == 2 {
        match block_on(ResponseValue::<Vec<u8>>::from_response::<()>(r), polls) {
            Some(Ok(v)) => rt::check(
                v.len() == n / 2 + 1 && v[..n / 2].iter().all(|x| *x == 1) && v[n / 2] == b[b.len() - 2] - b'0',
                id,
            ),
            _ => rt::check(false, id),
        }
        return;
    }
    match block_on(ResponseValue::<String>::from_response::<()>(r), polls) {
        Some(Ok(v)) => rt::check(!bad & rt::same(v.as_bytes(), &b[1..n + 1]), id),
        Some(Err(Error::InvalidResponsePayload(p, _))) => {
            rt::check(bad & rt::same(&p, &b), "decode: a long undecodable body is returned whole")
        }
        _ => rt::check(false, id),
    }
}

/// A failure after arg0 chunks of arg1 bytes each.
pub fn body_error_long() {
    let (n, m) = (rt::arg(0) as usize, rt::arg(1) as usize);
    let mut evs = vec![];
    let k = rt::choose(3);
    for i in 0..n {
        if k == 1 {
            evs.push(Ev::Wait);
        }
        let mut c = vec![b' '; m];
        if i == 0 {
            c[0] = b'7';
        }
        c[m - 1] = if i == 0 && m == 1 { b'7' } else { b' ' };
        evs.push(Ev::Data(c));
    }
    evs.push(Ev::Fail);
    if k == 2 {
        evs.push(Ev::Data(b" ".to_vec()));
    }
    let r = response(rt::choose(2) as u16 * 204 + 200, &vec![], evs);
    let res = block_on(ResponseValue::<u8>::from_response::<()>(r), 2 * n + 20);
    rt::check(matches!(res, Some(Err(Error::ResponseBodyError(_)))), "body error: at any point of a long body");
}

/// arg0 chunks of arg1 bytes, with waits; arg2: fails after the last chunk.
pub fn stream_waits() {
    let (n, m) = (rt::arg(0) as usize, rt::arg(1) as usize);
    let fail = rt::arg(2) == 1;
    let f = rt::u8();
    let every = [1usize, 2, 7][rt::choose(3) as usize];
    let mut want = vec![];
    let mut evs = vec![];
    for i in 0..n {
        if i % every == 0 {
            evs.push(Ev::Wait);
        }
        let mut c = vec![i as u8; m];
        if m > 0 {
            c[i % m] = f;
        }
        want.extend(&c);
        evs.push(Ev::Data(c));
    }
    if fail {
        evs.push(Ev::Fail);
    }
    let polls = 2 * evs.len() + 9;
    let rv = ResponseValue::stream(response(206, &vec![], evs));
    let w = waker();
    let mut cx = std::task::Context::from_waker(&w);
    let mut s = rv.into_inner_stream();
    let mut got = vec![];
    let mut end = 0;
    for _ in 0..polls {
        use std::task::Poll;
        match s.as_mut().poll_next(&mut cx) {
            Poll::Pending => {}
            Poll::Ready(Some(Ok(b))) => got.extend_from_slice(&b),
            Poll::Ready(Some(Err(_))) => {
                end = 2;
                break;
            }
            Poll::Ready(None) => {
                end = 1;
                break;
            }
        }
    }
    rt::check(end == if fail { 2 } else { 1 }, "stream: ends or fails as the transport does");
    rt::check(rt::same(&got, &want), "stream: all bytes before the end arrive");
}

/// arg0 headers survive each way of taking a response; arg1: which.
pub fn many_headers() {
    let n = rt::arg(0) as usize;
    let s = rt::u16();
    rt::assume(s >= 100 && s <= 999);
    let mut h = http::HeaderMap::new();
    let x = rt::bytes(1);
    for i in 0..n {
        // names repeat every 7th time
        let name = http::HeaderName::from_bytes(format!("x-{}", if i % 7 == 6 { 0 } else { i }).as_bytes()).unwrap();
        let mut v = match http::HeaderValue::from_bytes(if i % 5 == 0 { &x } else { b"v" }) {
            Ok(v) => v,
            Err(_) => {
                rt::assume(false);
                unreachable!()
            }
        };
        v.set_sensitive(i % 4 == 3);
        h.append(name, v);
    }
    let body = if rt::arg(1) == 0 { b"5".to_vec() } else { vec![] };
    let mut r = response(if s == 101 && rt::arg(1) == 3 { 200 } else { s }, &vec![], vec![Ev::Data(body)]);
    *r.headers_mut() = h.clone();
    let st = r.status();
    let id = "response: every header kept, with its values in order";
    fn same(a: &http::HeaderMap, b: &http::HeaderMap) -> bool {
        let mut ok = a.len() == b.len() && a.keys_len() == b.keys_len();
        for k in b.keys() {
            let x: Vec<_> = a.get_all(k).iter().collect();
            let y: Vec<_> = b.get_all(k).iter().collect();
            if x.len() != y.len() {
                return false;
            }
            for (v, w) in x.iter().zip(y.iter()) {
                ok &= rt::same(v.as_bytes(), w.as_bytes()) & (v.is_sensitive() == w.is_sensitive());
            }
        }
        ok
    }
    match rt::arg(1) {
        0 => match block_on(ResponseValue::<u8>::from_response::<()>(r), 9) {
            Some(Ok(rv)) => rt::check(same(rv.headers(), &h) & (rv.status() == st), id),
            _ => rt::check(false, id),
        },
        1 => {
            let rv = ResponseValue::stream(r);
            rt::check(same(rv.headers(), &h) & (rv.status() == st), id)
        }
        2 => {
            let rv = ResponseValue::empty(r);
            rt::check(same(rv.headers(), &h) & (rv.status() == st), id);
            let m: Result<ResponseValue<u8>, ()> = rv.map(|_| 1);
            match m {
                Ok(rv) => {
                    let e: Error<u8> = Error::ErrorResponse(rv);
                    match e.into_untyped() {
                        Error::ErrorResponse(rv) => rt::check(same(rv.headers(), &h) & (rv.status() == st), id),
                        _ => rt::check(false, id),
                    }
                }
                Err(_) => rt::check(false, id),
            }
        }
        _ => match block_on(ResponseValue::upgrade::<()>(r), 9) {
            Some(Err(Error::UnexpectedResponse(r))) => rt::check(same(r.headers(), &h) & (r.status() == st), id),
            _ => rt::check(false, id),
        },
    }
}
