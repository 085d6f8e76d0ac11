//! Query parameters: names, presence, inheritance from the path item.
use super::common::*;
use crate::rt;

/// n > 0: free text of n bytes; 0: two letters.
fn val(n: usize) -> String {
    if n == 0 {
        rt::word(2, 3)
    } else {
        value(n)
    }
}
fn opt(n: usize) -> Option<String> {
    if rt::choose(2) == 1 {
        Some(val(n))
    } else {
        None
    }
}
fn push<'a>(w: &mut Vec<(&'a str, &'a [u8])>, n: &'a str, v: &'a Option<String>) {
    if let Some(v) = v {
        w.push((n, v.as_bytes()));
    }
}
fn judge(k: K, base: &str, method: &str, segs: &[Vec<u8>], q: &[(&str, &[u8])]) {
    rt::check(k == K::Ok, "query: the documented answer is returned");
    match only() {
        Some(r) => {
            rt::check(r.method == method, "query: method");
            rt::check(segs_eq(&segments(&r.url, base), segs), "query: parameters stay out of the path");
            rt::check(query_is(&r.url, q), "query: each given parameter is sent once under its documented name");
            rt::check(
                headers_are(&r.headers, &[("api-version", VERSION)]) && r.body.is_none(),
                "query: nothing undocumented is sent",
            );
        }
        None => rt::check(false, "query: one call sends one request"),
    }
}

macro_rules! set {
    ($b:expr, $f:ident, $v:expr) => {
        match $v {
            Some(v) => $b.$f(v),
            None => $b,
        }
    };
}

/// arg0: interface style, arg1: which value is free text (or none), arg2: its
/// bytes, arg3: 0 own and inherited parameters, 1 inherited only.
pub fn query() {
    let (mode, which, n) = (rt::arg(0), rt::arg(1), rt::arg(2) as usize);
    let l = |i: u64| if i == which { n } else { 0 };
    let base = BASES[0];
    let id = val(l(0));
    let shared = val(l(1));
    let common = opt(l(2));
    not_dot(id.as_bytes());
    no_content();
    let segs = vec![b"q".to_vec(), id.as_bytes().to_vec()];
    if rt::arg(3) == 1 {
        let over = opt(l(3));
        let k = if mode == 0 {
            let c = gen::pm::Client::new_with_client(base, Client::new());
            kind(&run(c.inherited(&id, common.as_deref(), over.as_deref(), &shared)))
        } else {
            let c = gen::bm::Client::new_with_client(base, Client::new());
            let b = c.inherited().id(&id).shared(&shared);
            let b = set!(b, over, over.clone());
            let b = set!(b, common, common.clone());
            kind(&run(b.send()))
        };
        let mut w = vec![("shared", shared.as_bytes())];
        push(&mut w, "common", &common);
        push(&mut w, "over", &over);
        judge(k, base, "DELETE", &segs, &w);
        return;
    }
    let over = val(l(3));
    let ab = val(l(4));
    let zeta = opt(l(5));
    let mixed = opt(l(6));
    let k = match mode {
        0 => {
            let c = gen::pm::Client::new_with_client(base, Client::new());
            kind(&run(c.queries(
                &id,
                mixed.as_deref(),
                &ab,
                common.as_deref(),
                &over,
                &shared,
                zeta.as_deref(),
            )))
        }
        1 => {
            let c = gen::bm::Client::new_with_client(base, Client::new());
            let b = c.queries();
            let b = set!(b, zeta, zeta.clone());
            let b = b.over(&over).alpha_beta(&ab).id(&id).shared(&shared);
            let b = set!(b, common, common.clone());
            let b = set!(b, mixed, mixed.clone());
            kind(&run(b.send()))
        }
        _ => {
            // the operation has two tags; either trait reaches it
            let c = gen::tm::Client::new_with_client(base, Client::new());
            let b = if mode == 2 {
                gen::tm::ClientFirstExt::queries(&c)
            } else {
                gen::tm::ClientSecondExt::queries(&c)
            };
            let b = set!(b, mixed, mixed.clone());
            let b = set!(b, common, common.clone());
            let b = set!(b, zeta, zeta.clone());
            kind(&run(b.shared(&shared).id(&id).alpha_beta(&ab).over(&over).send()))
        }
    };
    let mut w = vec![("shared", shared.as_bytes()), ("over", over.as_bytes()), ("alpha-beta", ab.as_bytes())];
    push(&mut w, "common", &common);
    push(&mut w, "zeta", &zeta);
    push(&mut w, "Mixed", &mixed);
    judge(k, base, "GET", &segs, &w);
}

/// Decimal text of a number, by repeated division.
pub fn dec(v: i128) -> Vec<u8> {
    let mut d = vec![];
    let mut m = if v < 0 { -v } else { v };
    loop {
        d.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    if v < 0 {
        d.push(b'-');
    }
    d.reverse();
    d
}
/// Reads a decimal number back.
pub fn undec(b: &[u8]) -> Option<i128> {
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() || d.len() > 20 {
        return None;
    }
    let mut v = 0i128;
    for c in d {
        if !c.is_ascii_digit() {
            return None;
        }
        v = v.wrapping_mul(10).wrapping_add((c - b'0') as i128);
    }
    Some(if neg { -v } else { v })
}

/// arg0: interface style, arg1: 0 the i32, 1 the u64 is symbolic.
pub fn scalars() {
    let mode = rt::arg(0);
    let base = BASES[1];
    let n = if rt::arg(1) == 0 { Some(int32()) } else { None };
    let u = if rt::arg(1) == 1 { Some(uint64()) } else { None };
    let b = rt::choose(2) == 1;
    let ks = ["one-x", "Two", "three y"];
    let k = rt::choose(4) as usize;
    let maybe = opt(0);
    no_content();
    let r = if mode == 0 {
        let c = gen::pm::Client::new_with_client(base, Client::new());
        let kk = if k < 3 { ks[k].parse().ok() } else { None };
        kind(&run(c.scalars(b, kk, maybe.as_deref(), n, u)))
    } else {
        let c = gen::bm::Client::new_with_client(base, Client::new());
        let x = c.scalars().b(b);
        let x = set!(x, n, n);
        let x = set!(x, u, u);
        let x = set!(x, maybe, maybe.clone());
        let x = if k < 3 { x.k(ks[k]) } else { x };
        kind(&run(x.send()))
    };
    rt::check(r == K::Ok, "query: the documented answer is returned");
    let Some(s) = only() else {
        rt::check(false, "query: one call sends one request");
        return;
    };
    rt::out(s.url.as_str().as_bytes());
    let Some(p) = crate::util::parse_pairs(s.url.query().unwrap_or("").as_bytes()) else {
        rt::check(false, "query: each given parameter is sent once under its documented name");
        return;
    };
    let get = |n: &str| -> Vec<&[u8]> { p.iter().filter(|(k, _)| k == n.as_bytes()).map(|(_, v)| &v[..]).collect() };
    let is = |n: &str, want: Option<&[u8]>| match (get(n).as_slice(), want) {
        ([], None) => true,
        ([g], Some(w)) => rt::same(g, w),
        _ => false,
    };
    let num = |name: &str, want: Option<i128>| match (get(name).as_slice(), want) {
        ([], None) => true,
        ([g], Some(w)) => undec(g) == Some(w),
        _ => false,
    };
    let ok = is("b", Some(if b { b"true" } else { b"false" }))
        & is("k", ks.get(k).map(|s| s.as_bytes()))
        & is("maybe", maybe.as_ref().map(|s| s.as_bytes()))
        & num("n", n.map(|x| x as i128))
        & num("u", u.map(|x| x as i128));
    rt::check(ok, "query: each given parameter is sent once under its documented name");
}

/// arg0: interface style, arg1: items, arg2: bytes per item.
pub fn list() {
    let (mode, n, k) = (rt::arg(0), rt::arg(1) as usize, rt::arg(2) as usize);
    let base = BASES[2];
    let must: Vec<String> = (0..n).map(|_| val(k)).collect();
    let tag: Option<Vec<String>> = if rt::choose(2) == 1 { Some((0..2).map(|_| val(0)).collect()) } else { None };
    no_content();
    let r = if mode == 0 {
        let c = gen::pm::Client::new_with_client(base, Client::new());
        kind(&run(c.list(&must, tag.as_ref())))
    } else {
        let c = gen::bm::Client::new_with_client(base, Client::new());
        let x = c.list().must(must.clone());
        let x = set!(x, tag, tag.clone());
        kind(&run(x.send()))
    };
    let mut w: Vec<(&str, &[u8])> = must.iter().map(|s| ("must", s.as_bytes())).collect();
    if let Some(t) = &tag {
        w.extend(t.iter().map(|s| ("tag", s.as_bytes())));
    }
    judge(r, base, "GET", &[b"list".to_vec()], &w);
}

/// Parameters named like the generated code's own variables.
pub fn locals() {
    let mode = rt::arg(0);
    let base = BASES[0];
    let v: Vec<String> = (0..8).map(|_| rt::word(2, 3)).collect();
    no_content();
    let given = rt::choose(2) == 1;
    let r = if mode == 0 {
        let c = gen::pm::Client::new_with_client(base, Client::new());
        let o = |i: usize| if given { Some(v[i].as_str()) } else { None };
        kind(&run(c.locals(&v[0], &v[1], o(2), o(3), o(4), o(5), o(6), o(7))))
    } else {
        let c = gen::bm::Client::new_with_client(base, Client::new());
        let x = c.locals().url(&v[0]).request(&v[1]);
        let x = if given {
            x.client(&v[2]).response(&v[3]).result(&v[4]).value(&v[5]).header_map(&v[6]).value2(&v[7])
        } else {
            x
        };
        kind(&run(x.send()))
    };
    rt::check(r == K::Ok, "query: the documented answer is returned");
    let Some(s) = only() else {
        rt::check(false, "query: one call sends one request");
        return;
    };
    let segs = [b"n".to_vec(), v[0].as_bytes().to_vec(), v[1].as_bytes().to_vec()];
    rt::check(segs_eq(&segments(&s.url, base), &segs), "names: path parameters named like locals reach the path");
    let b = |i: usize| v[i].as_bytes();
    if given {
        rt::check(
            query_is(&s.url, &[("client", b(2)), ("response", b(3)), ("result", b(4)), ("value", b(5))]),
            "names: query parameters named like locals reach the query",
        );
        rt::check(
            headers_are(&s.headers, &[("api-version", VERSION), ("header_map", b(6)), ("value2", b(7))]),
            "names: header parameters named like locals reach the headers",
        );
    } else {
        rt::check(
            query_is(&s.url, &[]) && headers_are(&s.headers, &[("api-version", VERSION)]),
            "names: absent parameters are not sent",
        );
    }
}
