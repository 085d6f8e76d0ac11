//! Which arguments an operation has, and in which order.
use super::doc;
use crate::method::{BodyContentType, OperationMethod, OperationParameterKind as K};
use crate::sx_rt as rt;
use openapiv3::*;

fn letter() -> u8 {
    let b = rt::u8();
    rt::assume((b >= b'a') & (b <= b'z'));
    b
}
fn kind_of(k: &K) -> (u32, bool) {
    match k {
        K::Path => (0, true),
        K::Query(r) => (1, *r),
        K::Header(r) => (2, *r),
        K::Body(_) => (3, true),
    }
}

/// Args: number of parameters, prefix length of each name.
/// Distinct names; each path, query or header, required or not, declared by
/// the operation or its path, inline or by reference.
pub fn params() {
    let n = rt::arg(0) as usize;
    let with_body = rt::arg(1) == 1;
    let mut names: Vec<Vec<u8>> = vec![];
    let mut want = vec![];
    let mut op = doc::operation("o");
    let mut item: Vec<ReferenceOr<Parameter>> = vec![];
    let mut comp = Components::default();
    let mut path = String::new();
    for i in 0..n {
        // a prefix letter keeps names off the keywords
        let name = vec![b'q', letter()];
        for o in &names {
            rt::assume(!rt::same(o, &name));
        }
        names.push(name.clone());
        let kind = rt::choose(3);
        let required = kind == 0 || rt::choose(2) == 1;
        let s = String::from_utf8(name.clone()).unwrap();
        let p = doc::param(kind, s.clone(), required);
        if kind == 0 {
            path = if rt::choose(2) == 0 { format!("{}/{{{}}}", path, s) } else { format!("/{{{}}}{}", s, path) };
        }
        want.push((kind, required, name));
        match rt::choose(5) {
            0 => op.parameters.push(ReferenceOr::Item(p)),
            1 => item.push(ReferenceOr::Item(p)),
            2 => {
                let k = format!("P{}", i);
                op.parameters.push(ReferenceOr::ref_(&format!("#/components/parameters/{}", k)));
                comp.parameters.insert(k, ReferenceOr::Item(p));
            }
            3 => {
                let k = format!("P{}", i);
                let l = format!("L{}", i);
                item.push(ReferenceOr::ref_(&format!("#/components/parameters/{}", l)));
                comp.parameters.insert(l, ReferenceOr::ref_(&format!("#/components/parameters/{}", k)));
                comp.parameters.insert(k, ReferenceOr::Item(p));
            }
            _ => {
                // overridden: the path says something else about it
                item.push(ReferenceOr::Item(doc::param(kind, s, kind == 0 || !required)));
                op.parameters.push(ReferenceOr::Item(p));
            }
        }
    }
    if path.is_empty() {
        path.push('/');
    }
    if with_body {
        let content = doc::json(doc::string_schema());
        op.request_body = Some(ReferenceOr::Item(RequestBody { content, ..Default::default() }));
        want.push((3, true, b"body".to_vec()));
    }
    op.responses.default = Some(ReferenceOr::Item(doc::response()));
    let mut g = doc::generator();
    let Ok(m) = g.process_operation(&op, &Some(comp), &path, "get", &item) else {
        rt::check(false, "arguments: a supported operation is accepted");
        return;
    };
    check(&m, &want, &path)
}

fn check(m: &OperationMethod, want: &[(u32, bool, Vec<u8>)], path: &str) {
    rt::check(m.params.len() == want.len(), "arguments: one per declared parameter");
    let mut ok = m.params.len() == want.len();
    for (k, r, n) in want {
        let mut found = false;
        for p in &m.params {
            let (pk, pr) = kind_of(&p.kind);
            found |= rt::same(p.api_name.as_bytes(), n) & (pk == *k) & (pr == *r);
        }
        ok &= found;
    }
    rt::check(ok, "arguments: name, place and whether required are the declared ones");
    let mut ok = true;
    for w in m.params.windows(2) {
        let (a, b) = (kind_of(&w[0].kind).0, kind_of(&w[1].kind).0);
        ok &= a <= b;
        if a == b && (a == 1 || a == 2) {
            ok &= w[0].api_name < w[1].api_name;
        }
        if a == 0 && b == 0 {
            let at = |n: &str| path.find(&format!("{{{}}}", n));
            ok &= at(&w[0].api_name) < at(&w[1].api_name);
        }
    }
    rt::check(ok, "arguments: path in template order, query by name, headers by name, body");
    for p in &m.params {
        rt::out(p.api_name.as_bytes());
        rt::out(p.name.as_bytes());
        rt::out(&[kind_of(&p.kind).0 as u8 + b'0', kind_of(&p.kind).1 as u8 + b'0']);
    }
}

/// Args: number of parameters, layout. Many parameters of all places.
pub fn many() {
    let n = rt::arg(0) as usize;
    let lay = rt::arg(1);
    let (m, a, k) = (rt::arg(3) as usize, rt::arg(4) as usize, rt::arg(5) as usize);
    let mut op = doc::operation("o");
    let mut want = vec![];
    let mut path = String::new();
    let free = if lay == 9 { [n / 2, n] } else { [rt::choose(n as u32) as usize, rt::choose(2) as usize + n / 2] };
    for i in 0..n {
        let j = if lay == 9 { i } else { i * 13 % n };
        let kind = if i == free[0] || i == free[1] {
            rt::choose(3)
        } else {
            match lay {
                0 => 2,
                1 => (i % 3) as u32,
                2 => 1,
                3 => 1 + (i % 2) as u32,
                // a repeating pattern
                9 => 1 + (i * a % m >= k) as u32,
                _ => (i * 2 / n) as u32 + 1,
            }
        };
        let s = format!("p{}{}", (b'a' + (j / 26) as u8) as char, (b'a' + (j % 26) as u8) as char);
        if kind == 0 {
            path = if j % 2 == 0 { format!("{}/{{{}}}", path, s) } else { format!("/{{{}}}{}", s, path) };
        }
        want.push((kind, true, s.clone().into_bytes()));
        op.parameters.push(ReferenceOr::Item(doc::param(kind, s, true)));
    }
    path.push('/');
    if rt::arg(2) == 1 {
        let content = doc::json(doc::string_schema());
        op.request_body = Some(ReferenceOr::Item(RequestBody { content, ..Default::default() }));
        want.push((3, true, b"body".to_vec()));
    }
    op.responses.default = Some(ReferenceOr::Item(doc::response()));
    let mut g = doc::generator();
    let Ok(m) = g.process_operation(&op, &None, &path, "get", &[]) else {
        rt::check(false, "arguments: a supported operation is accepted");
        return;
    };
    check(&m, &want, &path)
}

entries! {
    i_params => params,
    i_params_many => many,
}
