//! Bodies, responses, methods and pages of an operation.
use super::doc;
use crate::method::{BodyContentType, HttpMethod, OperationMethod, OperationParameterKind as K, OperationParameterType as T, OperationResponseKind as R, OperationResponseStatus as S};
use crate::sx_rt as rt;
use openapiv3::*;
use serde_json::Value;

const MIME: [&str; 5] =
    ["application/octet-stream", "application/json", "application/x-www-form-urlencoded", "text/plain", "text/x-markdown"];

fn which(t: &BodyContentType) -> usize {
    match t {
        BodyContentType::OctetStream => 0,
        BodyContentType::Json => 1,
        BodyContentType::FormUrlencoded => 2,
        BodyContentType::Text(t) if t == MIME[3] => 3,
        BodyContentType::Text(t) if t == MIME[4] => 4,
        _ => 9,
    }
}
fn kind(m: &OperationMethod) -> Option<usize> {
    m.params.iter().find_map(|p| match &p.kind {
        K::Body(t) => Some(which(t)),
        _ => None,
    })
}
fn request(mime: String, schema: Option<ReferenceOr<Schema>>, by_ref: u32) -> (Operation, Option<Components>) {
    let mut op = doc::operation("o");
    op.responses.default = Some(ReferenceOr::Item(doc::response()));
    let mut content = indexmap::IndexMap::new();
    content.insert(mime, MediaType { schema, ..Default::default() });
    let b = ReferenceOr::Item(RequestBody { content, ..Default::default() });
    let mut c = Components::default();
    op.request_body = Some(match by_ref {
        0 => b,
        1 => {
            c.request_bodies.insert("B".into(), b);
            ReferenceOr::ref_("#/components/requestBodies/B")
        }
        _ => {
            c.request_bodies.insert("B".into(), b);
            c.request_bodies.insert("A".into(), ReferenceOr::ref_("#/components/requestBodies/B"));
            ReferenceOr::ref_("#/components/requestBodies/A")
        }
    });
    (op, Some(c))
}
fn text_schema(format: VariantOrUnknownOrEmpty<StringFormat>) -> Schema {
    Schema {
        schema_data: Default::default(),
        schema_kind: SchemaKind::Type(Type::String(StringType { format, ..Default::default() })),
    }
}

/// Args: free bytes after the media type. Every supported media type, exact,
/// with parameters, or with one byte changed.
pub fn media() {
    let k = rt::choose(5) as usize;
    let mut m = MIME[k].as_bytes().to_vec();
    let change = rt::choose(2) == 1;
    if change {
        let at = rt::choose(m.len() as u32) as usize;
        m[at] = rt::u8();
        rt::assume(m[at] < 128);
    }
    for b in rt::bytes(rt::arg(0) as usize) {
        rt::assume(b < 128);
        m.push(b);
    }
    media_one(m)
}
/// Args: length. Every short ASCII text.
pub fn media_short() {
    let m = rt::bytes(rt::arg(0) as usize);
    for b in &m {
        rt::assume(*b < 128);
    }
    media_one(m)
}
fn media_one(m: Vec<u8>) {
    let mut want = None;
    let mut cut = m.len();
    for i in (0..m.len()).rev() {
        if m[i] == b';' {
            cut = i;
        }
    }
    for (i, t) in MIME.iter().enumerate() {
        if rt::same(&m[..cut], t.as_bytes()) {
            want = Some(i);
        }
    }
    let text = String::from_utf8(m).unwrap_or_default();
    match (text.parse::<BodyContentType>(), want) {
        (Ok(t), Some(w)) => {
            rt::out(&[b'0' + w as u8]);
            rt::check(which(&t) == w, "body: sent as its media type, parameters aside");
            rt::check(t.to_string() == MIME[w], "body: sent as its media type, parameters aside");
        }
        (Err(_), None) => rt::reach("body: an unsupported media type is refused"),
        (Ok(_), None) => rt::check(false, "body: an unsupported media type is refused"),
        (Err(_), Some(_)) => rt::check(false, "body: a supported media type is accepted"),
    }
}
/// Whole operations whose body has a supported or unsupported media type.
pub fn media_op() {
    let k = rt::choose(5) as usize;
    let (m, good) = match rt::choose(8) {
        0 => (MIME[k].to_string(), true),
        1 => (format!("{};charset=utf-8", MIME[k]), true),
        2 => (format!("{}; a=b; c=d", MIME[k]), true),
        3 => (format!("{} ;a=b", MIME[k]), false),
        4 => (format!("{}x", MIME[k]), false),
        5 => (MIME[k][1..].to_string(), false),
        6 => (MIME[k].to_uppercase(), false),
        _ => ("*/*".to_string(), false),
    };
    let schema = match k {
        0 => text_schema(VariantOrUnknownOrEmpty::Item(StringFormat::Binary)),
        _ => text_schema(VariantOrUnknownOrEmpty::Empty),
    };
    let (mut op, c) = request(m, Some(ReferenceOr::Item(schema)), rt::choose(3));
    let with = rt::choose(2) == 1;
    if with {
        op.parameters.push(ReferenceOr::Item(doc::param(1, "q".into(), true)));
    }
    match doc::generator().process_operation(&op, &c, "/", "post", &[]) {
        Ok(m) => {
            rt::check(good, "body: an unsupported media type is refused");
            rt::check(kind(&m) == Some(k), "body: sent as its media type, parameters aside");
            rt::check(m.params.len() == 1 + with as usize, "body: is one argument");
        }
        Err(_) => rt::check(!good, "body: a supported media type is accepted"),
    }
}
/// What a raw or text body may look like.
pub fn body_schema() {
    let k = rt::choose(5) as usize;
    let mut s = match rt::choose(5) {
        0 => text_schema(VariantOrUnknownOrEmpty::Empty),
        1 => text_schema(VariantOrUnknownOrEmpty::Item(StringFormat::Binary)),
        2 => text_schema(VariantOrUnknownOrEmpty::Item(StringFormat::Byte)),
        3 => text_schema(VariantOrUnknownOrEmpty::Unknown("binary!".into())),
        _ => Schema {
            schema_data: Default::default(),
            schema_kind: SchemaKind::Type(Type::Boolean(Default::default())),
        },
    };
    let (mut plain, mut binary) = (false, false);
    if let SchemaKind::Type(Type::String(t)) = &s.schema_kind {
        plain = t.format == VariantOrUnknownOrEmpty::Empty;
        binary = t.format == VariantOrUnknownOrEmpty::Item(StringFormat::Binary);
    }
    let mut bare = true;
    match rt::choose(9) {
        0 => {
            s.schema_data.nullable = true;
            bare = false;
        }
        1 => {
            s.schema_data.default = Some(Value::String("x".into()));
            bare = false;
        }
        2 => {
            s.schema_data.discriminator = Some(Discriminator::default());
            bare = false;
        }
        3 => s.schema_data.description = Some("d".into()),
        4 => s.schema_data.title = Some("d".into()),
        n => {
            if let SchemaKind::Type(Type::String(t)) = &mut s.schema_kind {
                match n {
                    5 => t.pattern = Some("x".into()),
                    6 => t.min_length = Some(rt::u32() as usize),
                    7 => t.max_length = Some(rt::u32() as usize),
                    _ => t.enumeration = vec![Some("a".into())],
                }
                bare = false;
            }
        }
    }
    let by_ref = rt::choose(3);
    let (op, mut c) = request(MIME[k].into(), Some(ReferenceOr::Item(s.clone())), by_ref);
    let mut op = op;
    if k != 1 && k != 2 && rt::choose(2) == 1 {
        // the schema itself by reference
        let (o2, c2) = request(MIME[k].into(), Some(ReferenceOr::ref_("#/components/schemas/S")), by_ref);
        op = o2;
        c = c2;
        c.as_mut().unwrap().schemas.insert("S".into(), ReferenceOr::Item(s));
    }
    let got = doc::generator().process_operation(&op, &c, "/", "post", &[]);
    let want = match k {
        0 => binary && bare,
        1 | 2 => true,
        _ => plain && bare,
    };
    rt::out(&[got.is_ok() as u8]);
    rt::check(got.is_ok() == want, "body: raw and text bodies are unconstrained strings");
    if let Ok(m) = got {
        rt::check(kind(&m) == Some(k), "body: sent as its media type, parameters aside");
        let raw = m.params[0].typ == T::RawBody;
        rt::check(raw == (k != 1 && k != 2), "body: raw and text are passed through, others by type");
    }
}

/// Every method of a document.
pub fn method() {
    let k = rt::choose(8) as usize;
    let s = ["get", "put", "post", "delete", "options", "head", "patch", "trace"][k];
    let mut op = doc::operation("o");
    op.responses.default = Some(ReferenceOr::Item(doc::response()));
    let Ok(m) = doc::generator().process_operation(&op, &None, "/", s, &[]) else {
        rt::check(false, "operation: keeps its method");
        return;
    };
    let got = match m.method {
        HttpMethod::Get => 0,
        HttpMethod::Put => 1,
        HttpMethod::Post => 2,
        HttpMethod::Delete => 3,
        HttpMethod::Options => 4,
        HttpMethod::Head => 5,
        HttpMethod::Patch => 6,
        HttpMethod::Trace => 7,
    };
    rt::out(&[got as u8]);
    rt::check(got == k, "operation: keeps its method");
    // the method's name is put into the request line of the generated client
    let item = ReferenceOr::Item(
        serde_json::from_str::<PathItem>(&format!(
            "{{\"{}\":{{\"operationId\":\"o\",\"responses\":{{\"default\":{{\"description\":\"\"}}}}}}}}",
            s
        ))
        .unwrap(),
    );
    let it = item.as_item().unwrap();
    let l: Vec<_> = it.iter().map(|(m, _)| m.to_string()).collect();
    rt::check(l == vec![s.to_string()], "operation: keeps its method");
}

const CODES: [u16; 12] = [100, 200, 204, 299, 300, 399, 400, 404, 499, 500, 503, 599];
/// A declared status: a code at the edge of its class, or a class.
fn status() -> (S, StatusCode) {
    if rt::choose(2) == 0 {
        let c = CODES[rt::choose(12) as usize];
        (S::Code(c), StatusCode::Code(c))
    } else {
        let r = 1 + rt::choose(5) as u16;
        (S::Range(r), StatusCode::Range(r))
    }
}
fn object(items: Schema, next: Schema, extra: bool) -> Schema {
    let mut t = ObjectType::default();
    t.properties.insert("items".into(), ReferenceOr::boxed_item(items));
    t.properties.insert("next_page".into(), ReferenceOr::boxed_item(next));
    if extra {
        t.properties.insert("more".into(), ReferenceOr::boxed_item(text_schema(VariantOrUnknownOrEmpty::Empty)));
    }
    t.required.push("items".into());
    Schema { schema_data: Default::default(), schema_kind: SchemaKind::Type(Type::Object(t)) }
}
fn content(k: u32) -> indexmap::IndexMap<String, MediaType> {
    let mut m = indexmap::IndexMap::new();
    let mut add = |t: &str| {
        m.insert(t.to_string(), MediaType { schema: Some(doc::string_schema()), ..Default::default() });
    };
    match k {
        0 => {}
        1 => add("application/json"),
        2 => add("application/json; charset=utf-8"),
        3 => {
            add("text/plain");
            add("application/json");
        }
        4 => add("text/plain"),
        5 => add("application/jsonx"),
        _ => add("*/*"),
    }
    m
}
/// 0 none, 1 typed, 2 raw.
fn decoded(k: u32) -> u32 {
    match k {
        0 => 0,
        1..=3 => 1,
        _ => 2,
    }
}
fn response_kind(r: &R) -> u32 {
    match r {
        R::None => 0,
        R::Type(_) => 1,
        R::Raw => 2,
        R::Upgrade => 3,
    }
}
/// Args: declared responses, 1 if also a default. All successes have one kind
/// of content, all errors another.
pub fn responses() {
    let n = rt::arg(0) as usize;
    // 0 no default, 1 default, from 2 on also fixes the successes' content
    let default = rt::arg(1) % 2 == 1;
    let ks = if rt::arg(1) < 2 { rt::choose(7) } else { rt::arg(1) as u32 / 2 - 1 };
    let ke = if default { ks } else { rt::choose(7) };
    let mut op = doc::operation("o");
    let mut c = Components::default();
    let mut decl: Vec<S> = vec![];
    for i in 0..n {
        let (s, code) = status();
        for d in &decl {
            rt::assume(*d != s);
        }
        let mut r = doc::response();
        r.content = content(if is_ok(&s) { ks } else { ke });
        let r = ReferenceOr::Item(r);
        let r = if rt::choose(2) == 0 {
            r
        } else {
            let k = format!("R{}", i);
            c.responses.insert(k.clone(), r);
            ReferenceOr::ref_(&format!("#/components/responses/{}", k))
        };
        op.responses.responses.insert(code, r);
        decl.push(s);
    }
    if default {
        let mut r = doc::response();
        r.content = content(ks);
        op.responses.default = Some(ReferenceOr::Item(r));
        decl.push(S::Default);
    }
    judge(op, c, decl, ks, ke, default, true)
}
fn is_ok(s: &S) -> bool {
    match s {
        S::Code(c) => (*c >= 200) & (*c <= 299),
        S::Range(r) => *r == 2,
        S::Default => true,
    }
}

/// Args: declared responses. Many codes and classes of one kind of success and
/// one of error, in either order, one of them left out, with a default or not.
pub fn responses_many() {
    const ALL: [u16; 19] = [4, 200, 404, 5, 201, 400, 202, 401, 206, 403, 204, 2, 409, 418, 429, 500, 502, 503, 3];
    let n = rt::arg(0) as usize;
    let default = rt::choose(2) == 1;
    let ks = [0, 1, 4][rt::choose(3) as usize];
    let ke = if default { ks } else { [0, 1, 4][rt::choose(3) as usize] };
    let out = rt::choose(n as u32 + 1) as usize;
    let back = rt::choose(2) == 1;
    let mut op = doc::operation("o");
    let mut decl: Vec<S> = vec![];
    for i in 0..n {
        if i == out {
            continue;
        }
        let k = ALL[if back { n - 1 - i } else { i }];
        let (s, code) =
            if k < 10 { (S::Range(k), StatusCode::Range(k)) } else { (S::Code(k), StatusCode::Code(k)) };
        let mut r = doc::response();
        r.content = content(if is_ok(&s) { ks } else { ke });
        op.responses.responses.insert(code, ReferenceOr::Item(r));
        decl.push(s);
    }
    if default {
        let mut r = doc::response();
        r.content = content(ks);
        op.responses.default = Some(ReferenceOr::Item(r));
        decl.push(S::Default);
    }
    judge(op, Components::default(), decl, ks, ke, default, false)
}

fn judge(op: Operation, c: Components, mut decl: Vec<S>, ks: u32, ke: u32, default: bool, vary: bool) {
    let g = &mut doc::generator();
    let Ok(m) = g.process_operation(&op, &Some(c), "/", "get", &[]) else {
        rt::check(false, "responses: a supported operation is accepted");
        return;
    };
    // any codes of the same classes
    let mut m = m;
    for r in m.responses.iter_mut() {
        if !vary {
            continue;
        }
        if let S::Code(c) = &mut r.status_code {
            let n = rt::u16();
            rt::assume((n >= *c / 100 * 100) & (n <= *c / 100 * 100 + 99) & (n != 101));
            for d in decl.iter_mut() {
                if let S::Code(k) = d {
                    if *k == *c {
                        *k = n + 1000;
                    }
                }
            }
            *c = n;
        }
    }
    for d in decl.iter_mut() {
        if !vary {
            continue;
        }
        if let S::Code(k) = d {
            *k -= 1000;
        }
    }
    let (ok_items, ok_kind) = g.extract_responses(&m, S::is_success_or_default);
    let (err_items, err_kind) = g.extract_responses(&m, S::is_error_or_default);
    // what the arms made from these do with any status
    let st = rt::u16();
    rt::assume((st >= 100) & (st <= 599));
    let mut got = 0;
    let mut got_kind = 9;
    for r in &ok_items {
        let hit = match r.status_code {
            S::Code(c) => c == st,
            _ => (st >= 200) & (st <= 299),
        };
        if got == 0 && hit {
            got = 1;
            got_kind = response_kind(&r.typ);
        }
    }
    for r in &err_items {
        let hit = match r.status_code {
            S::Code(c) => c == st,
            S::Range(r) => (st >= r * 100) & (st <= r * 100 + 99),
            S::Default => true,
        };
        if got == 0 && hit {
            got = 2;
            got_kind = response_kind(&r.typ);
        }
    }
    let ok = (st >= 200) & (st <= 299);
    let mut declared = false;
    let mut any_ok = false;
    for s in &decl {
        declared |= match s {
            S::Code(c) => *c == st,
            S::Range(r) => (st >= r * 100) & (st <= r * 100 + 99),
            S::Default => true,
        };
        any_ok |= is_ok(s);
    }
    let err = (st >= 400) & (st <= 599);
    let (want, want_kind) = if ok {
        if declared {
            (1, decoded(ks))
        } else if !any_ok {
            // nothing is said about success: any body will do
            (1, 2)
        } else {
            (0, 9)
        }
    } else if (err && declared) || default {
        (2, decoded(ke))
    } else {
        (0, 9)
    };
    rt::out(&[b'0' + got, b'0' + got_kind as u8]);
    rt::check(got == want, "responses: success, error or unexpected as declared");
    rt::check(got_kind == want_kind, "responses: decoded as the declared content");
    if want == 1 {
        rt::check(response_kind(&ok_kind) == want_kind, "responses: the result type is the declared one");
    }
    if want == 2 {
        rt::check(response_kind(&err_kind) == want_kind, "responses: the result type is the declared one");
    }
}

/// Args: 0 to vary parameters, 1 to vary the page's type, 2 the responses.
pub fn pages() {
    let vary = rt::arg(0);
    let mut op = doc::operation("o");
    let mut want = true;
    let req = [b"".to_vec(), b"a".to_vec()];
    match rt::choose(4) {
        0 => {
            op.extensions.insert("x-dropshot-pagination".into(), Value::Bool(true));
        }
        1 => {
            let v = serde_json::from_str("{\"required\":[\"a\",\"b\"]}").unwrap();
            op.extensions.insert("x-dropshot-pagination".into(), v);
        }
        2 => {
            op.extensions.insert("x-dropshot-paginatio".into(), Value::Bool(true));
            want = false;
        }
        _ => want = false,
    }
    let mut add = |n: &str, kind: u32, required: bool| {
        op.parameters.push(ReferenceOr::Item(doc::param(kind, n.into(), required)));
    };
    if vary == 0 {
        for n in ["page_token", "limit"] {
            match rt::choose(5) {
                0 => want = false,
                1 => {
                    add(n, 1, true);
                    want = false;
                }
                2 => {
                    add(n, 2, false);
                    want = false;
                }
                3 => {
                    add(&format!("{}s", n), 1, false);
                    want = false;
                }
                _ => add(n, 1, false),
            }
        }
        match rt::choose(5) {
            0 => {
                add("b", 1, true);
                want = false;
            }
            1 => add("b", 1, false),
            2 => add("b", 2, true),
            3 => add("c", 2, false),
            _ => {}
        }
    } else {
        add("page_token", 1, false);
        add("limit", 1, false);
    }
    let s = || text_schema(VariantOrUnknownOrEmpty::Empty);
    let nullable = || {
        let mut x = s();
        x.schema_data.nullable = true;
        x
    };
    let list = || Schema {
        schema_data: Default::default(),
        schema_kind: SchemaKind::Type(Type::Array(ArrayType {
            items: Some(ReferenceOr::boxed_item(s())),
            ..Default::default()
        })),
    };
    let page = if vary == 1 {
        match rt::choose(7) {
            0 => object(list(), nullable(), false),
            1 => {
                want = false;
                object(list(), nullable(), true)
            }
            2 => {
                want = false;
                object(s(), nullable(), false)
            }
            3 => {
                want = false;
                let mut n = list();
                n.schema_data.nullable = true;
                object(list(), n, false)
            }
            4 => {
                want = false;
                list()
            }
            5 => {
                want = false;
                object(nullable(), list(), false)
            }
            _ => {
                want = false;
                let mut t = ObjectType::default();
                t.properties.insert("items".into(), ReferenceOr::boxed_item(list()));
                Schema { schema_data: Default::default(), schema_kind: SchemaKind::Type(Type::Object(t)) }
            }
        }
    } else {
        object(list(), nullable(), false)
    };
    let typed = |p: Schema| {
        let mut r = doc::response();
        r.content = doc::json(ReferenceOr::Item(p));
        ReferenceOr::Item(r)
    };
    if vary == 2 {
        let (s0, c0) = status();
        let ok = match s0 {
            S::Code(c) => (c >= 200) & (c <= 299),
            S::Range(r) => r == 2,
            _ => false,
        };
        want &= ok;
        op.responses.responses.insert(c0, typed(page.clone()));
        match rt::choose(4) {
            0 => {
                op.responses.responses.insert(StatusCode::Code(200), typed(page));
                let one = matches!(s0, S::Code(200));
                want &= one;
                rt::assume(one | ok);
            }
            1 => {
                op.responses.responses.insert(StatusCode::Code(404), typed(s()));
            }
            2 => {
                op.responses.default = Some(typed(s()));
            }
            _ => {}
        }
        if rt::choose(3) == 0 {
            let raw = rt::choose(2) == 0;
            let f = if raw { VariantOrUnknownOrEmpty::Item(StringFormat::Binary) } else { VariantOrUnknownOrEmpty::Empty };
            let (o2, _) = request(if raw { MIME[0] } else { MIME[1] }.into(), Some(ReferenceOr::Item(text_schema(f))), 0);
            op.request_body = o2.request_body;
            want &= !raw;
        }
    } else {
        op.responses.responses.insert(StatusCode::Code(200), typed(page));
    }
    let Ok(m) = doc::generator().process_operation(&op, &None, "/", "get", &[]) else {
        rt::check(false, "pages: a supported operation is accepted");
        return;
    };
    let got = m.dropshot_paginated.is_some();
    rt::out(&[got as u8]);
    rt::check(got == want, "pages: a stream exactly for operations that return pages");
}

entries! {
    i_media => media,
    i_media_short => media_short,
    i_media_op => media_op,
    i_body_schema => body_schema,
    i_method => method,
    i_responses => responses,
    i_responses_many => responses_many,
    i_pages => pages,
}
