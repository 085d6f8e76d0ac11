//! C43, C44: what the generated code says about itself, and where its
//! operations are to be found.
use super::doc;
use crate::rt;
use openapiv3::{OpenAPI, Operation, ReferenceOr};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use progenitor_impl::{GenerationSettings, Generator, InterfaceStyle, TagStyle};

/// One item of the generated code: what it is, its name, the module, trait or
/// impl it stands in, its documentation, and its body.
pub struct Item {
    pub kind: String,
    pub name: String,
    pub at: String,
    pub doc: Option<String>,
    pub head: Vec<String>,
    pub body: Option<TokenStream>,
}
/// The text that a string literal stands for.
pub fn unquote(lit: &str) -> String {
    let s = &lit[1..lit.len() - 1];
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some('x') => {
                let v = it.by_ref().take(2).fold(0, |v, d| v * 16 + d.to_digit(16).unwrap_or(0));
                out.push(char::from_u32(v).unwrap_or('?'));
            }
            Some('u') => {
                let mut v = 0u32;
                for d in it.by_ref() {
                    if d == '}' {
                        break;
                    }
                    v = v * 16 + d.to_digit(16).unwrap_or(0);
                }
                out.push(char::from_u32(v).unwrap_or('?'));
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}
/// The literal of `#[doc = "…"]`.
fn doc_of(attr: TokenStream) -> Option<String> {
    let mut it = attr.into_iter();
    match (it.next(), it.next(), it.next()) {
        (Some(TokenTree::Ident(i)), Some(TokenTree::Punct(p)), Some(TokenTree::Literal(l))) if i == "doc" && p.as_char() == '=' => {
            Some(unquote(&l.to_string()))
        }
        _ => None,
    }
}
pub fn items(ts: TokenStream, at: &str, out: &mut Vec<Item>) {
    let mut it = ts.into_iter().peekable();
    let mut doc: Option<String> = None;
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    if let Some(d) = doc_of(g.stream()) {
                        // several attributes are several lines
                        doc = Some(match doc.take() {
                            Some(o) => format!("{}\n{}", o, d),
                            None => d,
                        });
                    }
                    it.next();
                }
            }
            TokenTree::Ident(k) if k == "fn" || k == "struct" || k == "trait" || k == "mod" || k == "impl" || k == "use" || k == "enum" => {
                // up to the body or the semicolon
                let mut head = vec![];
                let mut body = None;
                for t in it.by_ref() {
                    match t {
                        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                            body = Some(g.stream());
                            break;
                        }
                        TokenTree::Punct(p) if p.as_char() == ';' => break,
                        TokenTree::Group(_) => head.push("()".to_string()),
                        t => head.push(t.to_string()),
                    }
                }
                let kind = k.to_string();
                let name = if kind == "impl" || kind == "use" { head.concat() } else { head[0].clone() };
                let inside = if at.is_empty() { name.clone() } else { format!("{}/{}", at, name) };
                if kind == "trait" || kind == "impl" || kind == "mod" {
                    if let Some(b) = &body {
                        items(b.clone(), &inside, out);
                    }
                }
                out.push(Item { kind, name, at: at.to_string(), doc: doc.take(), head, body });
            }
            _ => {}
        }
    }
}
fn made(spec: &OpenAPI, s: &GenerationSettings) -> Vec<Item> {
    let mut out = vec![];
    items(Generator::new(s).generate_tokens(spec).expect("the harness's document"), "", &mut out);
    out
}
/// The documentation of the only such item.
fn doc_at<'a>(all: &'a [Item], kind: &str, at: &str, name: &str) -> Option<&'a str> {
    let mut found = None;
    for i in all {
        if i.kind == kind && i.at == at && i.name == name {
            rt::check(found.is_none(), "text: an item is generated once");
            found = Some(i.doc.as_deref().unwrap_or(""));
        }
    }
    found
}
fn says(got: Option<&str>, want: &str, id: &str) {
    match got {
        Some(g) => rt::check(rt::same(g.as_bytes(), want.as_bytes()), id),
        None => rt::check(false, "text: the operation is generated where it belongs"),
    }
}
/// The text of one literal argument of a call `.name("…")` in tokens.
fn call(ts: TokenStream, name: &str, out: &mut Vec<String>) {
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i == name => {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    if let Some(TokenTree::Literal(l)) = g.stream().into_iter().next() {
                        out.push(unquote(&l.to_string()));
                    }
                }
            }
            TokenTree::Group(g) => call(g.stream(), name, out),
            _ => {}
        }
    }
}
/// n bytes of any ASCII character; a long text has one, last but for a few.
fn ascii(n: usize) -> String {
    let mut v = rt::bytes(if n < 100 { n } else { 1 });
    for b in &v {
        rt::assume(*b < 128);
    }
    if n >= 100 {
        let mut w = "Some `words` of it, with a *mark*. And more:\n\n- a \"list\"\n  of {two}\n\n".repeat(n / 70 + 1).into_bytes();
        w.truncate(n - 6);
        w.append(&mut v);
        w.extend_from_slice(b" end.");
        v = w;
    }
    String::from_utf8(v).unwrap_or_default()
}
/// Without the full stops and commas at its end.
fn bare(s: &str) -> &str {
    let b = s.as_bytes();
    let mut n = b.len();
    while n > 0 && (b[n - 1] == b'.' || b[n - 1] == b',') {
        n -= 1;
    }
    &s[..n]
}

const OPS: &str = r##"{"openapi":"3.0.0","info":{"title":"t","version":"1"},"paths":{
"/a/{id}/b":{"get":{"operationId":"getIt","parameters":[
{"name":"q-x","in":"query","required":false,"schema":{"type":"string"}},
{"name":"id","in":"path","required":true,"schema":{"type":"string"}}],
"responses":{"200":{"description":"","content":{"application/json":{"schema":{"$ref":"#/components/schemas/Thing"}}}}}}},
"/list":{"get":{"operationId":"list","parameters":[
{"name":"limit","in":"query","required":false,"schema":{"type":"string"}},
{"name":"page_token","in":"query","required":false,"schema":{"type":"string"}},
{"name":"sort","in":"query","required":false,"schema":{"type":"string"}}],
"responses":{"200":{"description":"","content":{"application/json":{"schema":{"$ref":"#/components/schemas/Page"}}}}},
"x-dropshot-pagination":{"required":[]}}}},
"components":{"schemas":{"Thing":{"type":"object","required":["a"],"properties":{"a":{"type":"string"}}},
"Page":{"type":"object","required":["items"],"properties":{"next_page":{"type":"string","nullable":true},
"items":{"type":"array","items":{"$ref":"#/components/schemas/Thing"}}}}}}}"##;

fn op<'a>(spec: &'a mut OpenAPI, path: &str) -> &'a mut Operation {
    match spec.paths.paths.get_mut(path) {
        Some(ReferenceOr::Item(i)) => i.get.as_mut().expect("the harness's operation"),
        _ => panic!("the harness's path"),
    }
}
/// Gives an operation the texts, and says what must be told of it.
struct Texts {
    summary: Option<String>,
    description: Option<String>,
    params: Vec<Option<String>>,
}
impl Texts {
    /// Which texts there are varies, or which `free` says, of `n` characters.
    fn any(params: usize, n: usize, free: u64) -> Texts {
        let mut one = |bit: u64| match free {
            9 => (rt::choose(2) == 1).then(|| "w.".to_string()),
            f => (f == bit).then(|| ascii(n)),
        };
        Texts { summary: one(0), description: one(1), params: (0..params as u64).map(|k| one(2 + k)).collect() }
    }
    fn put(&self, o: &mut Operation) {
        o.summary = self.summary.clone();
        o.description = self.description.clone();
        for (p, t) in o.parameters.iter_mut().zip(&self.params) {
            use openapiv3::Parameter::*;
            if let ReferenceOr::Item(
                Query { parameter_data, .. } | Header { parameter_data, .. } | Path { parameter_data, .. } | Cookie { parameter_data, .. },
            ) = p
            {
                parameter_data.description = t.clone();
            }
        }
    }
    /// `order`: the parameters as the method takes them, by place and name.
    fn told(&self, stream: bool, sends: &str, order: &[(usize, &str)]) -> String {
        let mut w = String::new();
        if let Some(s) = self.summary.as_ref().filter(|s| !s.is_empty()) {
            w += bare(s);
            w += if stream { " as a Stream\n\n" } else { "\n\n" };
        }
        if let Some(d) = self.description.as_ref().filter(|s| !s.is_empty()) {
            w += d;
            w += "\n\n";
        }
        w += sends;
        w += "\n\n";
        if order.iter().any(|(i, _)| self.params[*i].is_some()) {
            w += "Arguments:\n";
            for (i, name) in order {
                w += "- `";
                w += name;
                w += "`";
                if let Some(d) = &self.params[*i] {
                    w += ": ";
                    w += d;
                }
                w += "\n";
            }
        }
        w
    }
}

/// Args: interface and tags; which text is free (0: the summary, 1: the
/// description, then each parameter's; 9: each is there or not); its length.
pub fn operation() {
    let (style, free, n) = (rt::arg(0), rt::arg(1), rt::arg(2) as usize);
    let mut spec = doc::parse(OPS);
    let t = Texts::any(2, n, free);
    t.put(op(&mut spec, "/a/{id}/b"));
    let mut s = GenerationSettings::default();
    let at = match style {
        0 => "Client",
        1 => {
            s.with_interface(InterfaceStyle::Builder);
            "Client"
        }
        _ => {
            op(&mut spec, "/a/{id}/b").tags = vec!["tg".to_string()];
            s.with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Separate);
            "ClientTgExt"
        }
    };
    let all = made(&spec, &s);
    let told = t.told(false, "Sends a `GET` request to `/a/{id}/b`", &[(1, "id"), (0, "q_x")]);
    let mut got = doc_at(&all, "fn", at, "get_it");
    rt::reach("text");
    if style != 0 {
        rt::check(
            doc_at(&all, "fn", "builder/<'a>GetIt<'a>", "send").map_or(false, |d| d == "Sends a `GET` request to `/a/{id}/b`"),
            "text: send says what it sends",
        );
        // an example follows
        match got.and_then(|g| g.find("```ignore\n").map(|i| g.split_at(i))) {
            Some((text, example)) => {
                rt::check(
                    example == "```ignore\nlet response = client.get_it()\n    .id(id)\n    .q_x(q_x)\n    .send()\n    .await;\n```",
                    "text: the example sets each parameter and sends",
                );
                got = Some(text);
            }
            None => rt::check(false, "text: the example sets each parameter and sends"),
        }
    }
    says(got, &told, "text: a method says what its operation says, sends and takes");
}
/// Args: which text is free; its length. The builders' own streams say less.
pub fn stream() {
    let (free, n) = (rt::arg(0), rt::arg(1) as usize);
    let mut spec = doc::parse(OPS);
    let t = Texts::any(3, n, free);
    t.put(op(&mut spec, "/list"));
    let all = made(&spec, &GenerationSettings::default());
    rt::reach("text");
    says(
        doc_at(&all, "fn", "Client", "list"),
        &t.told(false, "Sends a `GET` request to `/list`", &[(0, "limit"), (1, "page_token"), (2, "sort")]),
        "text: a method says what its operation says, sends and takes",
    );
    says(
        doc_at(&all, "fn", "Client", "list_stream"),
        &t.told(true, "Sends repeated `GET` requests to `/list` until there are no more results.", &[(0, "limit"), (2, "sort")]),
        "text: a stream says what its operation says, sends and takes",
    );
    if n == 1 {
        let all = made(&spec, GenerationSettings::default().with_interface(InterfaceStyle::Builder));
        says(doc_at(&all, "fn", "builder/<'a>List<'a>", "send"), "Sends a `GET` request to `/list`", "text: send says what it sends");
        says(doc_at(&all, "fn", "builder/<'a>List<'a>", "stream"), "Streams `GET` requests to `/list`", "text: a builder's stream says what it sends");
    }
}
const BODY: &str = r##"{"openapi":"3.0.0","info":{"title":"t","version":"1"},"paths":{
"/c/{x}":{"get":{"operationId":"sendC","parameters":[
{"name":"X-Head","in":"header","required":true,"schema":{"type":"string"}},
{"name":"type","in":"query","required":false,"schema":{"type":"string"}},
{"name":"x","in":"path","required":true,"schema":{"type":"string"}}],
"requestBody":{"required":true,"content":{"application/json":{"schema":{"$ref":"#/components/schemas/Thing"}}}},
"responses":{"200":{"description":""}}}}},
"components":{"schemas":{"Thing":{"type":"object","required":["a"],"properties":{"a":{"type":"string"}}}}}}"##;
/// Args: interface; which text is free; its length. A body and a header.
pub fn body() {
    let (style, free, n) = (rt::arg(0), rt::arg(1), rt::arg(2) as usize);
    let mut spec = doc::parse(BODY);
    let t = Texts::any(4, n, free);
    let o = op(&mut spec, "/c/{x}");
    t.put(o);
    if let Some(ReferenceOr::Item(b)) = &mut o.request_body {
        b.description = t.params[3].clone();
    }
    let mut s = GenerationSettings::default();
    if style == 1 {
        s.with_interface(InterfaceStyle::Builder);
    }
    let all = made(&spec, &s);
    rt::reach("text");
    let told = t.told(false, "Sends a `GET` request to `/c/{x}`", &[(2, "x"), (1, "type_"), (0, "x_head"), (3, "body")]);
    let got = doc_at(&all, "fn", "Client", "send_c");
    let got = match got {
        Some(g) if style == 1 => {
            let example = "```ignore\nlet response = client.send_c()\n    .x(x)\n    .type_(type_)\n    .x_head(x_head)\n    .body(body)\n    .send()\n    .await;\n```";
            rt::check(g.ends_with(example), "text: the example sets each parameter and sends");
            Some(&g[..g.len().saturating_sub(example.len())])
        }
        g => g,
    };
    says(got, &told, "text: a method says what its operation says, sends and takes");
}
/// Args: interface. Every method of HTTP that a document has.
pub fn method() {
    let style = rt::arg(0);
    let k = rt::choose(8) as usize;
    let (low, up) = [
        ("get", "GET"), ("put", "PUT"), ("post", "POST"), ("delete", "DELETE"),
        ("options", "OPTIONS"), ("head", "HEAD"), ("patch", "PATCH"), ("trace", "TRACE"),
    ][k];
    let path = ["/", "/x", "/x/{b}-{a}", "/{a}/y/{b}/"][rt::choose(4) as usize];
    let param = |n: &str| format!(r#"{{"name":"{}","in":"path","required":true,"schema":{{"type":"string"}}}}"#, n);
    let text = format!(
        r#"{{"openapi":"3.0.0","info":{{"title":"t","version":"1"}},"paths":{{"{}":{{"{}":{{"operationId":"o","parameters":[{}],"responses":{{"200":{{"description":""}}}}}}}}}}}}"#,
        path, low,
        if path.contains('{') { format!("{},{}", param("a"), param("b")) } else { String::new() },
    );
    let mut s = GenerationSettings::default();
    if style == 1 {
        s.with_interface(InterfaceStyle::Builder);
    }
    let all = made(&doc::parse(&text), &s);
    rt::reach("text");
    let want = format!("Sends a `{}` request to `{}`", up, path);
    let got = doc_at(&all, "fn", "Client", "o");
    rt::check(got.map_or(false, |g| g.starts_with(&want)), "text: a method names the request's method and path");
    if style == 1 {
        rt::check(doc_at(&all, "fn", "builder/<'a>O<'a>", "send") == Some(&want[..]), "text: send says what it sends");
    }
}
/// Args: which of title, description, terms and version is free; its length.
pub fn client() {
    let (free, n) = (rt::arg(0), rt::arg(1) as usize);
    let mut spec = doc::parse(doc::SMALL);
    let (a, b) = (rt::choose(2) == 1, rt::choose(2) == 1);
    let mut one = |k: u64, w: &str| if k == free { ascii(n) } else { w.to_string() };
    spec.info.title = one(0, "T'x");
    spec.info.version = one(3, "v 1.2-\"é\"");
    spec.info.description = a.then(|| one(1, "De\nsc."));
    spec.info.terms_of_service = b.then(|| one(2, "\"Terms\""));
    let mut s = GenerationSettings::default();
    if rt::choose(2) == 1 {
        s.with_interface(InterfaceStyle::Builder);
    }
    let all = made(&spec, &s);
    rt::reach("text");
    let mut want = format!("Client for {}", spec.info.title);
    for t in [&spec.info.description, &spec.info.terms_of_service].into_iter().flatten() {
        want += "\n\n";
        want += t;
    }
    want += "\n\nVersion: ";
    want += &spec.info.version;
    says(doc_at(&all, "struct", "", "Client"), &want, "text: the client says what the document says of its API");
    for i in &all {
        if i.kind == "fn" && i.at == "Client" && i.name == "api_version" {
            let b = i.body.clone().into_iter().flatten().collect::<Vec<_>>();
            rt::check(
                matches!(&b[..], [TokenTree::Literal(l)] if rt::same(unquote(&l.to_string()).as_bytes(), spec.info.version.as_bytes())),
                "text: api_version is the document's version",
            );
            rt::reach("version");
        }
    }
}
/// Args: which text is free; its length.
pub fn line() {
    let (free, n) = (rt::arg(0), rt::arg(1) as usize);
    let mut spec = doc::parse(OPS);
    let t = Texts::any(2, n, free);
    t.put(op(&mut spec, "/a/{id}/b"));
    let mut s = GenerationSettings::default();
    s.with_interface(InterfaceStyle::Builder);
    let mut all = vec![];
    items(Generator::new(&s).cli(&spec, "my_crate").expect("the harness's document"), "", &mut all);
    rt::reach("text");
    for i in &all {
        if i.kind != "fn" || i.name != "cli_get_it" {
            continue;
        }
        rt::reach("line");
        let body = i.body.clone().unwrap_or_default();
        for (name, want) in [("about", &t.summary), ("long_about", &t.description)] {
            let mut got = vec![];
            call(body.clone(), name, &mut got);
            let want = want.as_ref().filter(|w| !w.is_empty());
            rt::check(
                got.len() == want.is_some() as usize && got.iter().zip(want).all(|(g, w)| rt::same(g.as_bytes(), w.as_bytes())),
                "text: a command's help is its operation's summary and description",
            );
        }
        args_help(body, &t);
    }
}
/// `.arg(Arg::new("name")….help("…"))` for each parameter.
fn args_help(body: TokenStream, t: &Texts) {
    let mut seen = 0;
    let mut it = body.into_iter().peekable();
    while let Some(x) = it.next() {
        let TokenTree::Ident(i) = x else { continue };
        if i != "arg" {
            continue;
        }
        let Some(TokenTree::Group(g)) = it.peek() else { continue };
        let (mut name, mut help) = (vec![], vec![]);
        call(g.stream(), "new", &mut name);
        call(g.stream(), "help", &mut help);
        let want = match name.first().map(|s| &s[..]) {
            Some("q-x") => &t.params[0],
            Some("id") => &t.params[1],
            _ => continue,
        };
        seen += 1;
        rt::check(
            help.len() == want.is_some() as usize && help.iter().zip(want).all(|(g, w)| rt::same(g.as_bytes(), w.as_bytes())),
            "text: an argument's help is its parameter's description",
        );
    }
    rt::check(seen == 2, "text: an argument's help is its parameter's description");
}

const TAGGED: &str = r##"{"openapi":"3.0.0","info":{"title":"t","version":"1"},"paths":{
"/p":{"get":{"operationId":"zed","parameters":[{"name":"limit","in":"query","required":false,"schema":{"type":"string"}},
{"name":"page_token","in":"query","required":false,"schema":{"type":"string"}}],
"responses":{"200":{"description":"","content":{"application/json":{"schema":{"$ref":"#/components/schemas/Page"}}}}},"x-dropshot-pagination":{"required":[]}}},
"/q/{id}":{"get":{"operationId":"getQ","parameters":[{"name":"id","in":"path","required":true,"schema":{"type":"string"}}],"responses":{"200":{"description":""}}}},
"/a":{"get":{"operationId":"aOp","x-dropshot-websocket":{},"responses":{"default":{"description":""}}}}},
"components":{"schemas":{"Page":{"type":"object","required":["items"],"properties":{"next_page":{"type":"string","nullable":true},"items":{"type":"array","items":{"type":"string"}}}}}}}"##;

/// Tags of three operations: each has any of the tags in either order.
/// Args: how the tags are named; interface (1: tags apart, 0: merged); what the
/// document says of its tags (0: nothing, 1: describes one, 2: both).
pub fn tags() {
    const LONG: &str = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx";
    let long = format!("ClientX{}Ext", &LONG[1..]);
    let names: [(&str, &str); 2] = [
        [("b", "ClientBExt"), ("a", "ClientAExt")],
        [("two words", "ClientTwoWordsExt"), ("x-y", "ClientXYExt")],
        [("Thing", "ClientThingExt"), ("things", "ClientThingsExt")],
        [("type", "ClientTypeExt"), ("1st", "Client_1stExt")],
        [("x y", "ClientXYExt"), ("x-y", "ClientXYExt")],
        [("webhook", "ClientWebhookExt"), ("webHook", "ClientWebHookExt")],
        [(LONG, &long), ("a", "ClientAExt")],
    ][rt::arg(0) as usize];
    let apart = rt::arg(1) == 1;
    let told = rt::arg(2);
    let sets: [&[usize]; 6] = [&[], &[0], &[1], &[0, 1], &[1, 0], &[0, 0]];
    let of: Vec<&[usize]> = (0..3).map(|k| sets[rt::choose(if k == 1 { 6 } else { 5 }) as usize]).collect();
    let ops: [(&str, &str, &str); 3] = [("/p", "zed", "Zed"), ("/q/{id}", "get_q", "GetQ"), ("/a", "a_op", "AOp")];
    let mut spec = doc::parse(TAGGED);
    for (o, t) in ops.iter().zip(&of) {
        op(&mut spec, o.0).tags = t.iter().map(|k| names[*k].0.to_string()).collect();
    }
    let about = |k: usize| (told == 2 || told == 1 && k == 1).then(|| format!("About {}", k));
    if told > 0 {
        spec.tags = (0..2)
            .map(|k| openapiv3::Tag {
                name: names[k].0.to_string(),
                description: about(k),
                external_docs: None,
                extensions: Default::default(),
            })
            .collect();
    }
    let mut s = GenerationSettings::default();
    s.with_interface(InterfaceStyle::Builder);
    if apart {
        s.with_tag(TagStyle::Separate);
    }
    let all = made(&spec, &s);
    rt::reach("tags");
    let count = |kind: &str, at: &str, name: &str| all.iter().filter(|i| i.kind == kind && i.at == at && i.name == name).count();
    for (_, tr) in names {
        // tags of one name share its trait
        let has = |i: usize| apart && of[i].iter().any(|k| names[*k].1 == tr);
        let used = (0..3).any(has);
        rt::check(count("trait", "", tr) == used as usize, "tags: a tag has a trait exactly if an operation has the tag");
        rt::check(count("impl", "", &format!("{}forClient", tr)) == used as usize, "tags: the client has every tag's trait");
        rt::check(count("use", "prelude", &format!("super::{}", tr)) == used as usize, "tags: the prelude has every tag's trait");
        for i in 0..3 {
            let n = has(i) as usize;
            rt::check(count("fn", tr, ops[i].1) == n, "tags: an operation is in its tags' traits and no other");
            rt::check(count("fn", &format!("{}forClient", tr), ops[i].1) == n, "tags: a trait's implementation has its operations");
        }
        if used {
            let want: Vec<_> = (0..2).filter(|k| names[*k].1 == tr).filter_map(about).collect();
            rt::check(
                all.iter().filter(|i| i.kind == "trait" && i.name == tr).all(|i| match &i.doc {
                    Some(d) => want.iter().any(|w| d.contains(&w[..])),
                    None => want.is_empty(),
                }),
                "tags: a trait says what the document says of its tag",
            );
        }
    }
    rt::check(all.iter().filter(|i| i.kind == "trait").all(|i| names.iter().any(|n| n.1 == i.name)), "tags: there are no other traits");
    rt::check(count("use", "prelude", "super::Client") + count("use", "prelude", "self::super::Client") == 1, "tags: the prelude has the client");
    for i in 0..3 {
        let own = !apart || of[i].is_empty();
        rt::check(count("fn", "Client", ops[i].1) == own as usize, "tags: an operation without tags is the client's own");
        // every way to it is the operation's own builder
        for x in all.iter().filter(|x| x.kind == "fn" && x.name == ops[i].1) {
            let want = format!("builder::{}::new(self)", ops[i].2);
            rt::check(
                x.body.as_ref().map_or(true, |b| b.to_string().replace(' ', "") == want)
                    && x.head.concat() == format!("{}()->builder::{}", ops[i].1, ops[i].2),
                "tags: a method makes its own operation's builder",
            );
        }
        rt::check(count("struct", "builder", ops[i].2) == 1, "tags: an operation has one builder");
    }
}

/// Many operations and tags in a repeating pattern; the first, middle or last
/// operation has none, all in either order, the first or the last. Args:
/// operations, tags.
pub fn tags_many() {
    let (n, nt) = (rt::arg(0) as usize, rt::arg(1) as usize);
    let at = [0, n / 2, n - 1][rt::choose(3) as usize];
    let odd: Vec<usize> = match rt::choose(5) {
        0 => vec![],
        1 => (0..nt).collect(),
        2 => (0..nt).rev().collect(),
        3 => vec![0],
        _ => vec![nt - 1],
    };
    let of: Vec<Vec<usize>> =
        (0..n).map(|i| if i == at { odd.clone() } else { (0..nt).filter(|j| (i * 5 + j * 3) % 4 == 0).collect() }).collect();
    let mut text = String::from("{\"openapi\":\"3.0.0\",\"info\":{\"title\":\"t\",\"version\":\"1\"},\"tags\":[");
    for j in 0..nt {
        if j != 1 {
            text += &format!("{}{{\"name\":\"tag {}\",\"description\":\"About <{}>\"}}", if j > 0 { "," } else { "" }, j, j);
        }
    }
    text += "],\"paths\":{";
    for (i, t) in of.iter().enumerate() {
        let tags: Vec<_> = t.iter().map(|j| format!("\"tag {}\"", j)).collect();
        text += &format!(
            "{}\"/p{}\":{{\"get\":{{\"operationId\":\"op{}\",\"tags\":[{}],\"responses\":{{\"default\":{{\"description\":\"\"}}}}}}}}",
            if i > 0 { "," } else { "" },
            i,
            i,
            tags.join(",")
        );
    }
    text += "}}";
    let spec = doc::parse(&text);
    let mut s = GenerationSettings::default();
    s.with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Separate);
    let all = made(&spec, &s);
    rt::reach("tags of many");
    let count = |kind: &str, at: &str, name: &str| all.iter().filter(|i| i.kind == kind && i.at == at && i.name == name).count();
    let mut traits = 0;
    for j in 0..nt {
        let tr = format!("ClientTag{}Ext", j);
        let used = of.iter().any(|t| t.contains(&j));
        traits += used as usize;
        rt::check(count("trait", "", &tr) == used as usize, "tags: a tag has a trait exactly if an operation has the tag");
        rt::check(count("impl", "", &format!("{}forClient", tr)) == used as usize, "tags: the client has every tag's trait");
        rt::check(count("use", "prelude", &format!("super::{}", tr)) == used as usize, "tags: the prelude has every tag's trait");
        for (i, t) in of.iter().enumerate() {
            let n = t.contains(&j) as usize;
            let name = format!("op{}", i);
            rt::check(count("fn", &tr, &name) == n, "tags: an operation is in its tags' traits and no other");
            rt::check(count("fn", &format!("{}forClient", tr), &name) == n, "tags: a trait's implementation has its operations");
        }
        let about = format!("About <{}>", j);
        rt::check(
            all.iter().filter(|i| i.kind == "trait" && i.name == tr).all(|i| match &i.doc {
                Some(d) => j != 1 && d.contains(&about),
                None => j == 1,
            }),
            "tags: a trait says what the document says of its tag",
        );
    }
    rt::check(all.iter().filter(|i| i.kind == "trait").count() == traits, "tags: there are no other traits");
    for (i, t) in of.iter().enumerate() {
        let (name, builder) = (format!("op{}", i), format!("Op{}", i));
        rt::check(count("fn", "Client", &name) == t.is_empty() as usize, "tags: an operation without tags is the client's own");
        rt::check(count("struct", "builder", &builder) == 1, "tags: an operation has one builder");
        for x in all.iter().filter(|x| x.kind == "fn" && x.name == name) {
            rt::check(
                x.body.as_ref().map_or(true, |b| b.to_string().replace(' ', "") == format!("builder::{}::new(self)", builder)),
                "tags: a method makes its own operation's builder",
            );
        }
    }
}

/// Args: letters of an operation's tag, and of one that the document describes.
pub fn tag_name() {
    let (used, told) = (rt::word(rt::arg(0) as usize, 0), rt::word(rt::arg(1) as usize, 0));
    let mut spec = doc::parse(TAGGED);
    op(&mut spec, "/q/{id}").tags = vec![used.clone()];
    spec.tags = vec![openapiv3::Tag {
        name: told.clone(),
        description: Some("About".to_string()),
        external_docs: None,
        extensions: Default::default(),
    }];
    let mut s = GenerationSettings::default();
    s.with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Separate);
    let all = made(&spec, &s);
    rt::reach("tag");
    let mut tr = b"Client".to_vec();
    tr.push(used.as_bytes()[0] - 32);
    tr.extend_from_slice(&used.as_bytes()[1..]);
    tr.extend_from_slice(b"Ext");
    let mut found = 0;
    for i in all.iter().filter(|i| i.kind == "trait") {
        found += 1;
        rt::check(rt::same(i.name.as_bytes(), &tr), "tags: a trait is named for its tag");
        let same = rt::same(used.as_bytes(), told.as_bytes());
        rt::check(i.doc.is_some() == same, "tags: a trait says what the document says of its tag");
        rt::check(all.iter().filter(|f| f.kind == "fn" && f.at == i.name).count() == 1, "tags: an operation is in its tags' traits and no other");
    }
    rt::check(found == 1, "tags: a tag has a trait exactly if an operation has the tag");
}

/// A builder has one method of each name, and one field, whatever its
/// parameters are called. Args: 0 for names that stay their own, 1 for those of
/// the builder's own methods, 2 for parameters whose names become one.
pub fn setters() {
    let names: &[&[&str]] = match rt::arg(0) {
        0 => &[&["client", "self"], &["value", "body"], &["clone", "default"], &["result", "request"], &["type", "fn"], &["a-b", "ab"]],
        1 => &[&["new", "x"], &["send", "x"], &["stream", "x"]],
        _ => &[&["a-b", "a_b"], &["a-b", "aB"]],
    };
    let two = names[rt::choose(names.len() as u32) as usize];
    let text = TAGGED
        .replace("\"name\":\"page_token\"", "\"name\":\"page_token\",\"in\":\"query\",\"schema\":{\"type\":\"string\"}},{\"name\":\"@0\",\"in\":\"header\",\"schema\":{\"type\":\"string\"}},{\"name\":\"@1\"")
        .replace("@0", two[0])
        .replace("@1", two[1]);
    let spec = doc::parse(&text);
    let mut s = GenerationSettings::default();
    s.with_interface(InterfaceStyle::Builder);
    let all = made(&spec, &s);
    rt::reach("setters");
    let id = ["names: a builder has one method of each name", "names: a builder's own methods beside its parameters'", "names: parameters whose names become one stay apart"]
        [rt::arg(0) as usize];
    let mut own = 0;
    for i in all.iter().filter(|i| i.kind == "fn" && i.at.starts_with("builder/") && i.at.contains("Zed")) {
        own += 1;
        rt::check(all.iter().filter(|j| j.kind == "fn" && j.at == i.at && j.name == i.name).count() == 1, id);
    }
    // new, one for each of four parameters, send and stream
    rt::check(own == 7, "names: a builder has a method for every parameter");
}
