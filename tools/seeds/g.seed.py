JS = """
fn reply(status: u16, body: &str) {
    let r = ::http::Response::builder().status(status).header("content-type", "application/json").body(body.to_string()).unwrap();
    answer(::reqwest::Response::from(r));
}
fn run<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}
const BASE: &str = "http://h.example";
"""
GS("gen-default-beside-code", "C25", "an operation that documents one success code and a default, answered with another 2xx status",
   "the default is dropped whenever any success is documented, so other successes become errors",
   [("""                OperationResponse {
                    status_code: OperationResponseStatus::Range(2),
                    ..
                },""", """                OperationResponse {
                    status_code:
                        OperationResponseStatus::Code(200..=299) | OperationResponseStatus::Range(2),
                    ..
                },""")],
   [("c", "positional", "d")],
   JS + """
fn main() {
    let c = c::Client::new_with_client(BASE, net::Client::new());
    for s in [201u16, 200, 299] {
        reply(s, "{\\"name\\":\\"n\\"}");
        let r = run(c.make()).unwrap();
        assert_eq!((r.status().as_u16(), r.name.as_str()), (s, "n"));
    }
    reply(404, "{\\"name\\":\\"n\\"}");
    assert!(matches!(run(c.make()), Err(progenitor_client::Error::ErrorResponse(_))));
}
""", {"d": D.doc({"/m": {"post": D.op("make", responses={"201": D.js(D.ref("A")), "default": D.js(D.ref("A"))})}}, {"A": D.THING})})
GS("gen-stream-drops-headers", "C26", "a paginated operation with an optional header parameter, in builder style, over several pages",
   "later pages are asked for without the optional headers the caller set",
   [("""                if param.api_name.as_str() != "limit"
                    && matches!(param.kind, OperationParameterKind::Query(_))
                {
                    // Query parameters (other than "limit") are None; having""", """                if param.api_name.as_str() != "limit"
                    && matches!(
                        param.kind,
                        OperationParameterKind::Query(_) | OperationParameterKind::Header(false)
                    )
                {
                    // Optional parameters (other than "limit") are None; having""")],
   [("c", "builder", "d")],
   JS + """
fn main() {
    use futures::TryStreamExt;
    let c = c::Client::new_with_client(BASE, net::Client::new());
    reply(200, "{\\"items\\":[\\"a\\"],\\"next_page\\":\\"t\\"}");
    reply(200, "{\\"items\\":[\\"b\\"]}");
    let all: Vec<String> = run(c.pages().id("i").x_h("v").stream().try_collect()).unwrap();
    assert_eq!(all, ["a", "b"]);
    assert_eq!(net().sent.len(), 2);
    for s in &net().sent {
        assert_eq!(s.headers.get("x-h").unwrap(), "v");
    }
}
""", {"d": D.PAGES})
GS("gen-post-hook-lost", "C27", "a client generated with both a plain and an async post hook",
   "the plain post hook is not called when there is an async one too",
   [("""        let post_hook = self.settings.post_hook.as_ref().map(|hook| {
            quote! {
                (#hook)(#inner &#result_ident);
            }
        });
        let post_hook_async = self.settings.post_hook_async.as_ref().map(|hook| {""",
     """        let post_hook_async = self.settings.post_hook_async.as_ref();
        let post_hook = self.settings.post_hook.as_ref().xor(post_hook_async);
        let post_hook = post_hook.filter(|_| post_hook_async.is_none()).map(|hook| {
            quote! {
                (#hook)(#inner &#result_ident);
            }
        });
        let post_hook_async = post_hook_async.map(|hook| {""")],
   [("c", "positional-hooks", "d")],
   JS + """
pub mod hooks {
    use std::sync::Mutex;
    pub static LOG: Mutex<Vec<&str>> = Mutex::new(Vec::new());
    #[derive(Clone, Debug)]
    pub struct Inner;
    pub fn pre(_: &Inner, _: &reqwest::Request) {
        LOG.lock().unwrap().push("pre");
    }
    pub async fn pre_async(_: &Inner, _: &mut reqwest::Request) -> Result<(), String> {
        LOG.lock().unwrap().push("pre async");
        Ok(())
    }
    pub fn post(_: &Inner, _: &Result<reqwest::Response, reqwest::Error>) {
        LOG.lock().unwrap().push("post");
    }
    pub async fn post_async(_: &Inner, _: &Result<reqwest::Response, reqwest::Error>) -> Result<(), String> {
        LOG.lock().unwrap().push("post async");
        Ok(())
    }
}
fn main() {
    let c = c::Client::new_with_client(BASE, net::Client::new(), hooks::Inner);
    reply(200, "{\\"name\\":\\"n\\"}");
    run(c.one("i", None, &c::types::Thing { name: "n".into(), size: None })).unwrap();
    assert_eq!(*hooks::LOG.lock().unwrap(), ["pre", "pre async", "post", "post async"]);
}
""", {"d": D.HOOKS})
GS("gen-builder-keeps-earlier", "C28", "an optional parameter set twice on a builder, the second value not convertible",
   "the earlier value is sent as if the second had never been given",
   [("""                                        self.#param_name = value.try_into()
                                            .map(Some)
                                            .map_err(|_| #err_msg.to_string());
                                        self""", """                                        self.#param_name = match value.try_into() {
                                            Ok(value) => Ok(Some(value)),
                                            Err(_) => self.#param_name
                                                .and_then(|value| value.map(Some)
                                                    .ok_or_else(|| #err_msg.to_string())),
                                        };
                                        self""")],
   [("c", "builder", "d")],
   JS + """
fn main() {
    let c = c::Client::new_with_client(BASE, net::Client::new());
    reply(204, "");
    assert!(run(c.find().k("nope").send()).is_err());
    assert!(run(c.find().k("one").k("nope").send()).is_err());
    assert!(net().sent.is_empty());
    assert!(run(c.find().k("nope").k("one").send()).is_ok());
}
""", {"d": D.doc({"/m": {"get": D.op("find", [D.par("query", "k", {"type": "string", "enum": ["one", "two"]})])}})})
GS("gen-inherited-optional", "C34", "an operation that makes a parameter of its path required",
   "the path's declaration of the parameter wins over the operation's",
   [("""            combined_path_parameters.insert(&parameter.parameter_data_ref().name, parameter);""",
     """            let name = &parameter.parameter_data_ref().name;
            combined_path_parameters.entry(name).or_insert(parameter);""")],
   [("c", "builder", "d")],
   JS + """
fn main() {
    let c = c::Client::new_with_client(BASE, net::Client::new());
    reply(204, "");
    assert!(run(c.find().send()).is_err());
    assert!(net().sent.is_empty());
    assert!(run(c.find().k("v").send()).is_ok());
}
""", {"d": D.doc({"/m": {"parameters": [D.par("query", "k")], "get": D.op("find", [D.par("query", "k", required=True)])}})})
GS("gen-template-odd-brace", "C31", "a path template with an opening brace inside a parameter, after its first character",
   "such a template is accepted as a parameter of that name instead of refused",
   [("if a.contains('/') || a.contains('{') {", "if a.contains('/') || a.starts_with('{') {")],
   [("c", "positional", "d")], None,
   {"d": D.doc({"/m/{a{b}/c": {"get": D.op("find", [D.path("a{b")])}})}, file="progenitor-impl/src/template.rs")
GS("gen-error-code-edge", "C35", "an operation that documents 599 or another code beyond 511",
   "documented errors beyond the registered codes count as undocumented",
   [("                | OperationResponseStatus::Code(400..=599)\n", "                | OperationResponseStatus::Code(400..=511)\n")],
   [("c", "positional", "d")],
   JS + """
fn main() {
    let c = c::Client::new_with_client(BASE, net::Client::new());
    for s in [404u16, 520] {
        reply(s, "{\\"name\\":\\"n\\"}");
        assert!(matches!(run(c.make()), Err(progenitor_client::Error::ErrorResponse(v)) if v.name == "n"));
    }
}
""", {"d": D.doc({"/m": {"post": D.op("make", responses={"204": D.NONE, "404": D.js(D.ref("A")), "520": D.js(D.ref("A"))})}}, {"A": D.THING})})
GS("gen-header-when-empty", "C23", "an optional header parameter given as the empty text",
   "a header given with an empty value is left out",
   [("""                            if let Some(value) = #hn_ident {
                                #header_map_ident.append(
                                    #hn,
                                    value.to_string().try_into()?
                                );
                            }""", """                            if let Some(value) = #hn_ident.map(|value| value.to_string()) {
                                if !value.is_empty() {
                                    #header_map_ident.append(#hn, value.try_into()?);
                                }
                            }""")],
   [("c", "positional", "d")],
   JS + """
fn main() {
    let c = c::Client::new_with_client(BASE, net::Client::new());
    for v in [Some("v"), Some(""), None] {
        reply(204, "");
        run(c.find(v)).unwrap();
        assert_eq!(net().sent.last().unwrap().headers.get("x-h").map(|v| v.to_str().unwrap()), v);
    }
}
""", {"d": D.doc({"/m": {"get": D.op("find", [D.par("header", "x-h")])}})})
GS("gen-names-fold", "C32", "two names that differ only in characters Rust does not allow",
   "characters that are not allowed in identifiers are dropped instead of separating words, so foo.bar and foobar collide in meaning and a_b.c loses its words",
   [("""                .replace(|c: char| !is_xid_continue(c), "-"),""", """                .replace(|c: char| c.is_ascii() && !is_xid_continue(c) && c != '-' && c != ' ' && c != '/', ""),""")],
   [("c", "positional", "d")],
   JS + """
fn main() {
    let c = c::Client::new_with_client(BASE, net::Client::new());
    reply(204, "");
    run(c.find(Some("a"), Some("b"))).unwrap();
    let q: Vec<(String, String)> = net().sent[0].url.query_pairs().map(|(k, v)| (k.into(), v.into())).collect();
    assert_eq!(q, [("foo.bar".into(), "a".into()), ("foobar".to_string(), "b".to_string())]);
}
""", {"d": D.doc({"/m": {"get": D.op("find", [D.par("query", "foo.bar"), D.par("query", "foobar")])}})}, file="progenitor-impl/src/util.rs")
GS("gen-cli-list-required", "C39", "a paginated operation whose first page needs a parameter, run without it",
   "the command line no longer asks for parameters that only the first page requires",
   [("""            let volitionality = if innately_required || first_page_required {""",
     """            let volitionality = if innately_required
                || (first_page_required && method.dropshot_paginated.is_none())
            {""")],
   [("tb", "builder", "d"), ("tc", "cli", "d", "crate::tb")],
   JS + """
struct Quiet;
impl tc::CliConfig for Quiet {
    fn success_item<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, _: &progenitor_client::ResponseValue<T>) {}
    fn success_no_item(&self, _: &progenitor_client::ResponseValue<()>) {}
    fn error<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, _: &progenitor_client::Error<T>) {}
    fn list_start<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self) {}
    fn list_item<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, _: &T) {}
    fn list_end_success<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self) {}
    fn list_end_error<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, _: &progenitor_client::Error<T>) {}
}
fn main() {
    let parse = |a: &[&str]| {
        let a: Vec<String> = a.iter().map(|s| s.to_string()).collect();
        tc::Cli::<Quiet>::get_command(tc::CliCommand::Walk).no_binary_name(true).try_get_matches_from(a).is_ok()
    };
    assert!(parse(&["--filter=f"]));
    assert!(!parse(&[]));
}
""", {"d": D.TOOL}, file="progenitor-impl/src/cli.rs")
GS("gen-mock-absent", "C40", "a mock for the absence of an optional query parameter, and a request that carries it with an empty value",
   "a mock that prescribes a parameter absent also answers requests that carry it with an empty value",
   [("""                                            })
                                            .is_none()""", """                                            })
                                            .is_none_or(|(_, value)| value.is_empty())""")],
   [("mb", "builder", "d"), ("mm", "httpmock", "d", "crate::mb")],
   JS + """
use mm::MockServerExt;
fn main() {
    let srv = httpmock::MockServer::start();
    let m = srv.two(|w, _| drop(w.may(None).into_inner()));
    let c = mb::Client::new_with_client(BASE, net::Client::new());
    for may in [None, Some("v"), Some("")] {
        reply(200, "{\\"name\\":\\"n\\"}");
        let mut b = c.two().a("a").b("b").must("m");
        if let Some(v) = may {
            b = b.may(v);
        }
        run(b.send()).unwrap();
        let s = net().sent.last().unwrap();
        let r = httpmock::HttpMockRequest {
            path: s.url.path().to_string(),
            method: s.method.clone(),
            headers: None,
            query_params: Some(s.url.query_pairs().map(|(k, v)| (k.into_owned(), v.into_owned())).collect()),
            body: None,
        };
        assert_eq!(m.spec.borrow().matches(&r), may.is_none(), "{may:?}");
    }
}
""", {"d": D.MOCKS}, file="progenitor-impl/src/httpmock.rs")
