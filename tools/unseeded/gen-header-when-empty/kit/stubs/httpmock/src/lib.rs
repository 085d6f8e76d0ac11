//! Stand-in for httpmock (not available offline): mocks are kept as data, and
//! a request is matched against one as httpmock documents it.
use std::cell::RefCell;
use std::rc::Rc;

#[allow(clippy::upper_case_acronyms)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Method {
    GET,
    HEAD,
    POST,
    PUT,
    DELETE,
    CONNECT,
    OPTIONS,
    TRACE,
    PATCH,
}
#[derive(Clone, Debug, Default)]
pub struct HttpMockRequest {
    pub path: String,
    pub method: String,
    pub headers: Option<Vec<(String, String)>>,
    pub query_params: Option<Vec<(String, String)>>,
    pub body: Option<Vec<u8>>,
}
pub type MockMatcherFunction = fn(&HttpMockRequest) -> bool;
enum Rule {
    Method(Method),
    Path(regex::Regex),
    Query(String, String),
    Json(serde_json::Value),
    Body(String),
    Fun(MockMatcherFunction),
}
#[derive(Clone, Debug, Default)]
pub struct Answer {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
#[derive(Default)]
pub struct Spec {
    rules: Vec<Rule>,
    pub answer: Answer,
}
impl Spec {
    pub fn matches(&self, r: &HttpMockRequest) -> bool {
        let mut all = true;
        for x in &self.rules {
            all &= match x {
                Rule::Method(m) => format!("{:?}", m) == r.method,
                Rule::Path(p) => p.is_match(&r.path),
                Rule::Query(k, v) => {
                    r.query_params.as_ref().is_some_and(|q| q.iter().any(|(a, b)| a == k && b == v))
                }
                Rule::Json(v) => {
                    r.body.as_ref().is_some_and(|b| serde_json::from_slice::<serde_json::Value>(b).is_ok_and(|x| x == *v))
                }
                Rule::Body(v) => r.body.as_ref().is_some_and(|b| b == v.as_bytes()),
                Rule::Fun(f) => f(r),
            };
        }
        all
    }
}
#[derive(Clone, Default)]
pub struct When(Rc<RefCell<Spec>>);
impl When {
    fn add(self, r: Rule) -> Self {
        self.0.borrow_mut().rules.push(r);
        self
    }
    pub fn method<M: Into<Method>>(self, m: M) -> Self {
        self.add(Rule::Method(m.into()))
    }
    pub fn path_matches<R: Into<regex::Regex>>(self, r: R) -> Self {
        self.add(Rule::Path(r.into()))
    }
    pub fn query_param<K: Into<String>, V: Into<String>>(self, k: K, v: V) -> Self {
        self.add(Rule::Query(k.into(), v.into()))
    }
    pub fn matches(self, f: MockMatcherFunction) -> Self {
        self.add(Rule::Fun(f))
    }
    pub fn json_body<V: Into<serde_json::Value>>(self, v: V) -> Self {
        self.add(Rule::Json(v.into()))
    }
    pub fn json_body_obj<T: serde::Serialize>(self, v: &T) -> Self {
        self.add(Rule::Json(serde_json::to_value(v).unwrap()))
    }
    pub fn body<V: Into<String>>(self, v: V) -> Self {
        self.add(Rule::Body(v.into()))
    }
}
#[derive(Clone, Default)]
pub struct Then(Rc<RefCell<Spec>>);
impl Then {
    pub fn status(self, s: u16) -> Self {
        self.0.borrow_mut().answer.status = s;
        self
    }
    pub fn header<K: Into<String>, V: Into<String>>(self, k: K, v: V) -> Self {
        self.0.borrow_mut().answer.headers.push((k.into(), v.into()));
        self
    }
    pub fn json_body<V: Into<serde_json::Value>>(self, v: V) -> Self {
        self.0.borrow_mut().answer.body = v.into().to_string().into_bytes();
        self
    }
    pub fn json_body_obj<T: serde::Serialize>(self, v: &T) -> Self {
        self.0.borrow_mut().answer.body = serde_json::to_value(v).unwrap().to_string().into_bytes();
        self
    }
    pub fn body<V: AsRef<[u8]>>(self, v: V) -> Self {
        self.0.borrow_mut().answer.body = v.as_ref().to_vec();
        self
    }
}
pub struct Mock<'a> {
    pub spec: Rc<RefCell<Spec>>,
    _server: &'a MockServer,
}
#[derive(Default)]
pub struct MockServer;
impl MockServer {
    pub fn start() -> Self {
        MockServer
    }
    pub fn mock<F: FnOnce(When, Then)>(&self, f: F) -> Mock<'_> {
        let spec: Rc<RefCell<Spec>> = Default::default();
        f(When(spec.clone()), Then(spec.clone()));
        Mock { spec, _server: self }
    }
}
