S("path-newline-stripped", "C01", "a path parameter that contains a line feed",
  "line feeds are left to the URL parser, which removes them, so the server sees another value",
  [("&percent_encoding::CONTROLS\n    .add(b' ')", "&percent_encoding::CONTROLS\n    .remove(b'\\n')\n    .add(b' ')")],
  """
fn main() {
    for v in ["plain", "a b", "a\\rb", "a\\nb"] {
        assert_eq!(segments(v), ["", "a", v, "b"]);
    }
}
""")
S("query-whole-floats", "C02", "a whole floating-point number beyond the 64-bit integers",
  "whole floats are written as integers, saturating at the largest one",
  [("    serialize_scalar!(serialize_f64, f64);\n", "    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {\n        if v.fract() == 0.0 && v.is_finite() {\n            return self.serialize_i64(v as i64);\n        }\n        [(self.name, v)].serialize(self.inner)\n    }\n")],
  """
fn num(v: f64) -> f64 {
    pairs("x", &v).unwrap()[0].1.parse().unwrap()
}
fn main() {
    for v in [0.5, 1.5, 3.0, 1e18, 1e19, -1e30] {
        assert_eq!(num(v), v);
    }
}
""")
S("query-map-without-length", "C04", "a map or object whose number of entries is not announced, as with flattened fields",
  "maps of unknown length are treated as empty and contribute nothing",
  [("""    fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
        self.inner.serialize_map(len)""", """    fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
        Ok(QueryMap {
            inner: self.inner.serialize_map(len)?,
            remaining: len.unwrap_or(0),
        })"""),
   ("    type SerializeMap = S::SerializeMap;", "    type SerializeMap = QueryMap<S::SerializeMap>;"),
   ("""#[doc(hidden)]
pub struct QuerySeq""", """#[doc(hidden)]
pub struct QueryMap<S> {
    inner: S,
    remaining: usize,
}

impl<S> serde::ser::SerializeMap for QueryMap<S>
where
    S: serde::ser::SerializeMap,
{
    type Ok = S::Ok;

    type Error = S::Error;

    fn serialize_key<T>(&mut self, key: &T) -> Result<(), Self::Error>
    where
        T: ?Sized + Serialize,
    {
        if self.remaining == 0 {
            return Ok(());
        }
        self.inner.serialize_key(key)
    }

    fn serialize_value<T>(&mut self, value: &T) -> Result<(), Self::Error>
    where
        T: ?Sized + Serialize,
    {
        if self.remaining == 0 {
            return Ok(());
        }
        self.remaining -= 1;
        self.inner.serialize_value(value)
    }

    fn end(self) -> Result<Self::Ok, Self::Error> {
        self.inner.end()
    }
}

#[doc(hidden)]
pub struct QuerySeq""")],
  """
#[derive(Serialize)]
struct O {
    a: u8,
    #[serde(flatten)]
    b: std::collections::BTreeMap<&'static str, u8>,
}
fn main() {
    let m = std::collections::BTreeMap::from([("k", 1), ("l", 2)]);
    assert_eq!(pairs("x", &m).unwrap(), [kv("k", "1"), kv("l", "2")]);
    assert_eq!(pairs("x", &O { a: 7, b: m }).unwrap(), [kv("a", "7"), kv("k", "1"), kv("l", "2")]);
}
""")
S("query-some-object", "C06", "an optional query parameter that is present and holds a list or an object",
  "a present value is always written as a scalar, so optional lists and objects cannot be sent",
  [("""        // Serialize the value through self which will proxy into the inner
        // Serializer as appropriate.
        value.serialize(self)""", """        [(self.name, value)].serialize(self.inner)""")],
  """
fn main() {
    assert_eq!(pairs("x", &Some(1)).unwrap(), [kv("x", "1")]);
    assert_eq!(pairs("x", &None::<u8>).unwrap(), []);
    assert_eq!(pairs("x", &Some(vec!["a", "b"])).unwrap(), [kv("x", "a"), kv("x", "b")]);
}
""")
S("query-names-trimmed", "C08", "a second query parameter whose name extends the first one's with brackets, or any parameter named with brackets",
  "the part of a name from an opening bracket on is cut off, so two parameters end up under one name",
  [("        Self { name, value }\n", "        // PHP-style suffixes are not part of the name.\n        let name = name.split_once('[').map_or(name, |(n, _)| if n.is_empty() { name } else { n });\n        Self { name, value }\n")],
  """
fn main() {
    let r = client().get("http://h/p?z=9").query(&QueryParam::new("a", &1)).query(&QueryParam::new("a[b]", &2)).build().unwrap();
    let p: Vec<_> = r.url().query_pairs().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    assert_eq!(p, [kv("z", "9"), kv("a", "1"), kv("a[b]", "2")]);
}
""")
S("form-plus", "C09", "a form body with a plus sign in a value",
  "plus signs are not escaped, so the server reads them as spaces",
  [("""                serde_urlencoded::to_string(body)
                    .map_err(|_| Error::InvalidRequest("failed to serialize body".to_string()))?,""",
    """                serde_urlencoded::to_string(body)
                    .map_err(|_| Error::InvalidRequest("failed to serialize body".to_string()))?
                    .replace("%2B", "+"),""")],
  """
fn main() {
    for v in ["a", "a b", "a+b"] {
        let b: Result<reqwest::RequestBuilder, Error> = client().post("http://h/p").form_urlencoded(&[("k", v)]);
        let r = b.unwrap().build().unwrap();
        let got: Vec<_> = url::form_urlencoded::parse(r.body().unwrap().as_bytes().unwrap()).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        assert_eq!(got, [kv("k", v)]);
    }
}
""")
S("decode-empty-null", "C10", "an empty body for an answer whose type may be null",
  "an empty body counts as null instead of being reported as an invalid payload",
  [("""        let inner =
            serde_json::from_slice(&full)""", """        let text: &[u8] = if full.is_empty() { b"null" } else { &full };
        let inner =
            serde_json::from_slice(text)""")],
  """
fn main() {
    let r = response(200, &[], vec![Ev::Data(b"null".to_vec())]);
    assert!(block_on(ResponseValue::<Option<u8>>::from_response::<()>(r)).unwrap().is_none());
    let r = response(200, &[], vec![]);
    assert!(matches!(block_on(ResponseValue::<Option<u8>>::from_response::<()>(r)), Err(Error::InvalidResponsePayload(b, _)) if b.is_empty()));
}
""")
S("empty-drops-length", "C13", "an answer without content that carries a content-length, such as one to a HEAD request",
  "the content-length of answers treated as empty is removed from their headers",
  [("""        let headers = response.headers().clone();
        // TODO is there""", """        let mut headers = response.headers().clone();
        if response.content_length() == Some(0) {
            headers.remove(reqwest::header::CONTENT_LENGTH);
        }
        // TODO is there""")],
  """
fn main() {
    let mut h = http::Response::new("");
    h.headers_mut().append("content-length", http::HeaderValue::from_static("12"));
    h.headers_mut().append("x-a", http::HeaderValue::from_static("b"));
    let v = ResponseValue::<()>::empty(h.into());
    assert_eq!(v.headers().get("x-a").unwrap(), "b");
    assert_eq!(v.content_length(), Some(12));
}
""")
S("status-of-payload", "C17", "a documented error whose status is informational or a redirect",
  "documented errors outside the error classes report no status",
  [("            Error::ErrorResponse(rv) => Some(rv.status()),", "            Error::ErrorResponse(rv) => {\n                let status = rv.status();\n                (status.as_u16() >= 400 || status.is_success()).then_some(status)\n            }")],
  """
fn main() {
    for s in [200u16, 302, 404, 599, 101] {
        let e: Error<()> = Error::ErrorResponse(ResponseValue::new((), reqwest::StatusCode::from_u16(s).unwrap(), Default::default()));
        assert_eq!(e.status().map(|s| s.as_u16()), Some(s));
    }
}
""")
S("untyped-payload-cut", "C18", "an invalid payload of more than 64 bytes",
  "dropping the error's type keeps only the beginning of the raw payload",
  [("            Error::InvalidResponsePayload(b, e) => Error::InvalidResponsePayload(b, e),", "            Error::InvalidResponsePayload(mut b, e) => {\n                b.truncate(64);\n                Error::InvalidResponsePayload(b, e)\n            }")],
  """
fn main() {
    for n in [1usize, 64, 65, 300] {
        let e = serde_json::from_slice::<u8>(b"x").unwrap_err();
        let e: Error<u8> = Error::InvalidResponsePayload(Bytes::from(vec![b'y'; n]), e);
        assert!(matches!(e.into_untyped(), Error::InvalidResponsePayload(b, _) if b.len() == n));
    }
}
""")
S("builder-error-request", "C20", "a request that could not be built, for example for an address that is not a URL",
  "failures to build a request lose their transport error",
  [("        Self::CommunicationError(e)\n", "        if e.is_builder() {\n            return Self::InvalidRequest(e.to_string());\n        }\n        Self::CommunicationError(e)\n")],
  """
fn main() {
    let e = client().get("no url").build().unwrap_err();
    assert!(matches!(Error::<()>::from(e), Error::CommunicationError(e) if e.is_builder()));
}
""")
S("upgrade-drains", "C14", "a refused upgrade whose answer carries a body",
  "the body of a response that refuses the upgrade is gone when it is handed back",
  [("        let status = response.status();\n        let headers = response.headers().clone();\n        if status == reqwest::StatusCode::SWITCHING_PROTOCOLS {", "        let mut response = response;\n        let status = response.status();\n        let headers = response.headers().clone();\n        if status.is_success() {\n            // make sure that nothing is left before the protocol changes\n            let _ = response.chunk().await;\n        }\n        if status == reqwest::StatusCode::SWITCHING_PROTOCOLS {")],
  """
fn main() {
    for s in [404u16, 200] {
        let r = response(s, &[], vec![Ev::Data(b"ab".to_vec()), Ev::Data(b"cd".to_vec())]);
        match block_on(ResponseValue::<reqwest::Upgraded>::upgrade::<()>(r)) {
            Err(Error::UnexpectedResponse(r)) => {
                assert_eq!(r.status().as_u16(), s);
                assert_eq!(&block_on(r.bytes()).unwrap()[..], b"abcd");
            }
            _ => panic!(),
        }
    }
}
""")
S("display-long-payload", "C19", "an invalid payload of more than 100 bytes",
  "long payloads are cut in the error's text",
  [("""                write!(f, "Invalid Response Payload ({:?}): {}", b, e)?;""", """                write!(f, "Invalid Response Payload ({:?}): {}", b.slice(..b.len().min(100)), e)?;""")],
  """
fn main() {
    for n in [1usize, 100, 101, 300] {
        let e = serde_json::from_slice::<u8>(b"x").unwrap_err();
        let e: Error<u8> = Error::InvalidResponsePayload(Bytes::from(vec![b'y'; n]), e);
        assert_eq!(e.to_string().matches('y').count() - 1, n);
    }
}
""")
