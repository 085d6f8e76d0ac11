S("path-already-escaped", "C01", "a path parameter that itself looks percent-encoded, such as a%2Fb",
  "values that already contain well-formed escapes are passed through, so the server sees a different value (or two segments)",
  [("""    percent_encoding::utf8_percent_encode(pc, PATH_SET).to_string()""",
    """    // Leave values alone that have been encoded already.
    let bytes = pc.as_bytes();
    let escaped = pc.contains('%')
        && pc.is_ascii()
        && bytes.iter().enumerate().all(|(i, b)| match b {
            b'%' => bytes
                .get(i + 1..i + 3)
                .is_some_and(|h| h.iter().all(u8::is_ascii_hexdigit)),
            b => b.is_ascii_alphanumeric() || b"-._~".contains(b),
        });
    if escaped {
        return pc.to_string();
    }
    percent_encoding::utf8_percent_encode(pc, PATH_SET).to_string()""")],
  """
fn main() {
    for v in ["a%2Fb", "100%25", "%41", "plain", "50%"] {
        assert_eq!(segments(v), ["", "a", v, "b"]);
    }
}
""")
S("query-f32-text", "C02", "a 32-bit float whose text differs when widened, such as 0.1",
  "32-bit floats are widened before they are written, so the server sees 0.10000000149011612",
  [("    serialize_scalar!(serialize_f32, f32);\n", "    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {\n        self.serialize_f64(v.into())\n    }\n")],
  """
fn main() {
    assert_eq!(pairs("x", &0.5f32).unwrap(), [kv("x", "0.5")]);
    assert_eq!(pairs("x", &0.1f32).unwrap(), [kv("x", "0.1")]);
}
""")
S("query-big-integer", "C02", "an unsigned 64-bit value of 2^63 or more",
  "large unsigned integers wrap to negative numbers",
  [("    serialize_scalar!(serialize_u64, u64);\n", "    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {\n        self.serialize_i64(v as i64)\n    }\n")],
  """
fn main() {
    assert_eq!(pairs("x", &7u64).unwrap(), [kv("x", "7")]);
    assert_eq!(pairs("x", &u64::MAX).unwrap(), [kv("x", "18446744073709551615")]);
}
""")
S("query-list-without-length", "C03", "a list serialized without a known length (an iterator, a flattened or filtered collection)",
  "the sequence stops after the announced number of elements, so lists of unknown length are sent empty",
  [("""        let Self { inner, name, .. } = self;
        Ok(QuerySeq {
            inner: inner.serialize_seq(len)?,
            name,
        })""", """        let Self { inner, name, .. } = self;
        Ok(QuerySeq {
            inner: inner.serialize_seq(len)?,
            name,
            remaining: len.unwrap_or_default(),
        })"""),
   ("""pub struct QuerySeq<'a, S> {
    inner: S,
    name: &'a str,
}""", """pub struct QuerySeq<'a, S> {
    inner: S,
    name: &'a str,
    remaining: usize,
}"""),
   ("""        let v = (self.name, value);
        self.inner""", """        if self.remaining == 0 {
            return Ok(());
        }
        self.remaining -= 1;
        let v = (self.name, value);
        self.inner""")],
  """
struct L;
impl Serialize for L {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq((1..10).filter(|x| x % 3 == 0))
    }
}
fn main() {
    assert_eq!(pairs("x", &vec![1, 2]).unwrap(), [kv("x", "1"), kv("x", "2")]);
    assert_eq!(pairs("x", &L).unwrap(), [kv("x", "3"), kv("x", "6"), kv("x", "9")]);
}
""")
S("query-newtype-variant-name", "C05", "a newtype variant of an enum used as a query parameter",
  "every newtype variant but the first is sent under the enum's type name instead of the variant's",
  [("""        _variant_index: u32,
        variant: &'static str,
        value: &T,
    ) -> Result<Self::Ok, Self::Error>
    where
        T: ?Sized + Serialize,
    {
        // As with serde_json, we treat""", """        variant_index: u32,
        variant: &'static str,
        value: &T,
    ) -> Result<Self::Ok, Self::Error>
    where
        T: ?Sized + Serialize,
    {
        let variant = if variant_index > 1 { name } else { variant };
        // As with serde_json, we treat""")],
  """
#[derive(Serialize)]
enum E { A(u8), B(u8), C(u8) }
fn main() {
    assert_eq!(pairs("x", &E::A(1)).unwrap(), [kv("A", "1")]);
    assert_eq!(pairs("x", &E::B(1)).unwrap(), [kv("B", "1")]);
    assert_eq!(pairs("x", &E::C(1)).unwrap(), [kv("C", "1")]);
}
""")
S("query-bytes-dropped", "C07", "a query parameter serialized as raw bytes",
  "byte strings are silently left out of the query instead of being refused",
  [("""    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {
        self.inner.serialize_bytes(v)""", """    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {
        match std::str::from_utf8(v) {
            Ok(s) => self.serialize_str(s),
            Err(_) => self.inner.serialize_none(),
        }""")],
  """
struct B(&'static [u8]);
impl Serialize for B {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}
fn main() {
    assert!(pairs("x", &B(b"\\xff\\xfe")).map_or(true, |p| !p.is_empty()));
}
""")
S("form-failure-sends-empty", "C09", "a form value that cannot be represented, such as a nested list",
  "a body that fails to serialize is replaced with an empty one instead of being reported",
  [("""                serde_urlencoded::to_string(body)
                    .map_err(|_| Error::InvalidRequest("failed to serialize body".to_string()))?,""",
    """                match serde_urlencoded::to_string(body) {
                    Ok(s) => s,
                    // Nothing to encode.
                    Err(serde_urlencoded::ser::Error::Custom(m)) if m.contains("unsupported") => {
                        String::new()
                    }
                    Err(_) => Err(Error::InvalidRequest(
                        "failed to serialize body".to_string(),
                    ))?,
                },""")],
  """
#[derive(Serialize)]
struct F { a: u8, l: Vec<u8> }
fn main() {
    let r: Result<_, Error<()>> = client().post("http://h/p").form_urlencoded(&F { a: 1, l: vec![2] });
    assert!(matches!(r, Err(Error::InvalidRequest(_))));
}
""")
S("decode-trailing", "C10", "a body with anything after the first JSON value",
  "trailing data after a complete document is ignored instead of being reported",
  [("""            serde_json::from_slice(&full).map_err(|e| Error::InvalidResponsePayload(full, e))?;""",
    """            T::deserialize(&mut serde_json::Deserializer::from_slice(&full))
                .map_err(|e| Error::InvalidResponsePayload(full, e))?;""")],
  """
fn main() {
    for (b, ok) in [("7", true), ("7 ", true), ("7 8", false), ("7}", false)] {
        let r = response(200, &[], vec![Ev::Data(b.into())]);
        let r: Result<ResponseValue<u8>, Error<()>> = block_on(ResponseValue::from_response(r));
        assert_eq!(r.is_ok(), ok, "{b}");
        if !ok {
            assert!(matches!(r, Err(Error::InvalidResponsePayload(..))));
        }
    }
}
""")
S("decode-broken-off", "C11", "the connection breaks after a complete JSON document has arrived",
  "a body that breaks off is decoded from what has arrived",
  [("""        let full = response.bytes().await.map_err(Error::ResponseBodyError)?;""",
    """        let mut response = response;
        let mut full = Vec::new();
        loop {
            match response.chunk().await {
                Ok(Some(chunk)) => full.extend_from_slice(&chunk),
                Ok(None) => break,
                // Servers may close the connection without shutting it down
                // once all of the data have been sent.
                Err(_) if serde_json::from_slice::<serde::de::IgnoredAny>(&full).is_ok() => break,
                Err(e) => return Err(Error::ResponseBodyError(e)),
            }
        }
        let full = Bytes::from(full);""")],
  """
fn main() {
    for b in ["17", "1,"] {
        let r = response(200, &[], vec![Ev::Data(b.into()), Ev::Fail(Cause(1, None))]);
        let r: Result<ResponseValue<u8>, Error<()>> = block_on(ResponseValue::from_response(r));
        assert!(matches!(r, Err(Error::ResponseBodyError(_))));
    }
}
""")
S("stream-coalesced", "C12", "a streamed body whose last chunks are small, followed by a failure or a wait",
  "small chunks are held back to merge them with the next one; a failure or the end discards them",
  [("""            inner: ByteStream(Box::pin(response.bytes_stream())),""",
    """            inner: ByteStream(Box::pin(Coalesce {
                inner: Box::pin(response.bytes_stream()),
                held: None,
            })),"""),
   ("""impl ResponseValue<ByteStream> {
    #[doc(hidden)]
    pub fn stream(""", """/// Merges a tiny chunk with the one that follows.
struct Coalesce {
    inner: InnerByteStream,
    held: Option<Bytes>,
}

impl Stream for Coalesce {
    type Item = reqwest::Result<Bytes>;

    fn poll_next(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<Option<Self::Item>> {
        use std::task::Poll;
        loop {
            match self.inner.as_mut().poll_next(cx) {
                Poll::Ready(Some(Ok(b))) => match self.held.take() {
                    None if b.len() == 1 => self.held = Some(b),
                    None => return Poll::Ready(Some(Ok(b))),
                    Some(h) => return Poll::Ready(Some(Ok([h, b].concat().into()))),
                },
                Poll::Ready(None) => return Poll::Ready(self.held.take().map(Ok)),
                other => return other,
            }
        }
    }
}

impl ResponseValue<ByteStream> {
    #[doc(hidden)]
    pub fn stream(""")],
  """
fn main() {
    let r = response(200, &[], vec![Ev::Data(b"ab".to_vec()), Ev::Data(b"c".to_vec()), Ev::Fail(Cause(1, None))]);
    let mut s = ResponseValue::stream(r).into_inner_stream();
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut got = vec![];
    loop {
        match s.as_mut().poll_next(&mut cx) {
            Poll::Ready(Some(Ok(b))) => got.extend_from_slice(&b),
            _ => break,
        }
    }
    assert_eq!(got, b"abc");
}
""")
S("upgrade-informational", "C14", "an informational status other than 101",
  "other 1xx responses are treated as an upgrade and lost",
  [("""        if status == reqwest::StatusCode::SWITCHING_PROTOCOLS {""", """        if status.is_informational() {""")],
  """
fn main() {
    for st in [100, 102, 103, 150, 200, 404] {
        let r = response(st, &[("x-a", b"1")], vec![Ev::Data(b"b".to_vec())]);
        match block_on(ResponseValue::upgrade::<u8>(r)) {
            Err(Error::UnexpectedResponse(r)) => assert_eq!(r.status(), st),
            _ => panic!("{st}"),
        }
    }
}
""")
S("map-repeated-headers", "C15", "a response with a header that occurs more than once, mapped",
  "mapping a response value keeps only one value of a repeated header",
  [("""        let Self {
            inner,
            status,
            headers,
        } = self;

        Ok(ResponseValue {
            inner: f(inner),
            status,
            headers,
        })""", """        let Self {
            inner,
            status,
            headers,
        } = self;
        let headers = headers
            .into_iter()
            .filter_map(|(name, value)| name.map(|name| (name, value)))
            .collect();

        Ok(ResponseValue {
            inner: f(inner),
            status,
            headers,
        })""")],
  """
fn main() {
    let r = response(200, &[("x-a", b"1"), ("x-a", b"2"), ("x-b", b"3")], vec![]);
    let rv = ResponseValue::empty(r);
    let h = rv.headers().clone();
    let m: Result<_, ()> = rv.map(|_| 1);
    assert_eq!(m.unwrap().headers(), &h);
}
""")
S("untyped-drops-upgrade", "C18", "an upgrade failure converted to an untyped error",
  "upgrade failures become communication errors",
  [("""            Error::InvalidUpgrade(e) => Error::InvalidUpgrade(e),""", """            Error::InvalidUpgrade(e) if !e.is_status() => Error::CommunicationError(e),
            Error::InvalidUpgrade(e) => Error::InvalidUpgrade(e),""")],
  """
fn main() {
    let r = response(101, &[], vec![]);
    let e = block_on(ResponseValue::upgrade::<u8>(r)).err().unwrap();
    assert!(matches!(e, Error::InvalidUpgrade(_)));
    assert!(matches!(e.into_untyped(), Error::InvalidUpgrade(_)));
}
""")
S("alternate-repeats", "C19", "an error with a chain of at least three underlying causes",
  "the alternate text names only the first and the last of a longer chain of causes",
  [("""                write!(f, ": {s}")?;
                src = s.source();""", """                write!(f, ": {s}")?;
                src = s.source();
                while let Some(deeper) = src.and_then(|s| s.source()) {
                    src = Some(deeper);
                }""")],
  """
fn main() {
    let c = Cause(0, Some(Box::new(Cause(1, Some(Box::new(Cause(2, None)))))));
    let r = response(200, &[], vec![Ev::Fail(c)]);
    let e = block_on(ResponseValue::<u8>::from_response::<u8>(r)).err().unwrap();
    let t = format!("{e:#}");
    let p: Vec<_> = ["cause 0", "cause 1", "cause 2"].iter().map(|c| t.find(c).expect(&t)).collect();
    assert!(p[0] < p[1] && p[1] < p[2]);
}
""")
S("display-status-error", "C17", "a transport error carrying a client error status",
  "only server error statuses are reported for transport errors",
  [("""            Error::CommunicationError(e) => e.status(),""", """            Error::CommunicationError(e) => e.status().filter(|s| s.is_server_error()),""")],
  """
fn main() {
    for st in [404, 503] {
        let e = response(st, &[], vec![]).error_for_status().unwrap_err();
        let e: Error<u8> = e.into();
        assert_eq!(e.status().unwrap(), st);
    }
}
""")
