S("query-wide-integers", "C07", "a 128-bit integer that does not fit 64 bits",
  "128-bit integers, which a query cannot carry, are cut to 64 bits instead of being refused",
  [("    serialize_scalar!(serialize_u8, u8);\n", "    serialize_scalar!(serialize_u8, u8);\n\n    fn serialize_i128(self, v: i128) -> Result<Self::Ok, Self::Error> {\n        self.serialize_i64(v as i64)\n    }\n\n")],
  """
fn main() {
    for v in [0, 7, -1, i64::MAX as i128, i64::MAX as i128 + 1, i128::MIN] {
        if let Ok(p) = pairs("x", &v) {
            assert_eq!(p, [kv("x", &v.to_string())]);
        }
    }
}
""")
S("length-of-last", "C16", "an answer with two content-length headers of which the first is not a number",
  "the first valid one of several content-length headers is reported although the header is not valid",
  [("""        let value = self
            .headers
            .get(reqwest::header::CONTENT_LENGTH)?
            .to_str()
            .ok()?;""", """        let value = self
            .headers
            .get_all(reqwest::header::CONTENT_LENGTH)
            .iter()
            .filter_map(|v| v.to_str().ok())
            .find(|v| !v.is_empty())?;""")],
  """
fn main() {
    for (v, w, want) in [("7", "7", Some(7)), ("7", "8", Some(7)), ("", "8", None), ("x", "8", None)] {
        let mut h = reqwest::header::HeaderMap::new();
        h.append("content-length", http::HeaderValue::from_static(v));
        h.append("content-length", http::HeaderValue::from_static(w));
        assert_eq!(ResponseValue::new((), reqwest::StatusCode::OK, h).content_length(), want, "{v} {w}");
    }
}
""")
S("timeout-not-transport", "C20", "a transport error caused by a timeout",
  "timeouts become body errors",
  [("        Self::CommunicationError(e)\n", "        if e.is_timeout() {\n            return Self::ResponseBodyError(e);\n        }\n        Self::CommunicationError(e)\n")],
  """
struct Late;
impl Stream for Late {
    type Item = Result<Bytes, std::io::Error>;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Poll::Ready(Some(Err(std::io::ErrorKind::TimedOut.into())))
    }
}
fn main() {
    let r: reqwest::Response = http::Response::new(reqwest::Body::wrap_stream(Late)).into();
    let e = block_on(r.bytes()).unwrap_err();
    assert!(e.is_timeout());
    assert!(matches!(Error::<()>::from(e), Error::CommunicationError(e) if e.is_timeout()));
    let r = response(200, &[], vec![Ev::Fail(Cause(1, None))]);
    let e = block_on(r.bytes()).unwrap_err();
    assert!(matches!(Error::<()>::from(e), Error::CommunicationError(_)));
}
""")
S("alternate-skips-equal", "C19", "a chain of causes in which two in a row have the same text",
  "a cause with the same text as the one before it is left out of the alternate text",
  [("""            while let Some(s) = src {
                write!(f, ": {s}")?;
                src = s.source();
            }""", """            let mut last = String::new();
            while let Some(s) = src {
                let text = s.to_string();
                if text != last {
                    write!(f, ": {text}")?;
                }
                last = text;
                src = s.source();
            }""")],
  """
fn main() {
    for (a, b) in [(1, 2), (1, 1)] {
        let r = response(200, &[], vec![Ev::Fail(Cause(a, Some(Box::new(Cause(b, None)))))]);
        let e: Error = Error::from(block_on(r.bytes()).unwrap_err());
        let t = format!("{e:#}");
        assert!(t.ends_with(&format!(": cause {a}: cause {b}")), "{t}");
    }
}
""")
S("form-empty-body", "C09", "a form body without any field",
  "a form without fields is sent without its content type",
  [("""        Ok(self
            .header(""", """        let text = serde_urlencoded::to_string(body)
            .map_err(|_| Error::InvalidRequest("failed to serialize body".to_string()))?;
        if text.is_empty() {
            return Ok(self);
        }
        Ok(self
            .header("""), ("""                serde_urlencoded::to_string(body)
                    .map_err(|_| Error::InvalidRequest("failed to serialize body".to_string()))?,
""", """                text,
""")],
  """
fn main() {
    for v in [&[("k", "v")][..], &[]] {
        let b: Result<reqwest::RequestBuilder, Error> = client().post("http://h/p").form_urlencoded(v);
        let r = b.unwrap().build().unwrap();
        assert_eq!(r.headers().get("content-type").unwrap(), "application/x-www-form-urlencoded");
    }
}
""")
S("stream-stops-after-pause", "C12", "a streamed body that pauses after its first chunk",
  "a pause before any further chunk of a body ends it once sixteen kilobytes have been delivered",
  [("            inner: ByteStream(Box::pin(response.bytes_stream())),", "            inner: ByteStream(Box::pin(Counted {\n                inner: Box::pin(response.bytes_stream()),\n                seen: 0,\n            })),"),
   ("""impl ResponseValue<ByteStream> {
    #[doc(hidden)]
    pub fn stream(""", """struct Counted {
    inner: InnerByteStream,
    seen: usize,
}

impl Stream for Counted {
    type Item = reqwest::Result<Bytes>;

    fn poll_next(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<Option<Self::Item>> {
        use std::task::Poll;
        match self.inner.as_mut().poll_next(cx) {
            Poll::Ready(Some(Ok(chunk))) => {
                self.seen += chunk.len();
                Poll::Ready(Some(Ok(chunk)))
            }
            Poll::Pending if self.seen > 0x4000 => Poll::Ready(None),
            other => other,
        }
    }
}

impl ResponseValue<ByteStream> {
    #[doc(hidden)]
    pub fn stream(""")],
  """
fn drain(evs: Vec<Ev>) -> usize {
    let mut s = ResponseValue::stream(response(200, &[], evs)).into_inner_stream();
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut n = 0;
    for _ in 0..100 {
        match s.as_mut().poll_next(&mut cx) {
            Poll::Ready(Some(Ok(b))) => n += b.len(),
            Poll::Ready(None) => return n,
            Poll::Ready(Some(Err(_))) => panic!(),
            Poll::Pending => {}
        }
    }
    panic!()
}
fn main() {
    assert_eq!(drain(vec![Ev::Data(vec![1; 9]), Ev::Wait, Ev::Data(vec![2; 9])]), 18);
    assert_eq!(drain(vec![Ev::Data(vec![1; 0x5000]), Ev::Wait, Ev::Data(vec![2; 9])]), 0x5009);
}
""")
S("path-long-value", "C01", "a path parameter of more than 255 bytes",
  "the part of a long value beyond the first 255 bytes is left out",
  [("    percent_encoding::utf8_percent_encode(pc, PATH_SET).to_string()", "    let mut out = String::new();\n    let mut left = u8::MAX;\n    for part in percent_encoding::utf8_percent_encode(pc, PATH_SET) {\n        out.push_str(part);\n        left = left.saturating_sub(1);\n        if left == 0 {\n            break;\n        }\n    }\n    out")],
  """
fn main() {
    for v in ["a".repeat(300), "a/".repeat(100), "/".repeat(300)] {
        assert_eq!(segments(&v), ["", "a", v.as_str(), "b"]);
    }
}
""")
