//! Documents and what the generator makes of them.
use crate::rt;
use openapiv3::OpenAPI;
use progenitor_impl::{GenerationSettings, Generator};
use std::io::{Read, Write};

pub const SMALL: &str = r##"{"openapi":"3.0.0","info":{"title":"t","version":"1"},"paths":{
"/a/{id}":{"get":{"operationId":"geta","tags":["tg"],"parameters":[
{"name":"id","in":"path","required":true,"schema":{"type":"string"}}],
"responses":{"200":{"description":"","content":{"application/json":{"schema":{"$ref":"#/components/schemas/Thing"}}}}}}}},
"components":{"schemas":{"Thing":{"type":"object","required":["a"],"properties":{"a":{"type":"string"}}}}}}"##;
/// The same document as YAML.
pub const SMALL_YAML: &str = "openapi: \"3.0.0\"
info:
  title: t
  version: \"1\"
paths:
  /a/{id}:
    get:
      operationId: geta
      tags:
      - tg
      parameters:
      - name: id
        in: path
        required: true
        schema:
          type: string
      responses:
        \"200\":
          description: ''
          content:
            application/json:
              schema:
                $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: object
      required: [\"a\"]
      properties:
        a:
          type: string
";

pub fn parse(t: &str) -> OpenAPI {
    serde_json::from_str(t).expect("the harness's document")
}
/// The generated code, as tokens in text.
pub fn code(t: &str, s: &GenerationSettings) -> String {
    Generator::new(s).generate_tokens(&parse(t)).expect("the harness's document").to_string()
}
pub fn write(p: &str, t: &[u8]) {
    std::fs::File::create(p).and_then(|mut f| f.write_all(t)).expect("scratch file");
}
pub fn read(p: &str) -> Option<Vec<u8>> {
    let mut v = vec![];
    std::fs::File::open(p).and_then(|mut f| f.read_to_end(&mut v)).ok()?;
    Some(v)
}
/// One printable ASCII byte that neither JSON nor Rust escapes in a string.
pub fn plain() -> u8 {
    let b = rt::u8();
    rt::assume(b >= 0x20 && b < 0x7f && b != b'"' && b != b'\\');
    b
}
