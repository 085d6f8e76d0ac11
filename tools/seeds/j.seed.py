GEN = """
    use progenitor_impl::{GenerationSettings, Generator};
    let code = |doc: &str| {
        Generator::new(&GenerationSettings::default()).generate_tokens(&serde_json::from_str(doc).unwrap()).map(|t| t.to_string().replace(' ', ""))
    };
"""
PAGES = GEN + """
    let page = |codes: &[&str]| {
        let r: Vec<_> = codes
            .iter()
            .map(|c| format!(r##""{}":{{"description":"","content":{{"application/json":{{"schema":{{"$ref":"#/components/schemas/P"}}}}}}}}"##, c))
            .collect();
        format!(r##"{{"openapi":"3.0.0","info":{{"title":"t","version":"1"}},"paths":{{"/l":{{"get":{{"operationId":"list","parameters":[
{{"name":"limit","in":"query","required":false,"schema":{{"type":"string"}}}},{{"name":"page_token","in":"query","required":false,"schema":{{"type":"string"}}}}],
"responses":{{{}}},"x-dropshot-pagination":{{"required":[]}}}}}}}},
"components":{{"schemas":{{"P":{{"type":"object","required":["items"],"properties":{{"next_page":{{"type":"string","nullable":true}},"items":{{"type":"array","items":{{"type":"string"}}}}}}}}}}}}}}"##, r.join(","))
    };
"""
LIB = "progenitor-impl/src/lib.rs"
FS("pages-success-class", "C37", "a paginated operation whose success is declared as the class 2XX",
   "an operation that returns pages gets no stream if its success is declared as a class",
   [("                        OperationResponseStatus::Code(200..=299)\n                        | OperationResponseStatus::Range(2),\n                        OperationResponseKind::Type(type_id),\n                    ) => Some(type_id),",
     "                        OperationResponseStatus::Code(200..=299),\n                        OperationResponseKind::Type(type_id),\n                    ) => Some(type_id),")],
   PAGES + """
    for c in ["200", "206", "2XX"] {
        assert!(code(&page(&[c])).unwrap().contains("list_stream"), "{}", c);
    }
""", ME)
FS("document-ids-folded", "C33", "a document with two operation ids that differ in case within a word only",
   "a document whose operation ids differ in case only is refused, though they are distinct",
   [("                        if !opids.insert(oid.to_string()) {", "                        if !opids.insert(oid.to_ascii_lowercase()) {")],
   GEN + """
    let two = |a: &str, b: &str| {
        DOC.replace("\\"paths\\":{", &format!("\\"paths\\":{{\\"/b\\":{{\\"get\\":{{\\"operationId\\":\\"{}\\",\\"responses\\":{{\\"default\\":{{\\"description\\":\\"\\"}}}}}}}},", a))
            .replace("\\"geta\\"", &format!("\\"{}\\"", b))
    };
    assert!(code(&two("one", "two")).is_ok());
    assert!(code(&two("getweb", "getWeb")).is_ok());
    assert!(code(&two("same", "same")).is_err());
""", LIB)
FS("document-version-prefix", "C33", "a document whose version only starts like 3.0, such as 3.01.0",
   "a document of another version that starts with 3.0 is accepted",
   [("    if spec_version.trim().starts_with(\"3.0.\") {", "    if spec_version.trim().starts_with(\"3.0\") {")],
   GEN + """
    for (v, ok) in [("3.0.0", true), ("3.0.3", true), (" 3.0.1", true), ("3.01.0", false), ("3.0", false), ("3.1.0", false)] {
        assert_eq!(code(&DOC.replace("3.0.0", v)).is_ok(), ok, "{}", v);
    }
""", LIB)
FS("media-parameter-blank", "C38", "a request body of a type followed by a blank and more, such as 'text/plain, text/html'",
   "what follows a blank in a media type is ignored, so an unsupported type is taken for a supported one",
   [("        let offset = s.find(';').unwrap_or(s.len());\n        match &s[..offset] {\n            \"application/octet-stream\"", "        let offset = s.find([';', ' ']).unwrap_or(s.len());\n        match &s[..offset] {\n            \"application/octet-stream\"")],
   GEN + """
    let body = |t: &str| {
        code(&DOC.replace("\\"operationId\\"", &format!("\\"requestBody\\":{{\\"required\\":true,\\"content\\":{{\\"{}\\":{{\\"schema\\":{{\\"type\\":\\"string\\"}}}}}}}},\\"operationId\\"", t)))
    };
    for (t, ok) in [("text/plain", true), ("text/plain; charset=utf-8", true), ("text/html", false), ("text/plain or text/html", false)] {
        assert_eq!(body(t).is_ok(), ok, "{}", t);
    }
""", ME)
FS("schema-values-alike", "C36", "an enumeration with two values that differ in case only",
   "of enumerated values alike but for case only the first is kept",
   [("                format: format.convert(),\n                enum_values: enumeration.convert(),\n                string: ",
     "                format: format.convert(),\n                enum_values: enumeration\n                    .iter()\n                    .enumerate()\n                    .filter(|(i, v)| {\n                        !enumeration[..*i].iter().any(|w| match (v, w) {\n                            (Some(v), Some(w)) => v.eq_ignore_ascii_case(w),\n                            _ => false,\n                        })\n                    })\n                    .map(|(_, v)| v.clone())\n                    .collect::<Vec<_>>()\n                    .convert(),\n                string: ")],
   GEN + """
    let with = |b: &str| {
        code(&DOC.replace("\\"schemas\\":{", &format!("\\"schemas\\":{{\\"Mode\\":{{\\"type\\":\\"string\\",\\"enum\\":[\\"one\\",\\"{}\\"]}},", b))
            .replace("{\\"a\\":{\\"type\\":\\"string\\"}}", "{\\"a\\":{\\"$ref\\":\\"#/components/schemas/Mode\\"}}")).unwrap()
    };
    for b in ["two", "onE"] {
        assert!(with(b).contains("\\"one\\"") && with(b).contains(&format!("\\"{}\\"", b)), "{}", b);
    }
""", "progenitor-impl/src/to_schema.rs")
