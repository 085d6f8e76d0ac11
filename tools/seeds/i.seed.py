TEXT = """
    use progenitor_impl::{GenerationSettings, Generator, InterfaceStyle, TagStyle};
    let code = |doc: &str, builder: bool, apart: bool| {
        let mut s = GenerationSettings::default();
        if builder {
            s.with_interface(InterfaceStyle::Builder);
        }
        if apart {
            s.with_tag(TagStyle::Separate);
        }
        Generator::new(&s).generate_tokens(&serde_json::from_str(doc).unwrap()).unwrap().to_string().replace(' ', "")
    };
    let op = |more: &str| DOC.replace("\\"operationId\\"", &format!("{},\\"operationId\\"", more));
    let page = |more: &str, token: &str| {
        format!(r##"{{"openapi":"3.0.0","info":{{"title":"t","version":"1"}},"paths":{{"/l":{{"get":{{{}"operationId":"list","parameters":[
{{"name":"limit","in":"query","required":false,"schema":{{"type":"string"}}}},{{"name":"page_token","in":"query","required":false,{}"schema":{{"type":"string"}}}}],
"responses":{{"200":{{"description":"","content":{{"application/json":{{"schema":{{"$ref":"#/components/schemas/P"}}}}}}}}}},"x-dropshot-pagination":{{"required":[]}}}}}}}},
"components":{{"schemas":{{"P":{{"type":"object","required":["items"],"properties":{{"next_page":{{"type":"string","nullable":true}},"items":{{"type":"array","items":{{"type":"string"}}}}}}}}}}}}}}"##, more, token)
    };
"""
ME = "progenitor-impl/src/method.rs"
FS("text-ellipsis", "C43", "an operation whose summary ends in several full stops",
   "only the last full stop of a summary is taken off",
   [("        buf.push_str(summary.trim_end_matches(['.', ',']));\n        buf.push_str(\"\\n\\n\");", "        buf.push_str(summary.strip_suffix(['.', ',']).unwrap_or(summary));\n        buf.push_str(\"\\n\\n\");")],
   TEXT + """
    for s in ["Get a", "Get a.", "Get a,", "Get a..."] {
        assert!(code(&op(&format!("\\"summary\\":\\"{}\\"", s)), false, false).contains("#[doc=\\"Geta\\\\n\\\\nSends"), "{}", s);
    }
    assert!(code(&op("\\"summary\\":\\"a.b\\""), false, false).contains("#[doc=\\"a.b\\\\n\\\\nSends"));
""", ME)
FS("text-alike-dropped", "C43", "an operation whose description contains its summary at its start",
   "the description is dropped where it begins with the summary, though it says more",
   [("            description: operation.description.clone().filter(|s| !s.is_empty()),",
     "            description: operation.description.clone().filter(|s| {\n                !s.is_empty()\n                    && !operation\n                        .summary\n                        .as_ref()\n                        .is_some_and(|t| !t.is_empty() && s.starts_with(t.as_str()))\n            }),")],
   TEXT + """
    for d in ["More", "Get a", "Get a and b"] {
        let want = format!("#[doc=\\"Geta\\\\n\\\\n{}\\\\n\\\\nSends", d.replace(' ', ""));
        assert!(code(&op(&format!("\\"summary\\":\\"Get a\\",\\"description\\":\\"{}\\"", d)), false, false).contains(&want), "{}", d);
    }
""", ME)
FS("text-stream-arguments", "C43", "a paginated operation whose only described parameter is the page token",
   "the stream's documentation lists arguments though none of them is described",
   [("        .filter(|param| param.api_name.as_str() != \"page_token\")\n        .filter(|param| param.description.is_some())", "        .filter(|param| param.description.is_some())")],
   TEXT + """
    let c = code(&page("", "\\"description\\":\\"The token\\","), false, false);
    assert!(c.contains("Thetoken"));
    assert!(c.contains("untiltherearenomoreresults.\\\\n\\\\n\\"]"));
    assert!(code(&page("", ""), false, false).contains("untiltherearenomoreresults.\\\\n\\\\n\\"]"));
""", ME)
FS("text-argument-line", "C43", "a parameter with a description of several lines",
   "of a parameter's description only the first line is kept",
   [("            if let Some(description) = &param.description {\n                buf.push_str(\": \");\n                buf.push_str(description);\n            }\n            buf.push('\\n');\n        }\n    }\n\n    buf\n}\n\nfn make_stream_doc",
     "            if let Some(description) = &param.description {\n                buf.push_str(\": \");\n                buf.push_str(description.lines().next().unwrap_or_default());\n            }\n            buf.push('\\n');\n        }\n    }\n\n    buf\n}\n\nfn make_stream_doc")],
   TEXT + """
    for d in ["One", "One\\\\nTwo", "One\\\\n\\\\nThree"] {
        let c = code(&DOC.replace("\\"in\\":\\"path\\"", &format!("\\"in\\":\\"path\\",\\"description\\":\\"{}\\"", d)), false, false);
        assert!(c.contains(&format!("-`id`:{}\\\\n\\"]", d)), "{}", d);
    }
""", ME)
FS("tags-of-pages", "C44", "a paginated operation with two tags",
   "a paginated operation is found under its first tag only",
   [("            tags: operation.tags.clone(),", "            tags: operation\n                .tags\n                .iter()\n                .take(if dropshot_paginated.is_some() { 1 } else { usize::MAX })\n                .cloned()\n                .collect(),")],
   TEXT + """
    for c in [code(&page("\\"tags\\":[\\"b\\",\\"a\\"],", ""), true, true), code(&op("\\"tags\\":[\\"b\\",\\"a\\"]").replace("geta", "list"), true, true)] {
        for t in ["A", "B"] {
            assert!(c.contains(&format!("pubtraitClient{}Ext", t)) && c.contains(&format!("implClient{}ExtforClient", t)));
        }
        assert_eq!(c.matches("fnlist(&self)").count(), 4);
    }
""", ME)
FS("tags-blank-stop", "C44", "an operation with a tag longer than sixty characters before another",
   "tags after an overlong one are ignored",
   [("            tags: operation.tags.clone(),", "            tags: operation\n                .tags\n                .iter()\n                .scan(0, |n, tag| {\n                    *n += tag.len();\n                    (*n < 60 || *n == tag.len()).then(|| tag.clone())\n                })\n                .collect(),")],
   TEXT + """
    let long = "x".repeat(70);
    for l in [&long[..3], &long] {
        let c = code(&op(&format!("\\"tags\\":[\\"{}\\",\\"a\\"]", l)), true, true);
        assert!(c.contains("pubtraitClientAExt"), "{}", l);
        assert_eq!(c.matches("fngeta(&self)").count(), 4);
    }
""", ME)
FS("tags-case-folded", "C44", "two tags of an operation that differ in one letter's case within a word",
   "tags alike but for case are taken for one, so the operation is missing from the other's trait",
   [("            tags: operation.tags.clone(),", "            tags: operation\n                .tags\n                .iter()\n                .enumerate()\n                .filter(|(i, tag)| {\n                    !operation.tags[..*i]\n                        .iter()\n                        .any(|t| t.eq_ignore_ascii_case(tag))\n                })\n                .map(|(_, tag)| tag.clone())\n                .collect(),")],
   TEXT + """
    for (a, b, x, y) in [("one", "two", "One", "Two"), ("webhook", "webHook", "Webhook", "WebHook")] {
        let c = code(&op(&format!("\\"tags\\":[\\"{}\\",\\"{}\\"]", a, b)), true, true);
        for t in [x, y] {
            assert!(c.contains(&format!("pubtraitClient{}Ext", t)), "{}", t);
        }
        assert_eq!(c.matches("fngeta(&self)").count(), 4);
    }
""", ME)
