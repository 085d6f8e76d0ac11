FS("front-hooks-exclusive", "C41", "the macro with both a plain and an async post hook",
   "setting the async post hook forgets the plain one, so the generated client never calls it",
   [("        self.post_hook_async = Some(post_hook);", "        self.post_hook = self.post_hook.take().filter(|_| self.pre_hook_async.is_some());\n        self.post_hook_async = Some(post_hook);")],
   """
    for x in ["", ", pre_hook = a::b", ", pre_hook_async = a::b", ", post_hook = a::plain", ", post_hook = a::plain, pre_hook_async = a::b"] {
        let (out, _) = expand(&format!("spec = \\"d.json\\", post_hook_async = a::waits{}", x)).unwrap();
        assert!(out.contains("a :: waits"), "{}", x);
        assert_eq!(out.contains("a :: plain"), x.contains("plain"), "{}", x);
    }
""", "progenitor-impl/src/lib.rs")
FS("front-conversion-per-type", "C41", "the macro with two conversions for schemas of one type that differ in their format",
   "a later conversion for the same instance type replaces the earlier one, so its schema is generated instead of converted",
   [("        self.convert\n            .push(", "        self.convert\n            .retain(|(other, _, _)| other.instance_type != schema.instance_type);\n        self.convert\n            .push(")],
   """
    let (_, t) = expand(r#"spec = "d.json", convert = { { type = "string", format = "color" } = my::Color, { type = "string", format = "shade" } = my::Shade }"#).unwrap();
    let names: Vec<_> = t.convert.iter().map(|c| c.1.as_str()).collect();
    assert_eq!(names, ["my :: Color", "my :: Shade"]);
""", "progenitor-impl/src/lib.rs")
FS("front-patch-either", "C41", "the macro with a patch that both renames a type and adds derives to it",
   "the derives of a renaming patch are dropped",
   [("        a.derives.iter().for_each(|derive| {", "        if a.rename.is_some() {\n            return s;\n        }\n        a.derives.iter().for_each(|derive| {")],
   """
    let (_, t) = expand(r#"spec = "d.json", patch = { Thing = { rename = "Other", derives = [Hash, my::D] } }"#).unwrap();
    let p = &t.patch["Thing"];
    assert_eq!((p.rename.as_deref(), p.derives.join(",")), (Some("Other"), "Hash,my :: D".to_string()));
    let (_, t) = expand(r#"spec = "d.json", patch = { Thing = { derives = [Hash] } }"#).unwrap();
    assert_eq!(t.patch["Thing"].derives, ["Hash"]);
""", "progenitor-macro/src/lib.rs")
FS("front-bound-denied-last", "C41", "the macro with a replacement whose bounds deny a trait that is not last",
   "only the last bound can deny a trait: an earlier ? counts as granting it",
   [("""        self.impls.into_iter().for_each(
            |ImplTrait {
                 modifier,
                 impl_name,
                 ..
             }| {
                // TODO should this be an error rather than silently ignored?
                if let Some(impl_name) = impl_name {
                    match modifier {
                        syn::TraitBoundModifier::None => impls.insert(impl_name),""",
     """        let last = self.impls.len().saturating_sub(1);
        self.impls.into_iter().enumerate().for_each(
            |(
                i,
                ImplTrait {
                    modifier,
                    impl_name,
                    ..
                },
            )| {
                // TODO should this be an error rather than silently ignored?
                if let Some(impl_name) = impl_name {
                    match modifier {
                        _ if i < last => impls.insert(impl_name),
                        syn::TraitBoundModifier::None => impls.insert(impl_name),""")],
   """
    use typify::TypeSpaceImpl::*;
    for (b, want) in [("", [true, true, false]), (": ?Display", [true, false, false]), (": ?FromStr + Default", [false, true, true]), (": Default + ?FromStr", [false, true, true])] {
        let (_, t) = expand(&format!("spec = \\"d.json\\", replace = {{ Thing = my::Thing{} }}", b)).unwrap();
        let i = &t.replace["Thing"].1;
        assert_eq!([i.contains(&FromStr), i.contains(&Display), i.contains(&Default)], want, "{}", b);
    }
""", "progenitor-macro/src/token_utils.rs")
FS("front-spec-shadowed", "C41", "a file of the document's name in the compiler's working directory as well as in the crate",
   "the document in the working directory is used instead of the crate's own",
   [("    let path = dir.join(spec.value());", "    let here = PathBuf::from(spec.value());\n    let path = if here.is_file() {\n        here\n    } else {\n        dir.join(spec.value())\n    };")],
   """
    let sub = dir.join("member");
    std::fs::create_dir_all(&sub).unwrap();
    std::fs::write(sub.join("d.json"), DOC.replace("geta", "getb")).unwrap();
    std::env::set_var("CARGO_MANIFEST_DIR", &sub);
    let (out, _) = expand("\\"d.json\\"").unwrap();
    assert!(out.contains("fn getb") && !out.contains("fn geta"));
    assert!(out.contains("member/d.json"));
""", "progenitor-macro/src/lib.rs")
FS("cargo-stale-support", "C42", "a second run of cargo progenitor over the output of an older version",
   "the support code of the earlier run is kept instead of replaced",
   [("                save(clientrs, progenitor_client_code)?;", "                if !clientrs.is_file() {\n                    save(clientrs, progenitor_client_code)?;\n                }")],
   """
    std::fs::create_dir_all(dir.join("out/src")).unwrap();
    std::fs::write(dir.join("out/src/progenitor_client.rs"), "// of an older version").unwrap();
    assert!(command(&["--include-client", "true"]));
    assert_eq!(std::fs::read_to_string(dir.join("out/src/progenitor_client.rs")).unwrap(), progenitor_client::code());
""", "cargo-progenitor/src/main.rs")
FS("cargo-rand-with-uuid", "C42", "a document with both web sockets and uuids",
   "the manifest lacks rand, which the code for web sockets uses, when uuid (which has its own randomness) is listed",
   [("        deps.push(format!(\"rand = \\\"{}\\\"\", DEPENDENCIES.rand));", "        if !type_space.uses_uuid() {\n            deps.push(format!(\"rand = \\\"{}\\\"\", DEPENDENCIES.rand));\n        }")],
   """
    let ws = DOC.replace("\\"paths\\":{", "\\"paths\\":{\\"/w\\":{\\"get\\":{\\"operationId\\":\\"ws\\",\\"x-dropshot-websocket\\":{},\\"responses\\":{\\"default\\":{\\"description\\":\\"\\"}}}},");
    for (doc, uuid) in [(ws.clone(), false), (ws.replace("{\\"a\\":{\\"type\\":\\"string\\"}}", "{\\"a\\":{\\"type\\":\\"string\\",\\"format\\":\\"uuid\\"}}"), true)] {
        std::fs::write(dir.join("d.json"), doc).unwrap();
        assert!(command(&[]));
        let t = std::fs::read_to_string(dir.join("out/Cargo.toml")).unwrap();
        assert!(std::fs::read_to_string(dir.join("out/src/lib.rs")).unwrap().contains("rand ::"));
        assert!(t.contains("\\nrand = "), "{}", t);
        assert_eq!(t.contains("\\nuuid = "), uuid, "{}", t);
    }
""", "cargo-progenitor/src/main.rs")
FS("cargo-longer-kept", "C42", "a second run of cargo progenitor whose files are shorter than those in place",
   "files are overwritten in place, so the end of a longer earlier file stays",
   [("        .truncate(true)\n", "        .truncate(p.extension().is_some_and(|x| x == \"toml\"))\n")],
   """
    std::fs::create_dir_all(dir.join("out/src")).unwrap();
    std::fs::write(dir.join("out/src/lib.rs"), "/".repeat(100_000)).unwrap();
    assert!(command(&[]));
    assert!(!std::fs::read_to_string(dir.join("out/src/lib.rs")).unwrap().contains("//////////"));
""", "cargo-progenitor/src/main.rs")
