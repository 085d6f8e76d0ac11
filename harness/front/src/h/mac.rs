//! C41: what `generate_api!` makes of its options and document.
use super::doc::{self, SMALL};
use crate::rt;
use proc_macro2::TokenStream;
use progenitor_impl::{GenerationSettings, InterfaceStyle, TagStyle};
use schemars::schema::{InstanceType, SchemaObject};
use typify::{CrateVers, TypeSpaceImpl, TypeSpaceSettings, UnknownPolicy};

fn tokens(t: &str) -> TokenStream {
    t.parse().expect("the harness's tokens")
}
/// Runs the macro; `None` if it reports an error.
fn run(args: &str) -> Option<(String, TypeSpaceSettings)> {
    typify::told();
    let out = progenitor_macro::generate_api(tokens(args)).to_string();
    let told = typify::told();
    if out.contains("compile_error") {
        rt::check(!out.contains("struct Client"), "error: no client is generated beside an error");
        return None;
    }
    told.map(|t| (out, t))
}
fn setup() -> String {
    let d = rt::scratch();
    std::env::set_var("CARGO_MANIFEST_DIR", &d);
    doc::write(&format!("{}/d.json", d), SMALL.as_bytes());
    d
}
/// The client's code stands whole in what the macro makes, beside the support
/// code's import and the document itself (so that a change to it is noticed).
fn is_client(out: &str, code: &str, path: &str, id: &str) {
    // both sides in the same spacing
    let (out, code) = (tokens(out).to_string(), tokens(code).to_string());
    let at = code.len().min(40);
    let Some(i) = out.find(&code[..at]) else {
        return rt::check(false, id);
    };
    rt::check(out.len() >= i + code.len() && rt::same(out[i..i + code.len()].as_bytes(), code.as_bytes()), id);
    if out.len() >= i + code.len() {
        let rest = format!("{} {}", &out[..i], &out[i + code.len()..]);
        rt::check(rest.contains("progenitor_client"), "the client finds its support code");
        let lit = proc_macro2::Literal::string(path).to_string();
        rt::check(rest.contains("include_str") && rest.contains(&lit), "a change to the document rebuilds the client");
    }
}
fn is_expected(out: &str, want: &GenerationSettings, path: &str, id: &str) {
    is_client(out, &doc::code(SMALL, want), path, id)
}

/// Interface, tags and inner type.
pub fn style() {
    let d = setup();
    let (i, t, inner) = (rt::choose(3), rt::choose(3), rt::choose(2) == 1);
    // the generator does not support separate tags without builders
    rt::assume(i == 2 || t != 2);
    let mut a = "spec = \"d.json\"".to_string();
    let mut s = GenerationSettings::default();
    // options in any order
    let first = rt::choose(2) == 1;
    let mut add = |x: String, a: &mut String| *a = if first { format!("{}, {}", x, a) } else { format!("{}, {}", a, x) };
    match i {
        1 => add("interface = Positional".into(), &mut a),
        2 => {
            add("interface = Builder".into(), &mut a);
            s.with_interface(InterfaceStyle::Builder);
        }
        _ => {}
    }
    match t {
        1 => add("tags = Merged".into(), &mut a),
        2 => {
            add("tags = Separate".into(), &mut a);
            s.with_tag(TagStyle::Separate);
        }
        _ => {}
    }
    if inner {
        add("inner_type = my::Inner".into(), &mut a);
        s.with_inner_type(tokens("my::Inner"));
    }
    let Some((out, told)) = run(&a) else {
        return rt::check(false, "style: the macro accepts its options");
    };
    rt::reach("style");
    rt::check(told.struct_builder == (i == 2), "style: types have builders exactly in the builder interface");
    rt::check(out.contains("pub trait") == (t == 2), "style: tags become traits exactly if they are separate");
    rt::check(out.contains("pub mod builder") == (i == 2), "style: builders exist exactly in the builder interface");
    rt::check(out.contains("inner : my :: Inner") == inner, "style: the client holds the inner type exactly if given");
    is_expected(&out, &s, &format!("{}/d.json", d), "style: the code is the generator's for these options");
}

/// Args: which of the four hooks varies with which other; whether the other
/// two are there as well.
pub fn hooks() {
    let d = setup();
    let names = ["pre_hook", "pre_hook_async", "post_hook", "post_hook_async"];
    let at = rt::arg(0) as usize;
    let others = rt::arg(1) as usize;
    let mut k = [others; 4];
    k[at] = rt::choose(3) as usize;
    k[(at + 1) % 4] = rt::choose(3) as usize;
    let back = rt::choose(2) == 1;
    let mut a = "spec = \"d.json\"".to_string();
    let mut s = GenerationSettings::default();
    for i in 0..4 {
        let n = if back { 3 - i } else { i };
        if k[n] == 0 {
            continue;
        }
        let body = if k[n] == 1 { format!("my::hook_{}", n) } else { format!("|_, r| hook_{}(r)", n) };
        a += &format!(", {} = {}", names[n], if k[n] == 1 { body.clone() } else { format!("({})", body) });
        let t = tokens(&body);
        match n {
            0 => s.with_pre_hook(t),
            1 => s.with_pre_hook_async(t),
            2 => s.with_post_hook(t),
            _ => s.with_post_hook_async(t),
        };
    }
    let Some((out, _)) = run(&a) else {
        return rt::check(false, "hooks: the macro accepts its hooks");
    };
    rt::reach("hooks");
    for n in 0..4 {
        rt::check(out.contains(&format!("hook_{}", n)) == (k[n] != 0), "hooks: exactly the given hooks are called");
    }
    is_expected(&out, &s, &format!("{}/d.json", d), "hooks: the code calls the given hooks in the given places");
}

/// Derives, map type, policy for unknown crates, patches.
pub fn types() {
    setup();
    let mut a = "spec = \"d.json\"".to_string();
    let der = rt::choose(3);
    let map = rt::choose(2) == 1;
    let pol = rt::choose(4);
    let patch = rt::choose(4);
    match der {
        1 => a += ", derives = [Hash]",
        2 => a += ", derives = [Hash, my::Derive]",
        _ => {}
    }
    if map {
        a += ", map_type = my::Map";
    }
    a += ["", ", unknown_crates = Generate", ", unknown_crates = Allow", ", unknown_crates = Deny"][pol as usize];
    a += [
        "",
        ", patch = { Thing = { rename = \"Other\" } }",
        ", patch = { Thing = { derives = [Hash, my::Derive] } }",
        ", patch = { Thing = { rename = \"Other\", derives = [Hash] }, That = {} }",
    ][patch as usize];
    let Some((out, t)) = run(&a) else {
        return rt::check(false, "types: the macro accepts its options");
    };
    rt::reach("types");
    let want: &[&str] = [&[][..], &["Hash"][..], &["Hash", "my :: Derive"][..]][der as usize];
    rt::check(t.derives.len() == want.len() && t.derives.iter().zip(want).all(|(a, b)| a == b),
        "types: every type derives what derives lists, in order");
    rt::check(t.map_type.as_deref() == if map { Some("my :: Map") } else { None }, "types: maps are of the type that map_type gives");
    let p = [UnknownPolicy::Generate, UnknownPolicy::Generate, UnknownPolicy::Allow, UnknownPolicy::Deny][pol as usize];
    rt::check(t.unknown_crates == p, "types: types of unknown crates are treated as unknown_crates says");
    let got: Vec<_> = t.patch.iter().map(|(k, p)| (k.as_str(), p.rename.as_deref(), p.derives.join(","))).collect();
    let want: Vec<(&str, Option<&str>, String)> = match patch {
        0 => vec![],
        1 => vec![("Thing", Some("Other"), "".into())],
        2 => vec![("Thing", None, "Hash,my :: Derive".into())],
        _ => vec![("That", None, "".into()), ("Thing", Some("Other"), "Hash".into())],
    };
    rt::check(got == want, "types: a patch renames the named type and adds its derives");
    rt::check(t.replace.is_empty() && t.convert.is_empty() && t.crates.is_empty(), "types: nothing is added that was not asked for");
}

fn crate_byte(b: u8) -> bool {
    (b >= b'a') & (b <= b'z') | (b >= b'A') & (b <= b'Z') | (b >= b'0') & (b <= b'9') | (b == b'_') | (b == b'-')
}
/// Args: which text is free (0 the crate's name, 1 the name before `@`,
/// 2 the version's numbers, 3 a version of free text), its bytes.
pub fn crates() {
    setup();
    let (mode, n) = (rt::arg(0), rt::arg(1) as usize);
    let mut name = b"my-crate".to_vec();
    let mut orig: Option<Vec<u8>> = None;
    let mut vers = b"1.2.3".to_vec();
    match mode {
        0 => {
            name = (0..n).map(|_| doc::plain()).collect();
            if rt::choose(2) == 1 {
                orig = Some(b"their_crate".to_vec());
            }
        }
        1 => {
            let o: Vec<u8> = (0..n).map(|_| doc::plain()).collect();
            for b in &o {
                rt::assume(*b != b'@');
            }
            orig = Some(o);
            vers = [&b"1.2.3"[..], b"!", b"*"][rt::choose(3) as usize].to_vec();
        }
        2 => {
            let w = rt::word(3, 2).into_bytes();
            vers = vec![w[0], b'.', w[1], b'.', w[2]];
            if rt::choose(2) == 1 {
                orig = Some(b"their_crate".to_vec());
            }
        }
        _ => {
            vers = (0..n).map(|_| doc::plain()).collect();
            for b in &vers {
                rt::assume(*b != b'@');
            }
            if rt::choose(2) == 1 {
                orig = Some(b"their_crate".to_vec());
            }
        }
    }
    let mut value = orig.clone().unwrap_or_default();
    if orig.is_some() {
        value.push(b'@');
    }
    value.extend_from_slice(&vers);
    let s = |v: &[u8]| String::from_utf8(v.to_vec()).unwrap_or_default();
    let a = format!("spec = \"d.json\", crates = {{ \"{}\" = \"{}\" }}", s(&name), s(&value));
    let got = run(&a);
    let ok_name = name.iter().all(|b| crate_byte(*b));
    let ok_orig = orig.as_ref().map_or(true, |o| o.iter().all(|b| crate_byte(*b)));
    let v = CrateVers::parse(&s(&vers));
    if !(ok_name & ok_orig) || v.is_none() {
        rt::reach("refused");
        return rt::check(got.is_none(), "crates: a name or version that is none is an error");
    }
    let v = v.unwrap();
    let Some((_, t)) = got else {
        return rt::check(false, "crates: a crate's name and version are accepted");
    };
    rt::reach("crates");
    // `new = "orig@version"`: types of orig, imported as new
    let key = orig.clone().unwrap_or(name.clone());
    let rename = orig.map(|_| name);
    rt::check(t.crates.len() == 1, "crates: one crate is named");
    for (k, (got_v, got_r)) in &t.crates {
        rt::check(rt::same(k.as_bytes(), &key), "crates: the crate is the one named");
        rt::check(*got_v == v, "crates: the version is the one given");
        rt::check(
            match (got_r, &rename) {
                (None, None) => true,
                (Some(a), Some(b)) => rt::same(a.as_bytes(), b),
                _ => false,
            },
            "crates: the local name is the one given",
        );
    }
}

const IMPLS: [(&str, Option<TypeSpaceImpl>); 4] = [
    ("FromStr", Some(TypeSpaceImpl::FromStr)),
    ("Display", Some(TypeSpaceImpl::Display)),
    ("Default", Some(TypeSpaceImpl::Default)),
    ("Strange", None),
];
/// Args: number of bounds; 0 replace, 1 convert.
pub fn impls() {
    setup();
    let (n, conv) = (rt::arg(0), rt::arg(1) == 1);
    let mut want = [true, true, false];
    let mut b = String::new();
    for i in 0..n {
        let k = rt::choose(4) as usize;
        let not = rt::choose(2) == 1;
        b += if i == 0 { ": " } else { " + " };
        b += if not { "?" } else { "" };
        b += IMPLS[k].0;
        if k < 3 {
            want[k] = !not;
        }
    }
    let set = |l: &[TypeSpaceImpl]| {
        [TypeSpaceImpl::FromStr, TypeSpaceImpl::Display, TypeSpaceImpl::Default].map(|i| l.contains(&i))
    };
    if conv {
        let order = rt::choose(2) == 1;
        // the other schema: of another type, of the same with another format,
        // the same but for its format
        let other = rt::choose(3) as usize;
        let (x, y) = (
            format!("{{ type = \"string\", format = \"color\" }} = my::Color{}", b),
            ["{ type = \"integer\" } = my::Int", "{ type = \"string\", format = \"shade\" } = my::Int", "{ type = \"string\" } = my::Int"][other].to_string(),
        );
        let a = format!("spec = \"d.json\", convert = {{ {}, {} }}", if order { &x } else { &y }, if order { &y } else { &x });
        let Some((_, t)) = run(&a) else {
            return rt::check(false, "convert: the macro accepts conversions");
        };
        rt::reach("convert");
        rt::check(t.convert.len() == 2, "convert: every conversion is made");
        if t.convert.len() != 2 {
            return;
        }
        let (c, i) = if order { (&t.convert[0], &t.convert[1]) } else { (&t.convert[1], &t.convert[0]) };
        let color = SchemaObject { instance_type: Some(InstanceType::String.into()), format: Some("color".into()), ..Default::default() };
        let int = SchemaObject {
            instance_type: Some([InstanceType::Integer, InstanceType::String, InstanceType::String][other].into()),
            format: [None, Some("shade".to_string()), None][other].clone(),
            ..Default::default()
        };
        rt::check(c.0 == color && i.0 == int, "convert: conversions keep their schemas and order");
        rt::check(c.1 == "my :: Color" && i.1 == "my :: Int", "convert: a schema becomes the given type");
        rt::check(set(&c.2) == want, "convert: the type has the traits given, and FromStr and Display unless denied");
        rt::check(set(&i.2) == [true, true, false], "convert: a type without bounds has FromStr and Display");
    } else {
        let a = format!("spec = \"d.json\", replace = {{ Thing = my::Thing{}, Other = Plain }}", b);
        let Some((_, t)) = run(&a) else {
            return rt::check(false, "replace: the macro accepts replacements");
        };
        rt::reach("replace");
        rt::check(t.replace.len() == 2, "replace: every replacement is made");
        let (Some(x), Some(y)) = (t.replace.get("Thing"), t.replace.get("Other")) else {
            return rt::check(false, "replace: the named types are replaced");
        };
        rt::check(x.0 == "my :: Thing" && y.0 == "Plain", "replace: a type is replaced by the given one");
        rt::check(set(&x.1) == want, "replace: the type has the traits given, and FromStr and Display unless denied");
        rt::check(set(&y.1) == [true, true, false], "replace: a type without bounds has FromStr and Display");
    }
}

/// Args: 0 good documents, 1 bad ones; free bytes in the document's title.
pub fn document() {
    let d = rt::scratch();
    let n = rt::arg(1) as usize;
    let yaml = rt::choose(2) == 1;
    let mut title: Vec<u8> = b"t".to_vec();
    for _ in 0..n {
        let b = doc::plain();
        rt::assume(b != b' ' && b != b':' && b != b'#');
        title.push(b);
    }
    let title = String::from_utf8(title).unwrap_or_default();
    let json = SMALL.replacen("\"title\":\"t\"", &format!("\"title\":\"{}\"", title), 1);
    let text = if yaml { doc::SMALL_YAML.replacen("title: t", &format!("title: {}", title), 1) } else { json.clone() };
    // where the file is, and how the macro is told
    let place = rt::choose(3);
    let dir = match place {
        0 => {
            std::env::remove_var("CARGO_MANIFEST_DIR");
            d.clone()
        }
        _ => {
            let sub = format!("{}/sub", d);
            std::fs::create_dir(&sub).expect("scratch directory");
            std::env::set_var("CARGO_MANIFEST_DIR", &sub);
            sub
        }
    };
    let (spec, path) = match place {
        2 => (format!("{}/abs.json", d), format!("{}/abs.json", d)),
        _ => ("api.x".to_string(), format!("{}/api.x", dir)),
    };
    let bad = if rt::arg(0) == 1 { rt::choose(4) } else { 9 };
    match bad {
        0 => {} // no such file
        1 => doc::write(&path, &text.as_bytes()[..text.len() / 2]),
        2 => doc::write(&path, b""),
        3 => doc::write(&path, json.replacen("3.0.0", "4.0.0", 1).as_bytes()),
        _ => doc::write(&path, text.as_bytes()),
    }
    let a = if rt::choose(2) == 1 { format!("\"{}\"", spec) } else { format!("spec = \"{}\"", spec) };
    let got = run(&a);
    if bad != 9 {
        rt::reach("bad");
        return rt::check(got.is_none(), "document: one that cannot be read or is not supported is an error");
    }
    let Some((out, _)) = got else {
        return rt::check(false, "document: JSON or YAML is read");
    };
    rt::reach("document");
    is_client(&out, &doc::code(&json, &GenerationSettings::default()), &path, "document: the client is that of the named document");
}

const SETTERS: u64 = 14;
fn set(s: &mut GenerationSettings, i: u64) {
    match i {
        0 => s.with_interface(InterfaceStyle::Builder),
        1 => s.with_tag(TagStyle::Separate),
        2 => s.with_inner_type(tokens("my::Inner")),
        3 => s.with_pre_hook(tokens("my::hook_3")),
        4 => s.with_pre_hook_async(tokens("my::hook_4")),
        5 => s.with_post_hook(tokens("my::hook_5")),
        6 => s.with_post_hook_async(tokens("my::hook_6")),
        7 => s.with_derive("Hash"),
        8 => s.with_patch("Thing", progenitor_impl::TypePatch::default().with_rename("Other")),
        9 => s.with_replacement("Foo", "my::Foo", [TypeSpaceImpl::Display].into_iter()),
        10 => s.with_conversion(
            SchemaObject { instance_type: Some(InstanceType::String.into()), ..Default::default() },
            "my::Text",
            [TypeSpaceImpl::FromStr].into_iter(),
        ),
        11 => s.with_unknown_crates(UnknownPolicy::Deny),
        12 => s.with_crate("a-crate", CrateVers::Any, Some(&"b-crate".to_string())),
        _ => s.with_map_type("my::Map"),
    };
}
/// Whether setting i is in effect.
fn effect(i: u64, out: &str, t: &TypeSpaceSettings) -> bool {
    match i {
        0 => out.contains("pub mod builder") && t.struct_builder,
        1 => out.contains("pub trait"),
        2 => out.contains("inner : my :: Inner"),
        3..=6 => out.contains(&format!("hook_{}", i)),
        7 => t.derives.iter().any(|d| d == "Hash"),
        8 => t.patch.get("Thing").is_some_and(|p| p.rename.as_deref() == Some("Other") && p.derives.is_empty()),
        9 => t.replace.get("Foo").is_some_and(|r| r.0 == "my::Foo" && r.1 == [TypeSpaceImpl::Display]),
        10 => t.convert.len() == 1 && t.convert[0].1 == "my::Text" && t.convert[0].2 == [TypeSpaceImpl::FromStr],
        11 => t.unknown_crates == UnknownPolicy::Deny,
        12 => t.crates.get("a-crate").is_some_and(|c| c.0 == CrateVers::Any && c.1.as_deref() == Some("b-crate")),
        _ => t.map_type.as_deref() == Some("my::Map"),
    }
}
/// The library's settings, one after any other. Arg: the first one.
pub fn settings() {
    let mut on = [false; SETTERS as usize];
    let mut s = GenerationSettings::new();
    let (a, b) = (rt::arg(0), rt::choose(SETTERS as u32) as u64);
    let tag = a == 1 || b == 1;
    let front = rt::choose(2) == 1;
    // separate tags come with builders only
    if tag && front {
        set(&mut s, 0);
    }
    set(&mut s, a);
    if b != a {
        set(&mut s, b);
    }
    if tag && !front {
        set(&mut s, 0);
    }
    on[a as usize] = true;
    on[b as usize] = true;
    on[0] |= tag;
    typify::told();
    let out = doc::code(SMALL, &s);
    let Some(t) = typify::told() else {
        return rt::check(false, "settings: type generation is told");
    };
    rt::reach("settings");
    for i in 0..SETTERS {
        rt::check(effect(i, &out, &t) == on[i as usize], "settings: each takes effect whatever the others are");
    }
}

/// Two options, or all of them: each has its own effect whatever the others.
pub fn pairs() {
    let d = setup();
    const N: usize = 13;
    let texts: [&str; N] = [
        "interface = Builder", "inner_type = my::Inner", "pre_hook = my::h0", "pre_hook_async = my::h1", "post_hook = my::h2",
        "post_hook_async = my::h3", "map_type = my::Map", "derives = [my::Derive]", "unknown_crates = Allow",
        "crates = { \"c-a\" = \"1.2.3\", \"c-b\" = \"their-b@*\" }", "patch = { Thing = { rename = \"Other\" } }",
        "replace = { Thing = my::Thing }", "convert = { { type = \"integer\" } = my::Int }",
    ];
    let i = rt::arg(0) as usize;
    let j = rt::choose(N as u32 + 1) as usize;
    rt::assume(j >= i);
    // j == N: all of them, from i on
    let on: Vec<usize> = if j == N {
        (0..N).map(|k| (i + k) % N).collect()
    } else if rt::choose(2) == 1 {
        rt::assume(j != i);
        vec![j, i]
    } else if j == i {
        vec![i]
    } else {
        vec![i, j]
    };
    let mut a = String::new();
    let at = rt::choose(2) == 1;
    if at {
        a += "spec = \"d.json\"";
    }
    for k in &on {
        if !a.is_empty() {
            a += ", ";
        }
        a += texts[*k];
    }
    if !at {
        a += ", spec = \"d.json\"";
    }
    let Some((out, t)) = run(&a) else {
        return rt::check(false, "pairs: the macro accepts its options");
    };
    rt::reach("pairs");
    let has = |k: usize| on.contains(&k);
    let mut s = GenerationSettings::default();
    if has(0) {
        s.with_interface(InterfaceStyle::Builder);
    }
    if has(1) {
        s.with_inner_type(tokens("my::Inner"));
    }
    if has(2) {
        s.with_pre_hook(tokens("my::h0"));
    }
    if has(3) {
        s.with_pre_hook_async(tokens("my::h1"));
    }
    if has(4) {
        s.with_post_hook(tokens("my::h2"));
    }
    if has(5) {
        s.with_post_hook_async(tokens("my::h3"));
    }
    // these show in the types
    if has(7) {
        s.with_derive("my::Derive");
    }
    if has(10) {
        s.with_patch("Thing", progenitor_impl::TypePatch::default().with_rename("Other"));
    }
    if has(11) {
        s.with_replacement("Thing", "my :: Thing", [TypeSpaceImpl::FromStr, TypeSpaceImpl::Display].into_iter());
    }
    let told = t.struct_builder == has(0)
        && t.map_type.as_deref() == has(6).then_some("my :: Map")
        && t.derives.len() == has(7) as usize
        && t.derives.iter().all(|d| d == "my :: Derive")
        && t.unknown_crates == if has(8) { UnknownPolicy::Allow } else { UnknownPolicy::Generate }
        && t.patch.len() == has(10) as usize
        && t.patch.iter().all(|(k, p)| k == "Thing" && p.rename.as_deref() == Some("Other") && p.derives.is_empty())
        && t.replace.len() == has(11) as usize
        && t.replace.iter().all(|(k, r)| k == "Thing" && r.0 == "my :: Thing")
        && t.convert.len() == has(12) as usize
        && t.convert.iter().all(|c| c.1 == "my :: Int");
    rt::check(told, "pairs: types are made under the options given");
    let crates: Vec<_> = t.crates.iter().map(|(k, (v, r))| (k.as_str(), *v == CrateVers::parse("1.2.3").unwrap(), *v == CrateVers::parse("*").unwrap(), r.as_deref())).collect();
    rt::check(
        crates == if has(9) { vec![("c-a", true, false, None), ("their-b", false, true, Some("c-b"))] } else { vec![] },
        "pairs: every crate is named with its version and local name",
    );
    is_expected(&out, &s, &format!("{}/d.json", d), "pairs: the code is the generator's for these options");
}
