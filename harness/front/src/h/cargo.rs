//! C42: the crate that `cargo progenitor` writes.
use super::doc::{self, SMALL};
use crate::rt;
use progenitor_impl::{GenerationSettings, InterfaceStyle, TagStyle};

fn run(args: &[(&str, &str)]) -> bool {
    let mut v = vec!["cargo".to_string(), "progenitor".to_string()];
    for (k, x) in args {
        v.push(k.to_string());
        v.push(x.to_string());
    }
    clap::set_argv(v);
    cargo_progenitor::sx_main()
}
/// `key = value` lines of a section.
fn toml(t: &str) -> Vec<(String, String, String)> {
    let mut sec = String::new();
    let mut out = vec![];
    for l in t.lines() {
        if let Some(s) = l.strip_prefix('[').and_then(|l| l.strip_suffix(']')) {
            sec = s.to_string();
        } else if let Some(i) = l.find(" = ") {
            out.push((sec.clone(), l[..i].to_string(), l[i + 3..].to_string()));
        } else {
            rt::check(l.is_empty(), "manifest: only sections and keys");
        }
    }
    out
}
fn text(p: &str) -> String {
    match doc::read(p).map(String::from_utf8) {
        Some(Ok(s)) => s,
        _ => {
            rt::check(false, "files: the file is written");
            String::new()
        }
    }
}
fn is_code(lib: &str, want: &str, id: &str) {
    // spacing is the formatter's business
    let a = lib.parse::<proc_macro2::TokenStream>().map(|t| t.to_string()).unwrap_or_default();
    let b = want.parse::<proc_macro2::TokenStream>().map(|t| t.to_string()).unwrap_or_default();
    rt::check(!b.is_empty() && rt::same(a.as_bytes(), b.as_bytes()), id);
}
fn uses(code: &str, krate: &str) -> bool {
    code.contains(&format!("{} ::", krate)) || code.contains(&format!("{}::", krate))
}
fn deps(m: &[(String, String, String)]) -> Vec<&str> {
    m.iter().filter(|(s, ..)| s == "dependencies").map(|(_, k, _)| k.as_str()).collect()
}
const CRATES: [(&str, &str); 13] = [
    ("bytes", "bytes"), ("futures_core", "futures-core"), ("reqwest", "reqwest"), ("serde", "serde"),
    ("serde_urlencoded", "serde_urlencoded"), ("percent_encoding", "percent-encoding"), ("serde_json", "serde_json"),
    ("uuid", "uuid"), ("chrono", "chrono"), ("regress", "regress"), ("futures", "futures"), ("base64", "base64"),
    ("rand", "rand"),
];
/// Every crate that the written code names is a dependency, once.
fn complete(m: &[(String, String, String)], code: &[&str]) {
    let d = deps(m);
    for (path, krate) in CRATES {
        let needed = code.iter().any(|c| uses(c, &format!(" {}", path)) || uses(c, &format!("::{}", path)) || uses(c, &format!(":: {}", path)));
        rt::check(!needed || d.contains(&krate), "dependencies: every crate that the code uses is listed");
    }
    let mut s = d.clone();
    s.sort();
    s.dedup();
    rt::check(s.len() == d.len(), "dependencies: each is listed once");
    for (sec, k, v) in m {
        if sec == "dependencies" {
            rt::check(v.contains('"'), "dependencies: each has a version");
        }
    }
}

/// Interface, tags, client included or not, older files in place.
pub fn options() {
    let d = rt::scratch();
    doc::write(&format!("{}/d.json", d), SMALL.as_bytes());
    let (i, t, c, old) = (rt::choose(3), rt::choose(3), rt::choose(3), rt::choose(2) == 1);
    // the generator does not support separate tags without builders
    rt::assume(i == 2 || t != 2);
    let out = format!("{}/new/out", d);
    if old {
        std::fs::create_dir_all(format!("{}/src", out)).expect("scratch directory");
        let long = "x".repeat(60_000);
        for f in ["Cargo.toml", "src/lib.rs", "src/progenitor_client.rs"] {
            doc::write(&format!("{}/{}", out, f), long.as_bytes());
        }
    }
    let input = format!("{}/d.json", d);
    let mut a = vec![("-i", input.as_str()), ("-o", &out), ("-n", "nm"), ("-v", "1.2.3")];
    let mut s = GenerationSettings::default();
    match i {
        1 => a.push(("--interface", "positional")),
        2 => {
            a.push(("--interface", "builder"));
            s.with_interface(InterfaceStyle::Builder);
        }
        _ => {}
    }
    match t {
        1 => a.push(("--tags", "merged")),
        2 => {
            a.push(("--tags", "separate"));
            s.with_tag(TagStyle::Separate);
        }
        _ => {}
    }
    match c {
        1 => a.push(("--include-client", "true")),
        2 => a.push(("--include-client", "false")),
        _ => {}
    }
    // a release build depends on the published client unless told otherwise
    let included = c == 1;
    let r = run(&a);
    rt::check(r, "options: the command succeeds");
    if !r {
        return;
    }
    rt::reach("options");
    let code = doc::code(SMALL, &s);
    let lib = text(&format!("{}/src/lib.rs", out));
    if included {
        is_code(&lib, &format!("mod progenitor_client; {}", code), "options: lib.rs is the client for these options, with its support code");
        let sup = text(&format!("{}/src/progenitor_client.rs", out));
        rt::check(rt::same(sup.as_bytes(), progenitor_client::code().as_bytes()), "options: the support code is the client library's");
    } else {
        is_code(&lib, &code, "options: lib.rs is the client for these options");
        if !old {
            rt::check(doc::read(&format!("{}/src/progenitor_client.rs", out)).is_none(), "options: no support code unless asked for");
        }
    }
    let m = toml(&text(&format!("{}/Cargo.toml", out)));
    let get = |k: &str| m.iter().filter(|(s, n, _)| s == "package" && n == k).map(|x| x.2.as_str()).collect::<Vec<_>>();
    rt::check(get("name") == ["\"nm\""] && get("version") == ["\"1.2.3\""], "options: the manifest has the given name and version");
    rt::check(get("license") == ["\"SPECIFY A LICENSE BEFORE PUBLISHING\""], "options: the license is the placeholder unless given");
    rt::check(get("publish").is_empty(), "options: no registry unless given");
    rt::check(get("edition").len() == 1, "options: the manifest has an edition");
    rt::check(deps(&m).contains(&"progenitor-client") != included, "options: the client library is a dependency unless included");
    for (_, k, v) in &m {
        if k == "progenitor-client" {
            rt::check(*v == format!("\"{}\"", cargo_progenitor::SX_VERSION), "options: the client library is of the command's version");
        }
    }
    complete(&m, &[lib.as_str(), if included { progenitor_client::code() } else { "" }]);
}

/// Args: 0 the name, 1 the version, 2 the license, 3 the registry is free;
/// its length.
pub fn names() {
    let d = rt::scratch();
    doc::write(&format!("{}/d.json", d), SMALL.as_bytes());
    let (k, n) = (rt::arg(0) as usize, rt::arg(1) as usize);
    let mut v = ["nm", "1.2.3", "MIT", "reg"].map(|s| s.to_string());
    let mut w = vec![];
    for i in 0..n {
        let b = doc::plain();
        // an argument that starts with a dash is another option
        rt::assume(i > 0 || b != b'-');
        w.push(b);
    }
    v[k] = String::from_utf8(w).unwrap_or_default();
    let (input, out) = (format!("{}/d.json", d), format!("{}/out", d));
    let mut a = vec![("-i", input.as_str()), ("-o", &out), ("-n", &v[0]), ("-v", &v[1])];
    let (lic, reg) = (k == 2 || rt::choose(2) == 1, k == 3 || rt::choose(2) == 1);
    if lic {
        a.push(("--license-name", &v[2]));
    }
    if reg {
        a.push(("--registry-name", &v[3]));
    }
    let r = run(&a);
    rt::check(r, "names: the command succeeds");
    if !r {
        return;
    }
    rt::reach("names");
    let m = toml(&text(&format!("{}/Cargo.toml", out)));
    let one = |key: &str, want: &str, id: &str| {
        let l: Vec<_> = m.iter().filter(|(s, n, _)| s == "package" && n == key).collect();
        rt::check(l.len() == 1 && rt::same(l[0].2.as_bytes(), want.as_bytes()), id);
    };
    one("name", &format!("\"{}\"", v[0]), "names: the manifest's name is the one given");
    one("version", &format!("\"{}\"", v[1]), "names: the manifest's version is the one given");
    if lic {
        one("license", &format!("\"{}\"", v[2]), "names: the manifest's license is the one given");
    }
    if reg {
        one("publish", &format!("[\"{}\"]", v[3]), "names: the manifest's registry is the one given");
    }
}

const FEATURES: [(&str, &str, &str); 6] = [
    ("uuid", r#"{"type":"string","format":"uuid"}"#, ""),
    ("chrono", r#"{"type":"string","format":"date-time"}"#, ""),
    ("regress", r#"{"type":"string","pattern":"^a$"}"#, ""),
    ("serde_json", r#"{}"#, ""),
    ("futures", r#"{"type":"string"}"#, r#","x-dropshot-pagination":{"required":[]}"#),
    ("base64", r#"{"type":"string"}"#, r#","x-dropshot-websocket":{}"#),
];
/// A document that uses two of the features that need a crate.
pub fn deps_doc(on: &[bool; 6]) -> String {
    let mut props = vec![r#""a":{"type":"string"}"#.to_string()];
    for (i, f) in FEATURES.iter().enumerate().take(4) {
        if on[i] {
            props.push(format!("\"f{}\":{}", i, f.1));
        }
    }
    let mut paths = vec![r##""/a":{"get":{"operationId":"geta","responses":{"200":{"description":"","content":{"application/json":{"schema":{"$ref":"#/components/schemas/Thing"}}}}}}}"##.to_string()];
    if on[4] {
        paths.push(r##""/p":{"get":{"operationId":"listp","x-dropshot-pagination":{"required":[]},"parameters":[{"name":"limit","in":"query","schema":{"type":"integer","nullable":true,"format":"uint32","minimum":1}},{"name":"page_token","in":"query","schema":{"type":"string","nullable":true}}],"responses":{"200":{"description":"","content":{"application/json":{"schema":{"$ref":"#/components/schemas/Page"}}}}}}}"##.to_string());
    }
    if on[5] {
        paths.push(r#""/w":{"get":{"operationId":"ws","x-dropshot-websocket":{},"responses":{"default":{"description":""}}}}"#.to_string());
    }
    format!(
        r##"{{"openapi":"3.0.0","info":{{"title":"t","version":"1"}},"paths":{{{}}},"components":{{"schemas":{{"Thing":{{"type":"object","required":["a"],"properties":{{{}}}}},"Page":{{"type":"object","required":["items"],"properties":{{"items":{{"type":"array","items":{{"type":"string"}}}},"next_page":{{"type":"string","nullable":true}}}}}}}}}}}}"##,
        paths.join(","),
        props.join(",")
    )
}
/// Args: the first feature; with or without every single other one.
pub fn needs() {
    let d = rt::scratch();
    let first = rt::arg(0) as usize;
    let mut on = [false; 6];
    on[first] = true;
    let second = rt::choose(6) as usize;
    on[second] = true;
    let t = deps_doc(&on);
    doc::write(&format!("{}/d.json", d), t.as_bytes());
    let (input, out) = (format!("{}/d.json", d), format!("{}/out", d));
    let inc = rt::choose(2) == 1;
    let builder = rt::choose(2) == 1;
    let r = run(&[("-i", &input), ("-o", &out), ("-n", "nm"), ("-v", "1"), ("--include-client", if inc { "true" } else { "false" }),
        ("--interface", if builder { "builder" } else { "positional" })]);
    rt::check(r, "needs: the command succeeds");
    if !r {
        return;
    }
    rt::reach("needs");
    let m = toml(&text(&format!("{}/Cargo.toml", out)));
    let dl = deps(&m);
    for (i, f) in FEATURES.iter().enumerate() {
        if on[i] {
            rt::check(dl.contains(&f.0), "needs: the crate behind a type or operation is listed");
        }
    }
    if on[5] {
        rt::check(dl.contains(&"rand"), "needs: the crate behind a type or operation is listed");
    }
    let lib = text(&format!("{}/src/lib.rs", out));
    complete(&m, &[lib.as_str(), if inc { progenitor_client::code() } else { "" }]);
}

/// Args: 0 good documents, 1 bad ones; free bytes in the title.
pub fn document() {
    let d = rt::scratch();
    let yaml = rt::choose(2) == 1;
    let mut title: Vec<u8> = b"t".to_vec();
    for _ in 0..rt::arg(1) {
        let b = doc::plain();
        rt::assume(b != b' ' && b != b':' && b != b'#');
        title.push(b);
    }
    let title = String::from_utf8(title).unwrap_or_default();
    let json = SMALL.replacen("\"title\":\"t\"", &format!("\"title\":\"{}\"", title), 1);
    let t = if yaml { doc::SMALL_YAML.replacen("title: t", &format!("title: {}", title), 1) } else { json.clone() };
    let path = format!("{}/api.x", d);
    let bad = if rt::arg(0) == 1 { rt::choose(4) } else { 9 };
    match bad {
        0 => {}
        1 => doc::write(&path, &t.as_bytes()[..t.len() / 2]),
        2 => doc::write(&path, b""),
        3 => doc::write(&path, json.replacen("3.0.0", "4.0.0", 1).as_bytes()),
        _ => doc::write(&path, t.as_bytes()),
    }
    let out = format!("{}/out", d);
    let r = run(&[("-i", &path), ("-o", &out), ("-n", "nm"), ("-v", "1")]);
    if bad != 9 {
        rt::reach("bad");
        rt::check(!r, "document: one that cannot be read or is not supported is an error");
        return rt::check(doc::read(&format!("{}/src/lib.rs", out)).is_none(), "document: nothing is written for a bad one");
    }
    rt::check(r, "document: JSON or YAML is read");
    if r {
        rt::reach("document");
        is_code(&text(&format!("{}/src/lib.rs", out)), &doc::code(&json, &GenerationSettings::default()),
            "document: the client is that of the given document");
    }
}

const LINES: [&str; 7] = ["}", "    }", "x", "        y;", "         z", "", "  }, a"];
/// Spacing items out adds empty lines and nothing else. Args: the first line,
/// how many more.
pub fn space() {
    let mut text = String::from(LINES[rt::arg(0) as usize]);
    text.insert(0, '\n');
    let b = rt::u8();
    rt::assume(b > 0x20 && b < 0x7f);
    let n = rt::arg(1);
    for i in 0..n {
        text.push('\n');
        if i + 1 == n && rt::choose(2) == 1 {
            for _ in 0..rt::choose(3) {
                text.push_str("    ");
            }
            text.push(b as char);
        } else {
            text.push_str(LINES[rt::choose(7) as usize]);
        }
    }
    if rt::choose(2) == 1 {
        text.push('\n');
    }
    let out = progenitor_impl::space_out_items(text.clone()).unwrap_or_default();
    let lines = |s: &str| s.split('\n').filter(|l| !l.trim_matches(' ').is_empty()).map(|l| l.as_bytes().to_vec()).collect::<Vec<_>>();
    let (a, c) = (lines(&text), lines(&out));
    rt::reach("space");
    rt::check(a.len() == c.len() && a.iter().zip(&c).all(|(x, y)| rt::same(x, y)), "format: spacing items out adds empty lines only");
}
