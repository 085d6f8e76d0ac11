//! Command lines: which arguments are asked for, where they go, what is told.
use super::common::*;
use crate::gen::{tb, tc};
use crate::net::net;
use crate::rt;
use progenitor_client::{Error, ResponseValue};
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;
use tc::{Cli, CliCommand, CliConfig};

/// What the program was told, in order.
#[derive(Clone, Default)]
struct Told(Rc<RefCell<Vec<String>>>);
impl Told {
    fn put(&self, s: String) {
        self.0.borrow_mut().push(s)
    }
    fn is(&self, want: &[String]) -> bool {
        let g = self.0.borrow();
        let mut ok = g.len() == want.len();
        for (a, b) in g.iter().zip(want) {
            rt::out(a.as_bytes());
            ok &= rt::same(a.as_bytes(), b.as_bytes());
        }
        ok
    }
}
fn text<T: serde::Serialize>(t: &T) -> String {
    serde_json::to_string(t).unwrap_or_default()
}
fn why<T: serde::Serialize>(e: &Error<T>) -> String {
    match e {
        Error::ErrorResponse(v) => format!("documented {} {}", v.status().as_u16(), text::<T>(v)),
        e => format!("{:?}", ekind(e)),
    }
}
impl CliConfig for Told {
    fn success_item<T: schemars::JsonSchema + serde::Serialize + Debug>(&self, v: &ResponseValue<T>) {
        self.put(format!("item {}", text::<T>(v)))
    }
    fn success_no_item(&self, _: &ResponseValue<()>) {
        self.put("done".into())
    }
    fn error<T: schemars::JsonSchema + serde::Serialize + Debug>(&self, e: &Error<T>) {
        self.put(format!("error {}", why(e)))
    }
    fn list_start<T: schemars::JsonSchema + serde::Serialize + Debug>(&self) {
        self.put("start".into())
    }
    fn list_item<T: schemars::JsonSchema + serde::Serialize + Debug>(&self, v: &T) {
        self.put(format!("item {}", text(v)))
    }
    fn list_end_success<T: schemars::JsonSchema + serde::Serialize + Debug>(&self) {
        self.put("end".into())
    }
    fn list_end_error<T: schemars::JsonSchema + serde::Serialize + Debug>(&self, e: &Error<T>) {
        self.put(format!("fail {}", why(e)))
    }
}
fn parse(c: CliCommand, args: Vec<String>) -> Option<clap::ArgMatches> {
    Cli::<Told>::get_command(c).no_binary_name(true).try_get_matches_from(args).ok()
}
fn cli() -> (Cli<Told>, Told) {
    let t = Told::default();
    let c = tb::Client::new_with_client(BASES[0], Client::new());
    (Cli::new(c, t.clone()), t)
}
/// One argument, as one word or two.
fn give(args: &mut Vec<String>, name: &str, v: &str, joined: bool) {
    // a value that starts with a dash has to be joined
    if joined || v.starts_with('-') {
        args.push(format!("--{}={}", name, v));
    } else {
        args.push(format!("--{}", name));
        args.push(v.to_string());
    }
}
const THING: &str = "{\"name\":\"n\",\"size\":7}";

/// Args: 0 the required ones, 1 the others. Any subset of arguments.
pub fn view() {
    let w = rt::word(1, 3);
    let all: [(&str, &str); 8] = [
        ("name", &w), ("ix", "4294967295"), ("kind", "one-x"),
        ("deep", "true"), ("max-size", "-12"), ("type", &w), ("x-trace", &w), ("long-name", &w),
    ];
    let mut has = [rt::arg(0) == 1; 8];
    for i in if rt::arg(0) == 0 { 0..3 } else { 3..8 } {
        has[i] = rt::choose(2) == 1;
    }
    let joined = rt::choose(2) == 1;
    let back = rt::choose(2) == 1;
    let mut args = vec![];
    for i in 0..8 {
        let i = if back { 7 - i } else { i };
        if has[i] {
            give(&mut args, all[i].0, all[i].1, joined);
        }
    }
    let m = parse(CliCommand::View, args);
    let complete = has[0] && has[1] && has[2];
    rt::check(m.is_some() == complete, "command line: exactly the required parameters are asked for");
    let Some(m) = m else { return };
    let (c, told) = cli();
    answer(json(200, THING));
    let ok = run(c.execute(CliCommand::View, &m)).is_ok();
    rt::check(ok, "command line: a success is a success");
    rt::check(told.is(&[format!("item {}", THING)]), "command line: the outcome is told once");
    sent(&all, &has);
}
fn sent(all: &[(&str, &str); 8], has: &[bool; 8]) {
    let ok = match only() {
        Some(s) => {
            let mut q: Vec<(&str, &[u8])> = vec![("kind", all[2].1.as_bytes())];
            let api = ["", "", "", "deep", "max-size", "type", "", "longName"];
            for i in [3, 4, 5, 7] {
                if has[i] {
                    q.push((api[i], all[i].1.as_bytes()));
                }
            }
            let x = s.headers.get("x-trace").map(|v| v.as_bytes().to_vec());
            let want = has[6].then(|| all[6].1.as_bytes().to_vec());
            let hd = match (&x, &want) {
                (Some(a), Some(b)) => rt::same(a, b),
                (a, b) => a.is_none() && b.is_none(),
            };
            s.method == "GET" && hd
                && segs_eq(&segments(&s.url, BASES[0]), &[b"v".to_vec(), all[0].1.as_bytes().to_vec(), all[1].1.as_bytes().to_vec()])
                && query_is(&s.url, &q)
        }
        None => false,
    };
    rt::check(ok, "command line: each argument reaches its own place");
}

/// Args: which parameter, bytes. Every text, good or not.
pub fn values() {
    let n = rt::arg(1) as usize;
    let mut all: [(&str, &str); 8] = [
        ("name", "n"), ("ix", "5"), ("kind", "Two"),
        ("deep", "false"), ("max-size", "3"), ("type", "t"), ("x-trace", "h"), ("long-name", "l"),
    ];
    let k = rt::arg(0) as usize;
    let b = rt::bytes(n);
    for c in &b {
        rt::assume(*c < 128);
    }
    let v: &'static str = rt::leak(String::from_utf8(b).unwrap_or_default());
    all[k].1 = v;
    let good = match k {
        // also "-0"
        1 => v.parse::<i64>().is_ok_and(|x| (0..=u32::MAX as i64).contains(&x)),
        2 => v == "one-x" || v == "Two",
        3 => v == "true" || v == "false",
        4 => v.parse::<i32>().is_ok(),
        _ => true,
    };
    let mut args = vec![];
    for (a, v) in &all {
        give(&mut args, a, v, true);
    }
    let m = parse(CliCommand::View, args);
    rt::check(m.is_some() == good, "command line: exactly the values of the documented type are accepted");
    let Some(m) = m else { return };
    if k == 0 {
        not_dot(v.as_bytes());
    }
    let sendable = k != 6 || header_text(v.as_bytes());
    let (c, told) = cli();
    answer(json(200, THING));
    let ok = run(c.execute(CliCommand::View, &m)).is_ok();
    rt::check(ok == sendable, "command line: a success is a success");
    if !sendable {
        rt::check(net().sent.is_empty(), "command line: nothing is sent for an invalid value");
        return;
    }
    // numbers are sent as numbers
    let (t1, t4);
    if k == 1 {
        t1 = v.parse::<i64>().map(|x| x.to_string()).unwrap_or_default();
        all[1].1 = &t1;
        sent(&all, &[true; 8]);
    } else if k == 4 {
        t4 = v.parse::<i32>().map(|x| x.to_string()).unwrap_or_default();
        all[4].1 = &t4;
        sent(&all, &[true; 8]);
    } else {
        sent(&all, &[true; 8]);
    }
}

/// Bodies from arguments, or asked for as a file where that cannot be.
pub fn body() {
    let op = rt::choose(3);
    let file = rt::choose(2) == 1;
    let (w, v) = (rt::word(1, 3), rt::word(2, 3));
    let mut args = vec![];
    let a = rt::choose(2) == 1;
    let b = rt::choose(2) == 1;
    let id = rt::choose(2) == 1;
    if id {
        give(&mut args, if op == 2 { "name" } else { "id" }, &w, rt::choose(2) == 1);
    }
    match op {
        0 => {
            if a {
                give(&mut args, "name", &v, true);
            }
            if b {
                give(&mut args, "size", "-3", true);
            }
        }
        1 => {
            if a {
                give(&mut args, "label", &v, true);
            }
        }
        _ => {
            if b {
                give(&mut args, "size", "-3", true);
            }
        }
    }
    if file {
        give(&mut args, "json-body", "f.json", true);
    }
    let cmd = [CliCommand::Store, CliCommand::Nest, CliCommand::SameName][op as usize];
    let m = parse(cmd, args);
    let want = id && (file || (op == 0 && a));
    rt::check(m.is_some() == want, "command line: a body is asked for, by its fields or as a file");
    let Some(m) = m else { return };
    rt::reach("command line: body accepted");
    if file {
        return;
    }
    let (c, told) = cli();
    no_content();
    let ok = run(c.execute(cmd, &m)).is_ok();
    rt::check(ok && told.is(&["done".to_string()]), "command line: the outcome is told once");
    let ok = match only() {
        Some(s) => {
            let mut want = format!("{{\"name\":\"{}\"", v);
            if b {
                want.push_str(",\"size\":-3");
            }
            want.push('}');
            s.method == "POST"
                && segs_eq(&segments(&s.url, BASES[0]), &[b"s".to_vec(), w.as_bytes().to_vec()])
                && s.body.as_ref().and_then(|b| b.as_ref()).is_some_and(|x| {
                    rt::out(x);
                    rt::same(x, want.as_bytes())
                })
        }
        None => false,
    };
    rt::check(ok, "command line: the body is assembled from the arguments");
}

/// Args: operation, bytes of a word. The body is read from a file.
pub fn body_file() {
    let op = rt::arg(0) as usize;
    let w = rt::word(1, 3);
    let v = rt::word(rt::arg(1) as usize, 3);
    let d = rt::scratch();
    let f = if rt::choose(2) == 1 { "b.json".to_string() } else { format!("{}/b.json", d) };
    // as JSON may be written, and as it is sent
    let (ws, size) = (["", " ", "\n\t"][rt::choose(3) as usize], rt::choose(2) == 1);
    let sized = |t: String| if size { format!("{},{ws}\"size\"{ws}:-3{ws}", t) } else { t };
    let thing = sized(format!("{ws}\"name\":{ws}\"{}\"", v));
    let sent = format!("{{\"name\":\"{}\"{}}}", v, if size { ",\"size\":-3" } else { "" });
    let (text, want) = match op {
        1 => (format!("{ws}{{\"label\":\"{}\",{ws}\"inner\":{{{}}}}}{ws}", v, thing), vec![format!("{{\"inner\":{},\"label\":\"{}\"}}", sent, v), format!("{{\"label\":\"{}\",\"inner\":{}}}", v, sent)]),
        _ => (format!("{ws}{{{}}}{ws}", thing), vec![sent]),
    };
    if std::fs::write(&f, text.as_bytes()).is_err() {
        return rt::check(false, "scratch file");
    }
    let mut args = vec![];
    give(&mut args, if op == 2 { "name" } else { "id" }, &w, true);
    give(&mut args, "json-body", &f, rt::choose(2) == 1);
    let cmd = [CliCommand::Store, CliCommand::Nest, CliCommand::SameName][op];
    let Some(m) = parse(cmd, args) else {
        return rt::check(false, "command line: a body is asked for, by its fields or as a file");
    };
    rt::reach("command line: body from a file");
    let (c, told) = cli();
    no_content();
    let ok = run(c.execute(cmd, &m)).is_ok();
    rt::check(ok && told.is(&["done".to_string()]), "command line: the outcome is told once");
    let ok = match only() {
        Some(s) => {
            s.method == if op == 0 { "POST" } else { "PUT" }
                && segs_eq(&segments(&s.url, BASES[0]), &[[&b"s"[..], b"s", b"same"][op].to_vec(), w.as_bytes().to_vec()])
                && s.body.as_ref().and_then(|b| b.as_ref()).is_some_and(|x| {
                    rt::out(x);
                    want.iter().any(|w| rt::same(x, w.as_bytes()))
                })
        }
        None => false,
    };
    rt::check(ok, "command line: a body file is sent as its value");
}

/// Args: operation. Every status, and a failing transport.
pub fn results() {
    let op = rt::arg(0);
    let st = rt::u16();
    rt::assume((st >= 200) & (st <= 599));
    let body = match rt::choose(4) {
        0 => THING,
        1 => "{\"code\":\"c\"}",
        2 => "",
        _ => "?",
    };
    let fail = rt::choose(2) == 1;
    if fail {
        net().answers.push_back(Answer::Fail);
    } else {
        answer(json(st, body));
    }
    let (cmd, args) = match op {
        0 => (CliCommand::View, vec!["--name=n", "--ix=1", "--kind=Two"]),
        1 => (CliCommand::DropIt, vec!["--id=n"]),
        _ => (CliCommand::Store, vec!["--id=n", "--name=m"]),
    };
    let Some(m) = parse(cmd, args.iter().map(|s| s.to_string()).collect()) else {
        rt::check(false, "command line: exactly the required parameters are asked for");
        return;
    };
    let (c, told) = cli();
    let ok = run(c.execute(cmd, &m)).is_ok();
    let two = st / 100 == 2;
    let four = st / 100 == 4;
    let want = if fail {
        "error Comm".to_string()
    } else {
        match op {
            0 if st == 200 && body == THING => format!("item {}", THING),
            0 if st == 200 => "error Payload".into(),
            1 if two => "done".into(),
            1 => format!("error documented {} null", st),
            2 if st == 204 => "done".into(),
            0 | 2 if four && body == "{\"code\":\"c\"}" => format!("error documented {} {}", st, body),
            0 | 2 if four => "error Payload".into(),
            _ => "error Unexpected".into(),
        }
    };
    rt::check(told.is(&[want.clone()]), "command line: the outcome is told once");
    rt::check(ok == !want.starts_with("error"), "command line: exactly a success is a success");
    rt::check(only().is_some(), "command line: one command sends one request");
}

/// Args: pages, items per page. Lists, up to the limit.
pub fn pages() {
    let (np, ni) = (rt::arg(0), rt::arg(1));
    let limit = rt::choose(6) as usize;
    let mut items = vec![];
    let mut fail = false;
    for p in 0..np {
        if rt::choose(2) == 1 {
            fail = true;
            net().answers.push_back(Answer::Fail);
            break;
        }
        let n = rt::choose(ni as u32 + 1);
        let mut b = "{\"items\":[".to_string();
        for i in 0..n {
            let w = rt::word(1, 3);
            if i > 0 {
                b.push(',');
            }
            b.push_str(&format!("\"{}\"", w));
            items.push(w);
        }
        let last = p + 1 == np || rt::choose(2) == 1;
        b.push_str(if last { "]}" } else { "],\"next_page\":\"t\"}" });
        answer(json(200, &b));
        if last {
            break;
        }
    }
    let mut args = vec!["--filter=f".to_string()];
    if limit > 0 {
        give(&mut args, "limit", &limit.to_string(), true);
    }
    let extra = rt::choose(3);
    match extra {
        1 => args.push("--page-token=x".into()),
        2 => {
            args.remove(0);
        }
        _ => {}
    }
    let m = parse(CliCommand::Walk, args);
    rt::check(m.is_some() == (extra == 0), "command line: a list asks for what its first page needs, not for a page");
    let Some(m) = m else { return };
    let (c, told) = cli();
    let ok = run(c.execute(CliCommand::Walk, &m)).is_ok();
    let full = limit == 0 || items.len() < limit;
    let mut want = vec!["start".to_string()];
    for (i, w) in items.iter().enumerate() {
        if limit == 0 || i < limit {
            want.push(format!("item \"{}\"", w));
        }
    }
    let failed = fail && full;
    want.push(if failed { "fail Comm".into() } else { "end".into() });
    rt::check(told.is(&want), "command line: a list tells its items in order, up to the limit, and its end");
    rt::check(ok != failed, "command line: exactly a success is a success");
}

/// Every operation has its own command.
pub fn commands() {
    let all: Vec<String> = CliCommand::iter().map(|c| format!("{:?}", c)).collect();
    for n in ["View", "Store", "Nest", "DropIt", "SameName", "Walk"] {
        rt::check(all.iter().filter(|x| *x == n).count() == 1, "command line: every operation has its own command");
    }
    rt::check(all.len() == 6, "command line: every operation has its own command");
    let k = rt::choose(6) as usize;
    let c = CliCommand::iter().nth(k).unwrap();
    let names: Vec<String> = Cli::<Told>::get_command(c).get_arguments().map(|a| a.get_id().as_str().to_string()).collect();
    let want: &[&str] = match all[k].as_str() {
        "View" => &["deep", "ix", "kind", "long-name", "max-size", "name", "type", "x-trace"],
        "Store" => &["id", "name", "size", "json-body", "json-body-template"],
        "Nest" => &["id", "label", "json-body", "json-body-template"],
        "DropIt" => &["id"],
        "SameName" => &["name", "size", "json-body", "json-body-template"],
        _ => &["filter", "limit"],
    };
    let mut ok = names.len() == want.len();
    for w in want {
        ok &= names.iter().any(|n| n == w);
    }
    rt::check(ok, "command line: a command has an argument for every parameter");
}
