//! Names in documents become Rust identifiers.
use crate::sx_rt as rt;
use crate::util::{sanitize, unique_ident_from, Case};

/// Reserved words of every edition; they cannot name an argument.
const KEYWORDS: &[&str] = &[
    "_", "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if",
    "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static",
    "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "abstract", "become", "box", "do",
    "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try",
];
fn keyword(s: &[u8]) -> bool {
    let mut k = false;
    for w in KEYWORDS {
        k |= rt::same(s, w.as_bytes());
    }
    k
}
fn legal(s: &[u8]) -> bool {
    let mut ok = !s.is_empty();
    for (i, c) in s.iter().enumerate() {
        let a = c.is_ascii_alphabetic() | (*c == b'_');
        ok &= a | ((i > 0) & c.is_ascii_digit());
    }
    ok & !keyword(s)
}
/// Letters and digits, in lower case.
fn core(s: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for c in s {
        if c.is_ascii_alphanumeric() {
            v.push(c.to_ascii_lowercase());
        }
    }
    v
}
/// Letters and digits, each with whether other characters than apostrophes
/// separate it from the one before.
fn parted(s: &[u8]) -> Vec<(u8, bool)> {
    let mut v: Vec<(u8, bool)> = vec![];
    let mut gap = false;
    for c in s {
        if c.is_ascii_alphanumeric() {
            v.push((*c, gap && !v.is_empty()));
            gap = false;
        } else if *c != b'\'' {
            gap = true;
        }
    }
    v
}
/// Lower-case words joined by single underscores, starting with a letter.
fn snake(s: &[u8]) -> bool {
    let mut ok = !s.is_empty() && s[0].is_ascii_lowercase() && s[s.len() - 1] != b'_';
    for (i, c) in s.iter().enumerate() {
        ok &= c.is_ascii_lowercase() | c.is_ascii_digit() | ((*c == b'_') & (i > 0 && s[i - 1] != b'_'));
    }
    ok
}

fn one(s: &str, case: u64) {
    let out = sanitize(s, if case == 0 { Case::Snake } else { Case::Pascal });
    rt::out(out.as_bytes());
    rt::check(legal(out.as_bytes()), "names: every name becomes a Rust identifier");
    if s == "+1" || s == "-1" {
        return;
    }
    let (a, b) = (core(s.as_bytes()), core(out.as_bytes()));
    if a.is_empty() {
        rt::check(rt::same(&b, b"x"), "names: nothing but punctuation becomes x");
    } else {
        rt::check(rt::same(&a, &b), "names: letters and digits are kept in order");
        if a.len() == b.len() {
            let mut ok = true;
            for (f, t) in parted(s.as_bytes()).iter().zip(parted(out.as_bytes())) {
                let apart = if case == 0 { t.1 } else { !t.0.is_ascii_lowercase() };
                ok &= !f.1 | apart;
            }
            rt::check(ok, "names: words stay apart");
        }
    }
    if case == 0 && snake(s.as_bytes()) {
        let want = if keyword(s.as_bytes()) { format!("{}_", s) } else { s.to_string() };
        rt::check(rt::same(out.as_bytes(), want.as_bytes()), "names: a legal name is kept, a reserved word gets an underscore");
    }
}

/// Args: length, case. Every ASCII string.
pub fn ident() {
    let b = rt::bytes(rt::arg(0) as usize);
    for c in &b {
        rt::assume(*c < 128);
    }
    one(&String::from_utf8(b).unwrap_or_default(), rt::arg(1))
}
/// Args: length, case. Every word of lower-case letters.
pub fn word() {
    one(&rt::word(rt::arg(0) as usize, 0), rt::arg(1))
}
/// Args: parts, case. Words, capitals, digits and separators in any order, with
/// one free ASCII byte; and long ones, with a constant part before.
pub fn phrase() {
    let n = rt::arg(0) as usize;
    let free = rt::choose(n as u32) as usize;
    let mut s = vec![];
    if rt::arg(2) > 0 {
        for i in 0..rt::arg(2) {
            s.extend_from_slice(format!("part{}-", i).as_bytes());
        }
    }
    for i in 0..n {
        if i == free {
            let c = rt::u8();
            rt::assume(c < 128);
            s.push(c);
            continue;
        }
        match rt::choose(6) {
            0 => s.extend_from_slice(b"type"),
            1 => s.extend_from_slice(b"Abc"),
            2 => s.extend_from_slice(b"URL"),
            3 => s.extend_from_slice(b"42"),
            4 => s.push(b'-'),
            _ => s.push(b'_'),
        }
    }
    one(&String::from_utf8(s).unwrap_or_default(), rt::arg(1))
}
/// Args: case. Every reserved word, alone or with one symbolic byte added.
pub fn reserved() {
    let k = KEYWORDS[rt::choose(KEYWORDS.len() as u32) as usize];
    let mut s = k.as_bytes().to_vec();
    match rt::choose(3) {
        0 => {}
        1 => {
            let c = rt::u8();
            rt::assume(c < 128);
            s.push(c);
        }
        _ => {
            let c = rt::u8();
            rt::assume(c < 128);
            s.insert(0, c);
        }
    }
    one(&String::from_utf8(s).unwrap_or_default(), rt::arg(0))
}
/// Args: names present. The generator's own variables avoid every argument.
pub fn unique() {
    let n = rt::arg(0) as usize;
    let base = ["url", "request", "response", "result", "header_map", "client"][rt::choose(6) as usize];
    let mut have = vec![];
    for _ in 0..n {
        let u = rt::choose(n as u32 + 2) as usize;
        let mut s = "_".repeat(u);
        s.push_str(base);
        if rt::choose(3) == 0 {
            s.push('x');
        }
        have.push(quote::format_ident!("{}", s));
    }
    let got = unique_ident_from(base, &have);
    let g = got.to_string();
    rt::out(g.as_bytes());
    let mut clash = false;
    for h in &have {
        clash |= h.to_string() == g;
    }
    rt::check(!clash, "names: the generator's own variables avoid every argument");
    rt::check(legal(g.as_bytes()), "names: the generator's own variables are identifiers");
}

entries! {
    i_phrase => phrase,
    i_ident => ident,
    i_word => word,
    i_reserved => reserved,
    i_unique => unique,
}
