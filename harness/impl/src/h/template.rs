//! Path templates: what is accepted, what the pieces are, and that the code
//! made from one formats to the template with the values in place.
use crate::sx_rt as rt;
use crate::template::parse;
use std::collections::HashMap;

/// Independent reading of a template: its normal form and names.
fn read(t: &[u8]) -> Option<(Vec<u8>, Vec<Vec<u8>>)> {
    if t.is_empty() || t[0] != b'/' {
        return None;
    }
    let (mut norm, mut names) = (vec![], vec![]);
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if c == b'}' {
            return None;
        }
        if c == b'{' {
            let mut name = vec![];
            i += 1;
            loop {
                if i >= t.len() || t[i] == b'{' || t[i] == b'/' {
                    return None;
                }
                if t[i] == b'}' {
                    break;
                }
                name.push(t[i]);
                i += 1;
            }
            norm.push(b'{');
            norm.extend_from_slice(&name);
            norm.push(b'}');
            names.push(name);
        } else if c != b'/' || i == 0 || t[i - 1] != b'/' {
            norm.push(c);
        }
        i += 1;
    }
    Some((norm, names))
}

/// Args: length, 1 for ASCII only.
pub fn template() {
    let n = rt::arg(0) as usize;
    if rt::arg(1) == 0 {
        return one(&rt::string(n));
    }
    let b = rt::bytes(n);
    for c in &b {
        rt::assume(*c < 128);
    }
    one(&String::from_utf8(b).unwrap_or_default())
}

fn one(s: &str) {
    let want = read(s.as_bytes());
    match (parse(s), want) {
        (Ok(t), Some((norm, names))) => {
            let got = t.to_string();
            rt::out(got.as_bytes());
            rt::check(rt::same(got.as_bytes(), &norm), "template: kept, with adjacent slashes merged");
            let g = t.names();
            let mut ok = g.len() == names.len();
            for (a, b) in g.iter().zip(&names) {
                ok &= rt::same(a.as_bytes(), b);
            }
            rt::check(ok, "template: names its parameters in order");
        }
        (Err(_), None) => {
            rt::out(b"refused");
            rt::reach("template: malformed is refused")
        }
        (Ok(_), None) => rt::check(false, "template: malformed is refused"),
        (Err(_), Some(_)) => rt::check(false, "template: well-formed is accepted"),
    }
}

/// Args: pieces. Slashes, braces, words and one free ASCII byte in any order.
pub fn pieces() {
    let n = rt::arg(0);
    let free = rt::choose(n as u32) as u64;
    let mut t = b"/".to_vec();
    for i in 0..n {
        if i == free {
            let c = rt::u8();
            rt::assume(c < 128);
            t.push(c);
            continue;
        }
        match rt::choose(6) {
            0 => t.push(b'/'),
            1 => t.push(b'{'),
            2 => t.push(b'}'),
            3 => t.extend_from_slice(b"{id}"),
            4 => t.extend_from_slice(b"word"),
            _ => t.extend_from_slice(b"//"),
        }
    }
    one(&String::from_utf8(t).unwrap_or_default())
}

/// Args: segments. A long template of constants and parameters in turn, one of
/// its segments written in any of several ways, with a free ASCII byte.
pub fn many() {
    let n = rt::arg(0) as usize;
    let at = match rt::choose(3) {
        0 => 0,
        1 => n / 2,
        _ => n - 1,
    };
    let mut t = vec![];
    for i in 0..n {
        t.push(b'/');
        if i == at {
            let c = rt::u8();
            rt::assume(c < 128);
            match rt::choose(4) {
                0 => t.push(c),
                1 => t.extend_from_slice(&[b'{', c, b'}']),
                2 => t.extend_from_slice(&[b'a', b'{', b'b', b'}', c, b'{', b'c', b'}']),
                _ => t.extend_from_slice(&[b'{', b'i', b'd', c]),
            }
        } else if i % 2 == 0 {
            t.extend_from_slice(format!("{{p{}}}", i).as_bytes());
        } else {
            t.extend_from_slice(format!("word{}", i).as_bytes());
        }
    }
    one(&String::from_utf8(t).unwrap_or_default())
}

entries! {
    i_template_many => many,
    i_pieces => pieces,
    i_template => template,
}
