//! Stand-in for serde_yaml (not available offline): block mappings and
//! sequences, plain and quoted scalars, and JSON values on one line.
use serde::de::DeserializeOwned;
use serde_json::{Map, Value};
use std::io::Read;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub fn from_reader<R: Read, T: DeserializeOwned>(mut r: R) -> Result<T> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
    from_str(&s)
}
pub fn from_slice<T: DeserializeOwned>(s: &[u8]) -> Result<T> {
    from_str(std::str::from_utf8(s).map_err(|e| Error(e.to_string()))?)
}
pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T> {
    let lines: Vec<(usize, &str)> = s
        .lines()
        .map(|l| l.trim_end())
        .filter(|l| !l.trim_start().is_empty() && !l.trim_start().starts_with('#') && *l != "---")
        .map(|l| (l.len() - l.trim_start().len(), l.trim_start()))
        .collect();
    let mut at = 0;
    let v = if lines.is_empty() { Value::Null } else { block(&lines, &mut at, lines[0].0)? };
    if at != lines.len() && !lines.is_empty() {
        return Err(Error(format!("unexpected line {}", lines[at].1)));
    }
    serde_json::from_value(v).map_err(|e| Error(e.to_string()))
}
fn scalar(s: &str) -> Result<Value> {
    if s.starts_with(['{', '[', '"']) {
        return serde_json::from_str(s).map_err(|e| Error(e.to_string()));
    }
    if let Some(x) = s.strip_prefix('\'').and_then(|x| x.strip_suffix('\'')) {
        return Ok(Value::String(x.replace("''", "'")));
    }
    if matches!(s, "true" | "false") || s.parse::<i64>().is_ok() {
        return serde_json::from_str(s).map_err(|e| Error(e.to_string()));
    }
    Ok(if matches!(s, "~" | "null" | "") { Value::Null } else { Value::String(s.to_string()) })
}
/// The end of a key, if the line is one of a mapping.
fn key(l: &str) -> Option<(String, &str)> {
    let (k, rest) = if l.starts_with('"') || l.starts_with('\'') {
        let q = l.as_bytes()[0] as char;
        let e = l[1..].find(q)? + 1;
        (l[1..e].to_string(), l[e + 1..].strip_prefix(':')?)
    } else {
        if l.starts_with(['{', '[']) {
            return None;
        }
        match l.find(": ") {
            Some(i) => (l[..i].to_string(), &l[i + 1..]),
            None => (l.strip_suffix(':')?.to_string(), ""),
        }
    };
    (rest.is_empty() || rest.starts_with(' ')).then(|| (k, rest.trim()))
}
fn block(lines: &[(usize, &str)], at: &mut usize, ind: usize) -> Result<Value> {
    let (_, first) = lines[*at];
    if first == "-" || first.starts_with("- ") {
        let mut out = vec![];
        while *at < lines.len() && lines[*at].0 == ind && (lines[*at].1 == "-" || lines[*at].1.starts_with("- ")) {
            let rest = lines[*at].1[1..].trim_start();
            if rest.is_empty() {
                *at += 1;
                out.push(if *at < lines.len() && lines[*at].0 > ind { block(lines, at, lines[*at].0)? } else { Value::Null });
            } else if key(rest).is_some() {
                // a mapping that starts on the dash's line
                let inner = ind + lines[*at].1.len() - rest.len();
                let mut sub = vec![(inner, rest)];
                *at += 1;
                while *at < lines.len() && lines[*at].0 >= inner {
                    sub.push(lines[*at]);
                    *at += 1;
                }
                let mut k = 0;
                out.push(block(&sub, &mut k, inner)?);
            } else {
                out.push(scalar(rest)?);
                *at += 1;
            }
        }
        return Ok(Value::Array(out));
    }
    if key(first).is_none() {
        *at += 1;
        return scalar(first);
    }
    let mut out = Map::new();
    while *at < lines.len() && lines[*at].0 == ind {
        let Some((k, v)) = key(lines[*at].1) else {
            return Err(Error(format!("not a mapping: {}", lines[*at].1)));
        };
        *at += 1;
        let v = if v.is_empty() {
            match lines.get(*at) {
                Some((i, _)) if *i > ind => block(lines, at, *i)?,
                Some((i, l)) if *i == ind && l.starts_with("- ") => block(lines, at, *i)?,
                _ => Value::Null,
            }
        } else {
            scalar(v)?
        };
        out.insert(k, v);
    }
    if *at < lines.len() && lines[*at].0 > ind {
        return Err(Error("bad indentation".into()));
    }
    Ok(Value::Object(out))
}
