//! A small file system and environment: what std's `fs` and `env` ask of libc
//! on this platform. Paths are concrete; contents may be symbolic. Anything
//! outside the scratch directory does not exist.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum Node {
    Dir,
    File(Rc<Vec<Id>>),
}
#[derive(Clone)]
struct Open {
    path: Vec<u8>,
    pos: usize,
    flags: u64,
}
#[derive(Clone, Default)]
pub struct Fs {
    nodes: BTreeMap<Vec<u8>, Node>,
    open: BTreeMap<u64, Open>,
    env: BTreeMap<Vec<u8>, u64>,
}
/// The scratch directory (also the working directory).
pub const SCRATCH: &[u8] = b"/symx0";
const ENOENT: u128 = 2;
const EBADF: u128 = 9;
const EEXIST: u128 = 17;
const ENOTDIR: u128 = 20;
const EISDIR: u128 = 21;
const EINVAL: u128 = 22;

pub fn new() -> Fs {
    let mut f = Fs::default();
    f.nodes.insert(b"/".to_vec(), Node::Dir);
    f.nodes.insert(SCRATCH.to_vec(), Node::Dir);
    f
}

fn fail(en: &mut Engine, st: &mut State, e: u128) -> R<BRet> {
    let p = st.errno;
    en.store_n(st, p, 4, &Val::C(e))?;
    Ok(BRet::Val(Val::C(u128::from(u64::MAX))))
}
fn ok(k: u128) -> R<BRet> {
    Ok(BRet::Val(Val::C(k)))
}
fn is_null(v: &Val) -> bool {
    matches!(v, Val::C(0))
}
/// The C string at `p`; a symbolic byte is split by value.
fn cstr(en: &mut Engine, st: &mut State, p: &Val) -> R<Vec<u8>> {
    let a = en.addr(st, p, "string address")?;
    let mut out = vec![];
    loop {
        let v = en.load_n(st, a + out.len() as u64, 1)?;
        let b = en.concretize(st, &v, "file or variable name")? as u8;
        if b == 0 {
            return Ok(out);
        }
        out.push(b);
    }
}
/// Absolute, without empty and `.` components, `..` resolved lexically (there
/// are no links).
fn normal(p: &[u8]) -> Vec<u8> {
    let mut full = vec![];
    if !p.starts_with(b"/") {
        full.extend_from_slice(SCRATCH);
        full.push(b'/');
    }
    full.extend_from_slice(p);
    let mut parts: Vec<&[u8]> = vec![];
    for c in full.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    let mut out = vec![];
    for c in parts {
        out.push(b'/');
        out.extend_from_slice(c);
    }
    if out.is_empty() {
        out.push(b'/');
    }
    out
}
fn parent(p: &[u8]) -> Vec<u8> {
    match p.iter().rposition(|b| *b == b'/') {
        Some(0) | None => b"/".to_vec(),
        Some(i) => p[..i].to_vec(),
    }
}
/// What stops the walk to `p`'s directory, if anything.
fn blocked(fs: &Fs, p: &[u8]) -> Option<u128> {
    let mut d = parent(p);
    loop {
        match fs.nodes.get(&d) {
            Some(Node::Dir) => {}
            Some(Node::File(_)) => return Some(ENOTDIR),
            None => {
                // a file further up decides
                let mut u = parent(&d);
                while u != b"/" {
                    if let Some(Node::File(_)) = fs.nodes.get(&u) {
                        return Some(ENOTDIR);
                    }
                    u = parent(&u);
                }
                return Some(ENOENT);
            }
        }
        if d == b"/" {
            return None;
        }
        d = parent(&d);
    }
}
fn read_path(en: &mut Engine, st: &mut State, p: &Val) -> R<Result<Vec<u8>, u128>> {
    let raw = cstr(en, st, p)?;
    if raw.is_empty() {
        return Ok(Err(ENOENT));
    }
    let n = normal(&raw);
    if n != b"/" {
        if let Some(e) = blocked(&st.fs, &n) {
            return Ok(Err(e));
        }
    }
    if raw.ends_with(b"/") && matches!(st.fs.nodes.get(&n), Some(Node::File(_))) {
        return Ok(Err(ENOTDIR));
    }
    Ok(Ok(n))
}
fn arg(v: &Val, what: &str) -> R<u64> {
    match v {
        Val::C(k) => Ok(*k as u64),
        _ => Err(Stop::Error(format!("symbolic argument to {}", what))),
    }
}

/// `None`: not one of the functions modelled here.
pub fn call(en: &mut Engine, st: &mut State, name: &str, a: &[Val]) -> R<Option<BRet>> {
    let r = match name {
        "open" | "open64" => {
            let flags = arg(&a[1], name)?;
            let p = match read_path(en, st, &a[0])? {
                Ok(p) => p,
                Err(e) => return fail(en, st, e).map(Some),
            };
            let writes = flags & 3 != 0;
            match st.fs.nodes.get(&p) {
                None if flags & 0o100 == 0 => return fail(en, st, ENOENT).map(Some),
                Some(_) if flags & 0o300 == 0o300 => return fail(en, st, EEXIST).map(Some),
                Some(Node::Dir) if writes || flags & 0o100 != 0 => return fail(en, st, EISDIR).map(Some),
                Some(Node::File(_)) if flags & 0o200000 != 0 => return fail(en, st, ENOTDIR).map(Some),
                _ => {}
            }
            let fs = Rc::make_mut(&mut st.fs);
            let fresh = !fs.nodes.contains_key(&p);
            if fresh || (flags & 0o1000 != 0 && writes) {
                fs.nodes.insert(p.clone(), Node::File(Rc::new(vec![])));
            }
            let fd = (3..).find(|k| !fs.open.contains_key(k)).unwrap();
            fs.open.insert(fd, Open { path: p, pos: 0, flags });
            ok(fd as u128)
        }
        "read" | "pread64" => {
            let fd = arg(&a[0], name)?;
            let n = arg(&a[2], name)? as usize;
            let Some(o) = st.fs.open.get(&fd).cloned() else {
                return fail(en, st, EBADF).map(Some);
            };
            if o.flags & 3 == 1 {
                return fail(en, st, EBADF).map(Some);
            }
            let data = match st.fs.nodes.get(&o.path) {
                Some(Node::File(d)) => d.clone(),
                _ => return fail(en, st, EISDIR).map(Some),
            };
            let at = if name == "read" { o.pos } else { arg(&a[3], name)? as usize };
            let k = data.len().saturating_sub(at).min(n);
            let d = en.addr(st, &a[1], "read buffer")?;
            for i in 0..k {
                let v = en.val(data[at + i]);
                en.store_n(st, d + i as u64, 1, &v)?;
            }
            if name == "read" {
                Rc::make_mut(&mut st.fs).open.get_mut(&fd).unwrap().pos += k;
            }
            ok(k as u128)
        }
        "write" => {
            let fd = arg(&a[0], name)?;
            if fd == 1 || fd == 2 {
                return Ok(Some(BRet::Val(a[2].clone())));
            }
            let n = arg(&a[2], name)? as usize;
            let Some(o) = st.fs.open.get(&fd).cloned() else {
                return fail(en, st, EBADF).map(Some);
            };
            if o.flags & 3 == 0 {
                return fail(en, st, EBADF).map(Some);
            }
            let s = en.addr(st, &a[1], "write buffer")?;
            let new = en.ids_at(st, s, n)?;
            let zero = en.c.konst(8, 0);
            let fs = Rc::make_mut(&mut st.fs);
            if let Some(Node::File(d)) = fs.nodes.get_mut(&o.path) {
                let d = Rc::make_mut(d);
                let at = if o.flags & 0o2000 != 0 { d.len() } else { o.pos };
                while d.len() < at {
                    d.push(zero);
                }
                for (i, b) in new.into_iter().enumerate() {
                    if at + i < d.len() {
                        d[at + i] = b;
                    } else {
                        d.push(b);
                    }
                }
                fs.open.get_mut(&fd).unwrap().pos = at + n;
            }
            ok(n as u128)
        }
        "close" => {
            let fd = arg(&a[0], name)?;
            Rc::make_mut(&mut st.fs).open.remove(&fd);
            ok(0)
        }
        "fsync" | "fdatasync" => ok(0),
        "lseek" | "lseek64" => {
            let fd = arg(&a[0], name)?;
            let (off, wh) = (arg(&a[1], name)? as i64, arg(&a[2], name)?);
            let Some(o) = st.fs.open.get(&fd).cloned() else {
                return fail(en, st, EBADF).map(Some);
            };
            let len = match st.fs.nodes.get(&o.path) {
                Some(Node::File(d)) => d.len() as i64,
                _ => 0,
            };
            let to = off + [0, o.pos as i64, len][wh.min(2) as usize];
            if to < 0 {
                return fail(en, st, EINVAL).map(Some);
            }
            Rc::make_mut(&mut st.fs).open.get_mut(&fd).unwrap().pos = to as usize;
            ok(to as u128)
        }
        "fstat" | "fstat64" | "stat" | "stat64" | "lstat" | "lstat64" | "statx" => {
            let node = match name {
                "fstat" | "fstat64" => {
                    let fd = arg(&a[0], name)?;
                    match st.fs.open.get(&fd) {
                        Some(o) => st.fs.nodes.get(&o.path).cloned(),
                        None => return fail(en, st, EBADF).map(Some),
                    }
                }
                "statx" if is_null(&a[1]) => return fail(en, st, 14).map(Some),
                "statx" => {
                    let raw = cstr(en, st, &a[1])?;
                    if raw.is_empty() {
                        let fd = arg(&a[0], name)?;
                        match st.fs.open.get(&fd) {
                            Some(o) => st.fs.nodes.get(&o.path).cloned(),
                            None => return fail(en, st, EBADF).map(Some),
                        }
                    } else {
                        match read_path(en, st, &a[1])? {
                            Ok(p) => st.fs.nodes.get(&p).cloned(),
                            Err(e) => return fail(en, st, e).map(Some),
                        }
                    }
                }
                _ => match read_path(en, st, &a[0])? {
                    Ok(p) => st.fs.nodes.get(&p).cloned(),
                    Err(e) => return fail(en, st, e).map(Some),
                },
            };
            let Some(node) = node else {
                return fail(en, st, ENOENT).map(Some);
            };
            let (mode, size) = match &node {
                Node::Dir => (0o040755u128, 4096u128),
                Node::File(d) => (0o100644, d.len() as u128),
            };
            let out = if name == "statx" { &a[4] } else { &a[1] };
            let b = en.addr(st, out, "stat buffer")?;
            let (len, fields): (u64, Vec<(u64, usize, u128)>) = if name == "statx" {
                // stx_mask, blksize, nlink, mode, ino, size
                (256, vec![(0, 4, 0x7ff), (4, 4, 4096), (16, 4, 1), (28, 2, mode), (32, 8, 1), (40, 8, size)])
            } else {
                (144, vec![(8, 8, 1), (16, 8, 1), (24, 4, mode), (48, 8, size), (56, 8, 4096)])
            };
            for i in 0..len {
                en.store_n(st, b + i, 1, &Val::C(0))?;
            }
            for (o, w, v) in fields {
                en.store_n(st, b + o, w, &Val::C(v))?;
            }
            ok(0)
        }
        "__xpg_strerror_r" => {
            // glibc's texts for what this model returns
            let t: &[u8] = match arg(&a[0], name)? {
                2 => b"No such file or directory",
                9 => b"Bad file descriptor",
                13 => b"Permission denied",
                14 => b"Bad address",
                17 => b"File exists",
                20 => b"Not a directory",
                21 => b"Is a directory",
                22 => b"Invalid argument",
                k => return Err(Stop::Error(format!("strerror {}", k))),
            };
            let b = en.addr(st, &a[1], "strerror buffer")?;
            for (i, c) in t.iter().chain([0u8].iter()).enumerate() {
                en.store_n(st, b + i as u64, 1, &Val::C(u128::from(*c)))?;
            }
            ok(0)
        }
        "mkdir" => {
            let p = match read_path(en, st, &a[0])? {
                Ok(p) => p,
                Err(e) => return fail(en, st, e).map(Some),
            };
            if st.fs.nodes.contains_key(&p) {
                return fail(en, st, EEXIST).map(Some);
            }
            Rc::make_mut(&mut st.fs).nodes.insert(p, Node::Dir);
            ok(0)
        }
        "unlink" => {
            let p = match read_path(en, st, &a[0])? {
                Ok(p) => p,
                Err(e) => return fail(en, st, e).map(Some),
            };
            match st.fs.nodes.get(&p) {
                Some(Node::File(_)) => {
                    Rc::make_mut(&mut st.fs).nodes.remove(&p);
                    ok(0)
                }
                Some(Node::Dir) => fail(en, st, EISDIR),
                None => fail(en, st, ENOENT),
            }
        }
        "getcwd" => {
            let b = en.addr(st, &a[0], "getcwd buffer")?;
            for (i, c) in SCRATCH.iter().chain([0u8].iter()).enumerate() {
                en.store_n(st, b + i as u64, 1, &Val::C(u128::from(*c)))?;
            }
            ok(b as u128)
        }
        "getenv" | "secure_getenv" => {
            let n = cstr(en, st, &a[0])?;
            ok(st.fs.env.get(&n).map_or(0, |v| *v as u128))
        }
        "setenv" => {
            let (n, v) = (cstr(en, st, &a[0])?, cstr(en, st, &a[1])?);
            let p = en.alloc(st, v.len() + 1);
            for (i, c) in v.iter().chain([0u8].iter()).enumerate() {
                en.store_n(st, p + i as u64, 1, &Val::C(u128::from(*c)))?;
            }
            Rc::make_mut(&mut st.fs).env.insert(n, p);
            ok(0)
        }
        "unsetenv" => {
            let n = cstr(en, st, &a[0])?;
            Rc::make_mut(&mut st.fs).env.remove(&n);
            ok(0)
        }
        _ => return Ok(None),
    };
    r.map(Some)
}
