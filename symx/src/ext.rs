//! Environment: LLVM intrinsics, libc stubs, harness API and panic interception.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

pub fn known_extern(n: &str) -> bool {
    matches!(n, "getrandom" | "__cxa_thread_atexit_impl")
}

/// Functions with a body that are nevertheless modelled.
pub fn override_defined(n: &str) -> bool {
    matches!(n, "malloc" | "free" | "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen")
        || (n.contains("hashmap_random_keys") && n.starts_with("_R"))
}

pub fn is_panic(pretty: &str, name: &str) -> bool {
    let _ = name;
    let p = pretty;
    (p.starts_with("core::panicking::") && !p.contains("drop"))
        || p.starts_with("std::panicking::begin_panic")
        || p.starts_with("std::panicking::panic_with_hook")
        || p.contains("rust_begin_unwind")
        || p.starts_with("alloc::alloc::handle_alloc_error")
        || p.starts_with("alloc::raw_vec::handle_error")
        || p.starts_with("alloc::raw_vec::capacity_overflow")
        || p.starts_with("core::option::unwrap_failed")
        || p.starts_with("core::option::expect_failed")
        || p.starts_with("core::result::unwrap_failed")
        || p.starts_with("core::slice::index::slice_")
        || p.starts_with("core::str::slice_error_fail")
        || p.starts_with("core::cell::panic_already")
        || p.starts_with("std::process::abort")
        || p.starts_with("std::alloc::rust_oom")
        || p.starts_with("std::alloc::default_alloc_error_hook")
}

pub fn panic_site(tr: &[String]) -> String {
    tr.iter().take(6).cloned().collect::<Vec<_>>().join(" < ")
}

fn int_suffix(n: &str) -> u32 {
    // ...iN
    n.rsplit('.').next().and_then(|x| x.strip_prefix('i')).and_then(|x| x.parse().ok()).unwrap_or(0)
}

impl Engine {
    fn lane_map(&mut self, ty: &Ty, args: &[Val], f: &mut dyn FnMut(&mut Engine, u32, &[Val]) -> R<Val>) -> R<Val> {
        match ty {
            Ty::Vec(n, t) => {
                let mut o = vec![];
                for i in 0..*n as usize {
                    let a: Vec<Val> = args
                        .iter()
                        .map(|v| match v {
                            Val::A(l) => l[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    o.push(f(self, t.bits(), &a)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            t => f(self, t.bits(), args),
        }
    }
    fn ite(&mut self, w: u32, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(1) => a.clone(),
            Val::C(_) => b.clone(),
            Val::S(e) => {
                let (x, y) = (self.expr(a, w), self.expr(b, w));
                let r = self.c.ite(*e, x, y);
                self.val(r)
            }
            _ => panic!(),
        }
    }
    fn ovf(&mut self, op: &str, w: u32, a: &Val, b: &Val) -> R<(Val, Val)> {
        let signed = op.starts_with('s');
        let k = &op[1..];
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x2, y2) = if signed {
                    (sext(*x, w, 128) as i128, sext(*y, w, 128) as i128)
                } else {
                    (*x as i128, *y as i128)
                };
                let r = match k {
                    "add" => x2 + y2,
                    "sub" => x2 - y2,
                    _ => {
                        if signed {
                            x2 * y2
                        } else {
                            (*x * *y) as i128
                        }
                    }
                };
                let rm = r as u128 & mask(w);
                let o = if signed { sext(rm, w, 128) as i128 != r } else { r as u128 != rm };
                return Ok((Val::C(rm), Val::C(o as u128)));
            }
        }
        if w > 64 {
            if let (Val::C(x), Val::C(y), false) = (a, b, signed) {
                let (r, o) = match k {
                    "add" => x.overflowing_add(*y),
                    "sub" => x.overflowing_sub(*y),
                    _ => x.overflowing_mul(*y),
                };
                if w == 128 {
                    return Ok((Val::C(r), Val::C(o as u128)));
                }
            }
        }
        let (x, y) = (self.expr(a, w), self.expr(b, w));
        match (signed, k) {
            (false, "add") => {
                let r = self.c.add(x, y);
                let o = self.c.ult(r, x);
                Ok((self.val(r), self.val(o)))
            }
            (false, "sub") => {
                let r = self.c.sub(x, y);
                let o = self.c.ult(x, y);
                Ok((self.val(r), self.val(o)))
            }
            _ => {
                if w > 64 {
                    return Err(Stop::Error("wide overflow op".into()));
                }
                let (w2, x2, y2) = if signed {
                    (2 * w, self.c.sext(x, 2 * w), self.c.sext(y, 2 * w))
                } else {
                    (2 * w, self.c.zext(x, 2 * w), self.c.zext(y, 2 * w))
                };
                let r2 = match k {
                    "add" => self.c.add(x2, y2),
                    "sub" => self.c.sub(x2, y2),
                    _ => self.c.mul(x2, y2),
                };
                let r = self.c.trunc(r2, w);
                let back = if signed { self.c.sext(r, w2) } else { self.c.zext(r, w2) };
                let e = self.c.eq(r2, back);
                let o = self.c.not(e);
                Ok((self.val(r), self.val(o)))
            }
        }
    }
}

fn conc(v: &Val, what: &str) -> R<u128> {
    match v {
        Val::C(k) => Ok(*k),
        _ => Err(Stop::Error(format!("symbolic argument to {}", what))),
    }
}

pub fn builtin(en: &mut Engine, st: &mut State, name: &str, a: &[Val], tys: &[Ty], ret: &Ty) -> R<BRet> {
    let v0 = |k: u128| -> R<BRet> { Ok(BRet::Val(Val::C(k))) };
    if let Some(n) = name.strip_prefix("llvm.") {
        return intrinsic(en, st, n, a, tys, ret);
    }
    if let Some(n) = name.strip_prefix("symx_") {
        return api(en, st, n, a);
    }
    if name.contains("hashmap_random_keys") {
        return Ok(BRet::Val(Val::A(Rc::new(vec![Val::C(1), Val::C(2)]))));
    }
    if name.contains("rust_no_alloc_shim_is_unstable") {
        return Ok(if *ret == Ty::Void { BRet::Void } else { BRet::Val(Val::C(0)) });
    }
    match name {
        "malloc" | "calloc" | "realloc" | "posix_memalign" | "aligned_alloc" => {}
        _ => {}
    }
    match name {
        "memcpy" | "memmove" => {
            let n = en.concretize(st, &a[2], "memcpy length")? as usize;
            let d = en.addr(st, &a[0], "memcpy dst")?;
            copy_sym(en, st, d, &a[1], n)?;
            Ok(BRet::Val(a[0].clone()))
        }
        "memset" => {
            memset(en, st, &a[0], &a[1], &a[2])?;
            Ok(BRet::Val(a[0].clone()))
        }
        "bcmp" | "memcmp" => {
            let n = en.concretize(st, &a[2], "memcmp length")? as usize;
            if n == 0 {
                return v0(0);
            }
            let x = read_maybe_sym(en, st, &a[0], n)?;
            let y = read_maybe_sym(en, st, &a[1], n)?;
            if name == "bcmp" {
                let mut e = en.c.konst(1, 1);
                for i in 0..n {
                    let q = en.c.eq(x[i], y[i]);
                    e = en.c.and(e, q);
                    if en.c.cv(e) == Some(0) {
                        break;
                    }
                }
                let (z, o) = (en.c.konst(32, 0), en.c.konst(32, 1));
                let r = en.c.ite(e, z, o);
                return Ok(BRet::Val(en.val(r)));
            }
            let mut r = en.c.konst(32, 0);
            // skip the common concrete tail quickly
            let mut end = n;
            for i in 0..n {
                if let (Some(p), Some(q)) = (en.c.cv(x[i]), en.c.cv(y[i])) {
                    if p != q {
                        end = i + 1;
                        break;
                    }
                }
            }
            for i in (0..end).rev() {
                let q = en.c.eq(x[i], y[i]);
                let l = en.c.ult(x[i], y[i]);
                let (m, o) = (en.c.konst(32, 0xffff_ffff), en.c.konst(32, 1));
                let d = en.c.ite(l, m, o);
                r = en.c.ite(q, r, d);
            }
            Ok(BRet::Val(en.val(r)))
        }
        "strlen" => {
            let p = en.addr(st, &a[0], "strlen")?;
            let (o, off) = en.obj(st, p)?;
            let mut i = 0;
            loop {
                if off + i >= o.data.len() {
                    return Err(Stop::Error("strlen out of bounds".into()));
                }
                let (b, s) = Engine::load_byte(&o, off + i);
                if s != 0 {
                    return Err(Stop::Error("symbolic strlen".into()));
                }
                if b == 0 {
                    return v0(i as u128);
                }
                i += 1;
            }
        }
        "malloc" => {
            let n = en.concretize(st, &a[0], "malloc size")? as usize;
            if n > 1 << 30 {
                return Err(Stop::Error("huge allocation".into()));
            }
            let p = en.alloc(st, n);
            v0(p as u128)
        }
        "calloc" => {
            let n = en.concretize(st, &a[0], "calloc size")? as usize;
            let m = en.concretize(st, &a[1], "calloc size")? as usize;
            if n.saturating_mul(m) > 1 << 30 {
                return Err(Stop::Error("huge allocation".into()));
            }
            let p = en.alloc(st, n * m);
            v0(p as u128)
        }
        "posix_memalign" => {
            let n = en.concretize(st, &a[2], "memalign size")? as usize;
            if n > 1 << 30 {
                return Err(Stop::Error("huge allocation".into()));
            }
            let out = en.addr(st, &a[0], "memalign out")?;
            let p = en.alloc(st, n);
            en.store_n(st, out, 8, &Val::C(p as u128))?;
            v0(0)
        }
        "realloc" => {
            let n = en.concretize(st, &a[1], "realloc size")? as usize;
            let old = en.addr(st, &a[0], "realloc ptr")?;
            if n > 1 << 30 {
                return Err(Stop::Error("huge allocation".into()));
            }
            let p = en.alloc(st, n);
            if old != 0 {
                let (o, _) = en.obj(st, old)?;
                let k = o.data.len().min(n);
                en.copy(st, p, old, k)?;
                en.free(st, old)?;
            }
            v0(p as u128)
        }
        "free" => {
            let p = en.addr(st, &a[0], "free")?;
            en.free(st, p)?;
            Ok(BRet::Void)
        }
        "dlsym" => v0(0),
        "__errno_location" => v0(st.errno as u128),
        "getrandom" => {
            let p = en.addr(st, &a[0], "getrandom")?;
            let n = conc(&a[1], name)? as usize;
            for i in 0..n {
                en.store_n(st, p + i as u64, 1, &Val::C(((i * 37 + 11) & 255) as u128))?;
            }
            v0(n as u128)
        }
        "syscall" => {
            let k = conc(&a[0], name)?;
            match k {
                318 => {
                    let p = en.addr(st, &a[1], "getrandom")?;
                    let n = conc(&a[2], name)? as usize;
                    for i in 0..n {
                        en.store_n(st, p + i as u64, 1, &Val::C(((i * 37 + 11) & 255) as u128))?;
                    }
                    v0(n as u128)
                }
                332 => return match crate::fs::call(en, st, "statx", &a[1..])? {
                    Some(r) => Ok(narrow(r, ret)),
                    None => Err(Stop::Error("statx".into())),
                },
                202 => v0(0),
                186 => v0(1),
                _ => Err(Stop::Error(format!("syscall {}", k))),
            }
        }
        "clock_gettime" => {
            let p = en.addr(st, &a[1], "clock")?;
            st.clock += 1;
            let c = st.clock;
            en.store_n(st, p, 8, &Val::C(c as u128))?;
            en.store_n(st, p + 8, 8, &Val::C(0))?;
            v0(0)
        }
        "pthread_self" | "gettid" | "getpid" => v0(1),
        "pthread_key_create" => {
            let p = en.addr(st, &a[0], "key")?;
            en.store_n(st, p, 4, &Val::C(1))?;
            v0(0)
        }
        "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "sched_yield" => v0(0),
        // _SC_NPROCESSORS_ONLN, the page size
        "sysconf" => v0(if conc(&a[0], name)? == 84 { 1 } else { 4096 }),
        "sched_getaffinity" => v0(u128::from(u32::MAX)),
        "abort" => Err(Stop::Panic(format!("abort < {}", panic_site(&en.stack_trace(st))))),
        _ => match crate::fs::call(en, st, name, a)? {
            Some(r) => Ok(narrow(r, ret)),
            None => Err(Stop::Error(format!("external function {}", name))),
        },
    }
}

/// libc's -1 in the width of the function's type.
fn narrow(r: BRet, ty: &Ty) -> BRet {
    match (r, ty) {
        (BRet::Val(Val::C(k)), Ty::Int(w)) => BRet::Val(Val::C(k & mask(*w))),
        (r, _) => r,
    }
}

fn read_maybe_sym(en: &mut Engine, st: &mut State, p: &Val, n: usize) -> R<Vec<Id>> {
    let a = en.addr(st, p, "compare address")?;
    en.ids_at(st, a, n)
}

fn copy_sym(en: &mut Engine, st: &mut State, d: u64, src: &Val, n: usize) -> R<()> {
    if n == 0 {
        return Ok(());
    }
    match src {
        Val::C(s) => en.copy(st, d, *s as u64, n),
        Val::S(e) => {
            let vs = en.c.vars_of(*e);
            let one = vs.count_ones() == 1 && en.c.var_w[vs.trailing_zeros() as usize] == 8;
            if n <= 32 && (one || en.c.pivot(*e).is_some()) {
                // a table lookup driven by one symbolic byte: select per byte
                let mut out = vec![];
                for i in 0..n {
                    let k = en.c.konst(64, i as u128);
                    let ai = en.c.add(*e, k);
                    let v = match en.c.cv(ai) {
                        Some(x) => en.load_n(st, x as u64, 1)?,
                        None => en.load_sym(st, &Ty::Int(8), ai)?,
                    };
                    out.push(v);
                }
                for (i, v) in out.iter().enumerate() {
                    en.store_n(st, d + i as u64, 1, v)?;
                }
                return Ok(());
            }
            let s = en.addr(st, src, "memcpy source")?;
            en.copy(st, d, s, n)
        }
        _ => unreachable!(),
    }
}

fn memset(en: &mut Engine, st: &mut State, p: &Val, v: &Val, n: &Val) -> R<()> {
    let n = en.concretize(st, n, "memset length")? as usize;
    let d = en.addr(st, p, "memset dst")?;
    for i in 0..n {
        let b = match v {
            Val::C(k) => Val::C(k & 255),
            Val::S(e) => {
                let t = en.c.trunc(*e, 8);
                en.val(t)
            }
            _ => unreachable!(),
        };
        en.store_n(st, d + i as u64, 1, &b)?;
    }
    Ok(())
}

fn intrinsic(en: &mut Engine, st: &mut State, n: &str, a: &[Val], tys: &[Ty], ret: &Ty) -> R<BRet> {
    let base = n.split('.').next().unwrap_or("");
    match base {
        "memcpy" | "memmove" => {
            let len = en.concretize(st, &a[2], "memcpy length")? as usize;
            if len == 0 {
                return Ok(BRet::Void);
            }
            let d = en.addr(st, &a[0], "memcpy dst")?;
            copy_sym_checked(en, st, d, &a[1], len)?;
            return Ok(BRet::Void);
        }
        "memset" => {
            memset(en, st, &a[0], &a[1], &a[2])?;
            return Ok(BRet::Void);
        }
        "assume" => {
            return Ok(BRet::Void);
        }
        "expect" => return Ok(BRet::Val(a[0].clone())),
        "trap" | "ubsantrap" => return Err(Stop::Panic(format!("trap < {}", panic_site(&en.stack_trace(st))))),
        "threadlocal" => return Ok(BRet::Val(a[0].clone())),
        "is" if !n.starts_with("is.fpclass") => return Ok(BRet::Val(Val::C(0))),
        "objectsize" => return Ok(BRet::Val(Val::C(mask(ret.bits())))),
        "sideeffect" | "var" | "invariant" | "stackrestore" | "stacksave" | "pseudoprobe" => {
            return Ok(if *ret == Ty::Void { BRet::Void } else { BRet::Val(Val::C(0)) })
        }
        "ptrmask" => {
            let r = en.bin(BinOp::And, 64, &a[0], &a[1])?;
            return Ok(BRet::Val(r));
        }
        "umax" | "umin" | "smax" | "smin" => {
            let p = match base {
                "umax" => Pred::Ugt,
                "umin" => Pred::Ult,
                "smax" => Pred::Sgt,
                _ => Pred::Slt,
            };
            let v = en.lane_map(ret, a, &mut |en, w, x| {
                let c = en.icmp(p, w, &x[0], &x[1]);
                Ok(en.ite(w, &c, &x[0], &x[1]))
            })?;
            return Ok(BRet::Val(v));
        }
        "abs" => {
            let v = en.lane_map(ret, &a[..1], &mut |en, w, x| {
                let c = en.icmp(Pred::Slt, w, &x[0], &Val::C(0));
                let m = en.bin(BinOp::Sub, w, &Val::C(0), &x[0])?;
                Ok(en.ite(w, &c, &m, &x[0]))
            })?;
            return Ok(BRet::Val(v));
        }
        "ucmp" | "scmp" => {
            let w = tys[0].bits();
            let rw = ret.bits();
            let (l, g) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let cl = en.icmp(l, w, &a[0], &a[1]);
            let cg = en.icmp(g, w, &a[0], &a[1]);
            let t = en.ite(rw, &cg, &Val::C(1), &Val::C(0));
            let r = en.ite(rw, &cl, &Val::C(mask(rw)), &t);
            return Ok(BRet::Val(r));
        }
        "bswap" => {
            let v = en.lane_map(ret, a, &mut |en, w, x| {
                Ok(match &x[0] {
                    Val::C(k) => {
                        let mut r = 0u128;
                        for i in 0..w / 8 {
                            r = r << 8 | (k >> (8 * i)) & 255;
                        }
                        Val::C(r)
                    }
                    Val::S(e) => {
                        let mut r = en.c.extract(*e, 7, 0);
                        for i in 1..w / 8 {
                            let b = en.c.extract(*e, i * 8 + 7, i * 8);
                            r = en.c.concat(r, b);
                        }
                        en.val(r)
                    }
                    _ => unreachable!(),
                })
            })?;
            return Ok(BRet::Val(v));
        }
        "bitreverse" => {
            let v = en.lane_map(ret, a, &mut |en, w, x| {
                Ok(match &x[0] {
                    Val::C(k) => {
                        let mut r = 0u128;
                        for i in 0..w {
                            r = r << 1 | (k >> i) & 1;
                        }
                        Val::C(r)
                    }
                    Val::S(e) => {
                        let mut r = en.c.extract(*e, 0, 0);
                        for i in 1..w {
                            let b = en.c.extract(*e, i, i);
                            r = en.c.concat(r, b);
                        }
                        en.val(r)
                    }
                    _ => unreachable!(),
                })
            })?;
            return Ok(BRet::Val(v));
        }
        "ctlz" | "cttz" => {
            let tz = base == "cttz";
            let v = en.lane_map(ret, &a[..1], &mut |en, w, x| {
                Ok(match &x[0] {
                    Val::C(k) => Val::C(if *k == 0 {
                        w as u128
                    } else if tz {
                        k.trailing_zeros() as u128
                    } else {
                        (k.leading_zeros() - (128 - w)) as u128
                    }),
                    Val::S(e) => {
                        let mut r = en.c.konst(w, w as u128);
                        for j in 0..w {
                            // lowest priority first
                            let i = if tz { w - 1 - j } else { j };
                            let b = en.c.extract(*e, i, i);
                            let k = en.c.konst(w, if tz { i } else { w - 1 - i } as u128);
                            r = en.c.ite(b, k, r);
                        }
                        en.val(r)
                    }
                    _ => unreachable!(),
                })
            })?;
            // positions found by bit tricks index memory next: split by value
            if let Val::S(_) = v {
                let k = en.concretize(st, &v, "bit position")?;
                return Ok(BRet::Val(Val::C(k)));
            }
            return Ok(BRet::Val(v));
        }
        "ctpop" => {
            let v = en.lane_map(ret, a, &mut |en, w, x| {
                Ok(match &x[0] {
                    Val::C(k) => Val::C(k.count_ones() as u128),
                    Val::S(e) => {
                        let mut r = en.c.konst(w, 0);
                        for i in 0..w {
                            let b = en.c.extract(*e, i, i);
                            let z = en.c.zext(b, w);
                            r = en.c.add(r, z);
                        }
                        en.val(r)
                    }
                    _ => unreachable!(),
                })
            })?;
            return Ok(BRet::Val(v));
        }
        "fshl" | "fshr" => {
            let left = base == "fshl";
            let v = en.lane_map(ret, a, &mut |en, w, x| {
                let s = match &x[2] {
                    Val::C(k) => (*k % w as u128) as u32,
                    _ => return Err(Stop::Error("symbolic funnel shift".into())),
                };
                // left amount
                if s == 0 {
                    return Ok(if left { x[0].clone() } else { x[1].clone() });
                }
                let l = if left { s } else { w - s };
                let h = en.bin(BinOp::Shl, w, &x[0], &Val::C(l as u128))?;
                let lo = en.bin(BinOp::LShr, w, &x[1], &Val::C((w - l) as u128))?;
                en.bin(BinOp::Or, w, &h, &lo)
            })?;
            return Ok(BRet::Val(v));
        }
        "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
            if n.contains("with.overflow") {
                let w = int_suffix(n);
                if w == 0 {
                    return Err(Stop::Error(format!("intrinsic {}", n)));
                }
                let (r, o) = en.ovf(base, w, &a[0], &a[1])?;
                return Ok(BRet::Val(Val::A(Rc::new(vec![r, o]))));
            }
            if n.contains(".sat") {
                let b = base.to_string();
                let v = en.lane_map(ret, a, &mut |en, w, x| {
                    let (r, o) = en.ovf(&b, w, &x[0], &x[1])?;
                    let lim = match b.as_str() {
                        "uadd" => Val::C(mask(w)),
                        "usub" => Val::C(0),
                        _ => {
                            let neg = en.icmp(Pred::Slt, w, &x[0], &Val::C(0));
                            en.ite(w, &neg, &Val::C(1u128 << (w - 1)), &Val::C(mask(w) >> 1))
                        }
                    };
                    Ok(en.ite(w, &o, &lim, &r))
                })?;
                return Ok(BRet::Val(v));
            }
        }
        "vector" => {
            if n.starts_with("vector.reduce.") {
                let k = n.split('.').nth(2).unwrap_or("");
                let l = match &a[0] {
                    Val::A(l) => l.clone(),
                    _ => return Err(Stop::Error("reduce".into())),
                };
                let w = match &tys[0] {
                    Ty::Vec(_, t) => t.bits(),
                    _ => 0,
                };
                let op = match k {
                    "or" => BinOp::Or,
                    "and" => BinOp::And,
                    "add" => BinOp::Add,
                    "xor" => BinOp::Xor,
                    _ => return Err(Stop::Error(format!("intrinsic {}", n))),
                };
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = en.bin(op, w, &r, x)?;
                }
                return Ok(BRet::Val(r));
            }
        }
        "fabs" | "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" => {
            if let Val::C(k) = &a[0] {
                let r = if *ret == Ty::Float {
                    let f = f32::from_bits(*k as u32);
                    (match base {
                        "fabs" => f.abs(),
                        "floor" => f.floor(),
                        "ceil" => f.ceil(),
                        "trunc" => f.trunc(),
                        "round" => f.round(),
                        _ => f.round_ties_even(),
                    })
                    .to_bits() as u128
                } else {
                    let f = f64::from_bits(*k as u64);
                    (match base {
                        "fabs" => f.abs(),
                        "floor" => f.floor(),
                        "ceil" => f.ceil(),
                        "trunc" => f.trunc(),
                        "round" => f.round(),
                        _ => f.round_ties_even(),
                    })
                    .to_bits() as u128
                };
                return Ok(BRet::Val(Val::C(r)));
            }
            if base != "fabs" && matches!(ret, Ty::Float | Ty::Double) {
                if let Val::S(e) = &a[0] {
                    let r = crate::fp::integral(&mut en.c, *e, base);
                    return Ok(BRet::Val(en.val(r)));
                }
            }
            if base == "fabs" {
                if let Val::S(e) = &a[0] {
                    let w = ret.bits();
                    let m = en.c.konst(w, mask(w) >> 1);
                    let r = en.c.and(*e, m);
                    return Ok(BRet::Val(en.val(r)));
                }
            }
        }
        "fptosi" | "fptoui" if matches!(tys[0], Ty::Float | Ty::Double) && ret.is_scalar() && ret.bits() <= 64 => {
            let e = en.expr(&a[0], tys[0].bits());
            let r = crate::fp::to_int(&mut en.c, e, ret.bits(), base == "fptosi");
            return Ok(BRet::Val(en.val(r)));
        }
        "copysign" if matches!(ret, Ty::Float | Ty::Double) => {
            let w = ret.bits();
            let (x, y) = (en.expr(&a[0], w), en.expr(&a[1], w));
            let m = en.c.konst(w, mask(w) >> 1);
            let s = en.c.konst(w, 1u128 << (w - 1));
            let (x, y) = (en.c.and(x, m), en.c.and(y, s));
            let r = en.c.or(x, y);
            return Ok(BRet::Val(en.val(r)));
        }
        "minnum" | "maxnum" | "minimumnum" | "maximumnum" if matches!(ret, Ty::Float | Ty::Double) => {
            let w = ret.bits();
            let (x, y) = (en.expr(&a[0], w), en.expr(&a[1], w));
            let lt = en.float_cmp(if base.starts_with("min") { "olt" } else { "ogt" }, w, x, y);
            let xn = en.float_cmp("uno", w, x, x);
            let yn = en.float_cmp("uno", w, y, y);
            let r = en.c.ite(lt, x, y);
            let r = en.c.ite(yn, x, r);
            let r = en.c.ite(xn, y, r);
            return Ok(BRet::Val(en.val(r)));
        }
        "is" if n.starts_with("is.fpclass") && matches!(tys[0], Ty::Float | Ty::Double) => {
            let k = conc(&a[1], n)?;
            let w = tys[0].bits();
            let x = en.expr(&a[0], w);
            let m = if w == 32 { 23 } else { 52 };
            let top = en.c.konst(w, mask(w) >> 1);
            let v = en.c.and(x, top);
            let neg = en.c.extract(x, w - 1, w - 1);
            let inf = (mask(w) >> 1) >> m << m;
            let c = |en: &mut Engine, k: u128| en.c.konst(w, k);
            // (below, from) bounds of the magnitude for each class
            let rng = [(inf | 1, inf | 1 << (m - 1)), (inf | 1 << (m - 1), 1u128 << (w - 1)), (inf, inf + 1), (1 << m, inf), (1, 1 << m), (0, 1)];
            let mut r = en.c.konst(1, 0);
            for (i, (lo, hi)) in rng.iter().enumerate() {
                let (l, h) = (c(en, *lo), c(en, *hi));
                let b = en.c.ult(v, l);
                let a = en.c.not(b);
                let u = en.c.ult(v, h);
                let inside = en.c.and(a, u);
                // bit numbers: snan qnan -inf -normal -subnormal -0 +0 +subnormal +normal +inf
                let bits: Vec<(u32, Option<bool>)> = match i {
                    0 => vec![(0, None)],
                    1 => vec![(1, None)],
                    2 => vec![(2, Some(true)), (9, Some(false))],
                    3 => vec![(3, Some(true)), (8, Some(false))],
                    4 => vec![(4, Some(true)), (7, Some(false))],
                    _ => vec![(5, Some(true)), (6, Some(false))],
                };
                for (bit, sg) in bits {
                    if k >> bit & 1 == 1 {
                        let t = match sg {
                            None => inside,
                            Some(true) => en.c.and(inside, neg),
                            Some(false) => {
                                let p = en.c.not(neg);
                                en.c.and(inside, p)
                            }
                        };
                        r = en.c.or(r, t);
                    }
                }
            }
            return Ok(BRet::Val(en.val(r)));
        }
        _ => {}
    }
    Err(Stop::Error(format!("intrinsic llvm.{}", n)))
}

/// memcpy whose source address may be symbolic: table-select per byte when the
/// address depends on one byte, otherwise fork on the address.
fn copy_sym_checked(en: &mut Engine, st: &mut State, d: u64, src: &Val, n: usize) -> R<()> {
    copy_sym(en, st, d, src, n)
}

fn api(en: &mut Engine, st: &mut State, n: &str, a: &[Val]) -> R<BRet> {
    let draw = |en: &mut Engine, st: &mut State, w: u32| -> R<Val> {
        let k = st.draws.len();
        if let Some(c) = &en.concrete {
            let v = c.get(k).copied().unwrap_or(0) & mask(w);
            let e = en.c.konst(w, v);
            st.draws.push((w, e));
            return Ok(Val::C(v));
        }
        let e = en.c.var(k as u32, w);
        st.draws.push((w, e));
        let mut m = (*st.model).clone();
        if m.len() < en.c.var_w.len() {
            m.resize(en.c.var_w.len(), 0);
            st.model = Rc::new(m);
        }
        Ok(Val::S(e))
    };
    match n {
        "u8" => Ok(BRet::Val(draw(en, st, 8)?)),
        "u16" => Ok(BRet::Val(draw(en, st, 16)?)),
        "u32" => Ok(BRet::Val(draw(en, st, 32)?)),
        "u64" => Ok(BRet::Val(draw(en, st, 64)?)),
        "choose" => {
            let lim = conc(&a[0], "choose")?;
            let v = draw(en, st, 8)?;
            match v {
                Val::C(k) => Ok(BRet::Val(Val::C(k))),
                Val::S(e) => {
                    let mut alts = vec![];
                    for i in (0..lim.min(256)).rev() {
                        let k = en.c.konst(8, i);
                        let q = en.c.eq(e, k);
                        alts.push((q, Val::C(i)));
                    }
                    Ok(BRet::Multi(alts))
                }
                _ => unreachable!(),
            }
        }
        "assume" => match &a[0] {
            Val::C(1) => Ok(BRet::Void),
            Val::C(_) => Err(Stop::Infeasible),
            Val::S(e) => match en.sat(st, *e, false)? {
                Some(m) => {
                    en.add(st, *e, m);
                    Ok(BRet::Void)
                }
                None => Err(Stop::Infeasible),
            },
            _ => unreachable!(),
        },
        "check" => {
            let idp = en.addr(st, &a[1], "check id")?;
            let idl = conc(&a[2], "check id")? as usize;
            let id = String::from_utf8_lossy(&en.bytes_at(st, idp, idl)?).into_owned();
            *en.reach.entry(format!("check:{}", id)).or_default() += 1;
            match &a[0] {
                Val::C(1) => {
                    en.checks.entry(id).or_default().1 += 1;
                    Ok(BRet::Void)
                }
                Val::C(_) => {
                    // false on every input of this path: ask the solver for a
                    // model of the whole path condition
                    en.checks.entry(id.clone()).or_default().0 += 1;
                    let pc = st.pc.clone();
                    let m = match en.s.check(&mut en.c, &pc, true) {
                        crate::solver::Answer::Sat(m) => m,
                        crate::solver::Answer::Unsat => return Err(Stop::Infeasible),
                        crate::solver::Answer::Unknown(e) => return Err(Stop::Error(format!("solver: {}", e))),
                    };
                    en.violation(st, "check", &id, &m);
                    Err(Stop::Infeasible)
                }
                Val::S(e) => {
                    en.checks.entry(id.clone()).or_default().0 += 1;
                    let ne = en.c.not(*e);
                    if let Some(m) = en.sat(st, ne, true)? {
                        en.violation(st, "check", &id, &m);
                        match en.sat(st, *e, false)? {
                            Some(m2) => {
                                en.add(st, *e, m2);
                                return Ok(BRet::Void);
                            }
                            None => return Err(Stop::Infeasible),
                        }
                    }
                    Ok(BRet::Void)
                }
                _ => unreachable!(),
            }
        }
        "reach" => {
            let idp = en.addr(st, &a[0], "reach id")?;
            let idl = conc(&a[1], "reach id")? as usize;
            let id = String::from_utf8_lossy(&en.bytes_at(st, idp, idl)?).into_owned();
            *en.reach.entry(id).or_default() += 1;
            Ok(BRet::Void)
        }
        "arg" => {
            let i = conc(&a[0], "arg")? as usize;
            let v = en.args.get(i).copied().unwrap_or(0);
            Ok(BRet::Val(Val::C(v as u128)))
        }
        "concretize" => {
            let k = en.concretize(st, &a[0], "symx_concretize")?;
            Ok(BRet::Val(Val::C(k)))
        }
        "end" => Err(Stop::Done),
        "scratch" => {
            let p = en.addr(st, &a[0], "scratch")?;
            for (i, c) in crate::fs::SCRATCH.iter().enumerate() {
                en.store_n(st, p + i as u64, 1, &Val::C(u128::from(*c)))?;
            }
            Ok(BRet::Val(Val::C(crate::fs::SCRATCH.len() as u128)))
        }
        "out" => {
            if en.concrete.is_none() {
                return Ok(BRet::Void);
            }
            let p = en.addr(st, &a[0], "out")?;
            let l = conc(&a[1], "out")? as usize;
            let b = en.bytes_at(st, p, l)?;
            en.out.extend_from_slice(&b);
            en.out.push(b'\n');
            Ok(BRet::Void)
        }
        "note" => {
            let p = en.addr(st, &a[0], "note")?;
            let l = conc(&a[1], "note")? as usize;
            if let Ok(b) = en.bytes_at(st, p, l) {
                st.notes.push(Rc::new(String::from_utf8_lossy(&b).into_owned()));
            }
            Ok(BRet::Void)
        }
        _ => Err(Stop::Error(format!("symx_{}", n))),
    }
}
