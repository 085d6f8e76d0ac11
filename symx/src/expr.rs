//! Hash-consed bit-vector expressions with local simplification.
use crate::ir::{mask, sext};
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Zext,
    Sext,
    Extract,
    Concat,
    Lut,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>, // variable mask
    pub kz: Vec<u128>,   // known-zero bits
    map: HashMap<Node, Id>,
    pub luts: Vec<Rc<[u64; 256]>>,
    lutmap: HashMap<Rc<[u64; 256]>, u32>,
    pub var_w: Vec<u32>,
    pub var_name: Vec<String>,
    var_map: HashMap<(u32, u32), Id>,
    // evaluation scratch
    ev_epoch: Vec<u32>,
    ev_val: Vec<u128>,
    epoch: u32,
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            vars: vec![],
            kz: vec![],
            map: HashMap::new(),
            luts: vec![],
            lutmap: HashMap::new(),
            var_w: vec![],
            var_name: vec![],
            var_map: HashMap::new(),
            ev_epoch: vec![],
            ev_val: vec![],
            epoch: 0,
        };
        // id 0 is a sentinel ("concrete byte")
        c.raw(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        c
    }
    fn raw(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Id;
        let m = mask(n.w);
        let (v, kz) = match n.op {
            Op::Const => (0, !n.k & m),
            Op::Var => (1u128 << n.k, 0),
            Op::Ite => (
                self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
                self.kz[n.b as usize] & self.kz[n.c as usize],
            ),
            Op::Zext => {
                let aw = self.nodes[n.a as usize].w;
                (self.vars[n.a as usize], self.kz[n.a as usize] | (m & !mask(aw)))
            }
            Op::Sext | Op::Not => (self.vars[n.a as usize], 0),
            Op::Extract => (self.vars[n.a as usize], (self.kz[n.a as usize] >> n.k) & m),
            Op::Concat => {
                let bw = self.nodes[n.b as usize].w;
                (
                    self.vars[n.a as usize] | self.vars[n.b as usize],
                    (self.kz[n.a as usize] << bw) | self.kz[n.b as usize],
                )
            }
            Op::Lut => {
                let t = &self.luts[n.k as usize];
                let mut o = 0u64;
                for x in t.iter() {
                    o |= x
                }
                (self.vars[n.a as usize], m & !(o as u128))
            }
            _ => {
                let va = self.vars[n.a as usize] | self.vars[n.b as usize];
                let (ka, kb) = (self.kz[n.a as usize], self.kz[n.b as usize]);
                let kz = match n.op {
                    Op::And => ka | kb,
                    Op::Or | Op::Xor => ka & kb,
                    Op::Add => {
                        // leading zeros minus one carry
                        let la = (m & !ka).checked_ilog2().map(|x| x + 1).unwrap_or(0);
                        let lb = (m & !kb).checked_ilog2().map(|x| x + 1).unwrap_or(0);
                        let l = la.max(lb) + 1;
                        if l >= n.w {
                            0
                        } else {
                            m & !mask(l)
                        }
                    }
                    Op::UDiv | Op::URem if n.op == Op::UDiv => {
                        let la = (m & !ka).checked_ilog2().map(|x| x + 1).unwrap_or(0);
                        if la >= n.w {
                            0
                        } else {
                            m & !mask(la)
                        }
                    }
                    Op::LShr => {
                        let la = (m & !ka).checked_ilog2().map(|x| x + 1).unwrap_or(0);
                        if la >= n.w {
                            0
                        } else {
                            m & !mask(la)
                        }
                    }
                    _ => 0,
                };
                (va, kz & m)
            }
        };
        self.nodes.push(n);
        self.vars.push(v);
        self.kz.push(kz);
        self.ev_epoch.push(0);
        self.ev_val.push(0);
        self.map.insert(n, i);
        i
    }
    pub fn n(&self, i: Id) -> Node {
        self.nodes[i as usize]
    }
    pub fn w(&self, i: Id) -> u32 {
        self.nodes[i as usize].w
    }
    pub fn cv(&self, i: Id) -> Option<u128> {
        let n = &self.nodes[i as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn max(&self, i: Id) -> u128 {
        mask(self.w(i)) & !self.kz[i as usize]
    }
    pub fn konst(&mut self, w: u32, k: u128) -> Id {
        self.raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, draw: u32, w: u32) -> Id {
        if let Some(&i) = self.var_map.get(&(draw, w)) {
            return i;
        }
        let idx = self.var_w.len();
        assert!(idx < 128, "too many symbolic variables");
        self.var_w.push(w);
        self.var_name.push(format!("d{}_{}", draw, w));
        let i = self.raw(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: idx as u128 });
        self.var_map.insert((draw, w), i);
        i
    }
    fn mk(&mut self, op: Op, w: u32, a: Id, b: Id) -> Id {
        self.raw(Node { op, w, a, b, c: 0, k: 0 })
    }
    pub fn lut(&mut self, idx: Id, w: u32, t: [u64; 256]) -> Id {
        debug_assert!(self.w(idx) == 8);
        if let Some(k) = self.cv(idx) {
            return self.konst(w, t[k as usize] as u128);
        }
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(w, t[0] as u128);
        }
        let rc = Rc::new(t);
        let li = match self.lutmap.get(&rc) {
            Some(&i) => i,
            None => {
                let i = self.luts.len() as u32;
                self.luts.push(rc.clone());
                self.lutmap.insert(rc, i);
                i
            }
        };
        self.raw(Node { op: Op::Lut, w, a: idx, b: 0, c: 0, k: li as u128 })
    }
    fn lutmap1(&mut self, l: Id, w: u32, f: impl Fn(u64) -> u64) -> Id {
        let n = self.n(l);
        let t = self.luts[n.k as usize].clone();
        let mut o = [0u64; 256];
        for i in 0..256 {
            o[i] = f(t[i]) & mask(w.min(64)) as u64;
        }
        self.lut(n.a, w, o)
    }

    pub fn not(&mut self, a: Id) -> Id {
        let n = self.n(a);
        match n.op {
            Op::Const => self.konst(n.w, !n.k),
            Op::Not => n.a,
            Op::Lut if n.w == 1 => self.lutmap1(a, 1, |x| x ^ 1),
            _ => self.raw(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b)
        }
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            let n = self.n(a);
            match n.op {
                Op::Const => return self.konst(w, n.k.wrapping_add(k)),
                Op::Add => {
                    if let Some(k2) = self.cv(n.b) {
                        let kk = self.konst(w, k.wrapping_add(k2));
                        return self.add(n.a, kk);
                    }
                }
                Op::Sub => {
                    if let Some(k2) = self.cv(n.a) {
                        let kk = self.konst(w, k.wrapping_add(k2));
                        return self.sub(kk, n.b);
                    }
                }
                Op::Lut if w <= 64 => return self.lutmap1(a, w, |x| x.wrapping_add(k as u64)),
                Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                    let x = self.add(n.b, b);
                    let y = self.add(n.c, b);
                    return self.ite(n.a, x, y);
                }
                _ => {}
            }
            return self.mk(Op::Add, w, a, b);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        // (x + k) + y -> (x + y) + k
        let na = self.n(a);
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        let nb = self.n(b);
        if nb.op == Op::Add && self.cv(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        if nb.op == Op::Sub && nb.b == a {
            return nb.a; // a + (x - a)
        }
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        if a > b {
            std::mem::swap(&mut a, &mut b)
        }
        self.mk(Op::Add, w, a, b)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        if let Some(k) = self.cv(b) {
            let kk = self.konst(w, k.wrapping_neg());
            return self.add(a, kk);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let na = self.n(a);
        let nb = self.n(b);
        if let Some(k) = self.cv(a) {
            if nb.op == Op::Lut && w <= 64 {
                return self.lutmap1(b, w, |x| (k as u64).wrapping_sub(x));
            }
            if nb.op == Op::Add {
                if let Some(k2) = self.cv(nb.b) {
                    let kk = self.konst(w, k.wrapping_sub(k2));
                    return self.sub(kk, nb.a);
                }
            }
            return self.mk(Op::Sub, w, a, b);
        }
        if na.op == Op::Add && na.a == b {
            return na.b;
        }
        if na.op == Op::Add && na.b == b {
            return na.a;
        }
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let s = self.sub(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add {
            if let Some(k) = self.cv(nb.b) {
                let s = self.sub(a, nb.a);
                let kk = self.konst(w, k.wrapping_neg());
                return self.add(s, kk);
            }
        }
        self.mk(Op::Sub, w, a, b)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b)
        }
        if let Some(k) = self.cv(b) {
            if let Some(j) = self.cv(a) {
                return self.konst(w, j.wrapping_mul(k));
            }
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                let s = self.konst(w, k.trailing_zeros() as u128);
                return self.shl(a, s);
            }
            let n = self.n(a);
            if n.op == Op::Lut && w <= 64 {
                return self.lutmap1(a, w, |x| x.wrapping_mul(k as u64));
            }
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.mul(n.b, b);
                let y = self.mul(n.c, b);
                return self.ite(n.a, x, y);
            }
        } else if a > b {
            std::mem::swap(&mut a, &mut b)
        }
        self.mk(Op::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 1 {
                return a;
            }
            if k != 0 {
                if let Some(j) = self.cv(a) {
                    return self.konst(w, j / k);
                }
                if k.is_power_of_two() {
                    let s = self.konst(w, k.trailing_zeros() as u128);
                    return self.lshr(a, s);
                }
                if self.max(a) < k {
                    return self.konst(w, 0);
                }
                let n = self.n(a);
                if n.op == Op::Lut && w <= 64 {
                    return self.lutmap1(a, w, |x| x / k as u64);
                }
                if n.op == Op::Zext && k <= mask(self.w(n.a)) {
                    let kk = self.konst(self.w(n.a), k);
                    let q = self.udiv(n.a, kk);
                    return self.zext(q, w);
                }
            }
        }
        self.mk(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k != 0 {
                if let Some(j) = self.cv(a) {
                    return self.konst(w, j % k);
                }
                if k.is_power_of_two() {
                    let m = self.konst(w, k - 1);
                    return self.and(a, m);
                }
                if self.max(a) < k {
                    return a;
                }
                let n = self.n(a);
                if n.op == Op::Lut && w <= 64 {
                    return self.lutmap1(a, w, |x| x % k as u64);
                }
                if n.op == Op::Zext && k <= mask(self.w(n.a)) {
                    let kk = self.konst(self.w(n.a), k);
                    let q = self.urem(n.a, kk);
                    return self.zext(q, w);
                }
            }
        }
        self.mk(Op::URem, w, a, b)
    }
    pub fn sdivrem(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(j), Some(k)) = (self.cv(a), self.cv(b)) {
            let x = sext(j, w, 128) as i128;
            let y = sext(k, w, 128) as i128;
            if y != 0 {
                let r = if op == Op::SDiv { x.wrapping_div(y) } else { x.wrapping_rem(y) };
                return self.konst(w, r as u128);
            }
        }
        self.mk(op, w, a, b)
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if a == b {
            return a;
        }
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b)
        }
        if let Some(k) = self.cv(b) {
            if let Some(j) = self.cv(a) {
                return self.konst(w, j & k);
            }
            let poss = self.max(a);
            if poss & k == 0 {
                return self.konst(w, 0);
            }
            if poss & !k == 0 {
                return a;
            }
            let n = self.n(a);
            match n.op {
                Op::Lut if w <= 64 => return self.lutmap1(a, w, |x| x & k as u64),
                Op::And if self.cv(n.b).is_some() => {
                    let k2 = self.cv(n.b).unwrap();
                    let kk = self.konst(w, k & k2);
                    return self.and(n.a, kk);
                }
                Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                    let x = self.and(n.b, b);
                    let y = self.and(n.c, b);
                    return self.ite(n.a, x, y);
                }
                _ => {}
            }
            // low mask: zext(extract)
            let kk = k & poss;
            let lo = kk.trailing_zeros();
            let hi = 128 - kk.leading_zeros();
            let full = (mask(hi) & !mask(lo)) & poss;
            if full == kk {
                // the mask selects a contiguous field [lo,hi)
                let f = self.extract(a, hi - 1, lo);
                let s = if lo > 0 {
                    let z = self.konst(lo, 0);
                    self.concat(f, z)
                } else {
                    f
                };
                return self.zext(s, w);
            }
            return self.mk(Op::And, w, a, b);
        }
        if w == 1 {
            let na = self.n(a);
            let nb = self.n(b);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.konst(1, 0);
            }
            if na.op == Op::Lut && nb.op == Op::Lut && na.a == nb.a {
                let (t, u) = (self.luts[na.k as usize].clone(), self.luts[nb.k as usize].clone());
                let mut o = [0u64; 256];
                for i in 0..256 {
                    o[i] = t[i] & u[i]
                }
                return self.lut(na.a, 1, o);
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
        }
        if a > b {
            std::mem::swap(&mut a, &mut b)
        }
        self.mk(Op::And, w, a, b)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if a == b {
            return a;
        }
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b)
        }
        if let Some(k) = self.cv(b) {
            if let Some(j) = self.cv(a) {
                return self.konst(w, j | k);
            }
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return b;
            }
            let n = self.n(a);
            match n.op {
                Op::Lut if w <= 64 => return self.lutmap1(a, w, |x| x | k as u64),
                Op::Or if self.cv(n.b).is_some() => {
                    let k2 = self.cv(n.b).unwrap();
                    let kk = self.konst(w, k | k2);
                    return self.or(n.a, kk);
                }
                Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                    let x = self.or(n.b, b);
                    let y = self.or(n.c, b);
                    return self.ite(n.a, x, y);
                }
                _ => {}
            }
        }
        if w == 1 {
            let na = self.n(a);
            let nb = self.n(b);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.konst(1, 1);
            }
            if na.op == Op::Lut && nb.op == Op::Lut && na.a == nb.a {
                let (t, u) = (self.luts[na.k as usize].clone(), self.luts[nb.k as usize].clone());
                let mut o = [0u64; 256];
                for i in 0..256 {
                    o[i] = t[i] | u[i]
                }
                return self.lut(na.a, 1, o);
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return b;
            }
        } else {
            // disjoint fields -> concat
            let (ma, mb) = (self.max(a), self.max(b));
            if ma & mb == 0 && ma != 0 && mb != 0 {
                let (hi, lo) = if ma > mb { (a, b) } else { (b, a) };
                let ml = self.max(lo);
                let mh = self.max(hi);
                let cut = 128 - ml.leading_zeros();
                if mh.trailing_zeros() >= cut && cut < w {
                    let h = self.extract(hi, w - 1, cut);
                    let l = self.extract(lo, cut - 1, 0);
                    return self.concat(h, l);
                }
            }
        }
        if a > b {
            std::mem::swap(&mut a, &mut b)
        }
        self.mk(Op::Or, w, a, b)
    }
    pub fn xor(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if a == b {
            return self.konst(w, 0);
        }
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b)
        }
        if let Some(k) = self.cv(b) {
            if let Some(j) = self.cv(a) {
                return self.konst(w, j ^ k);
            }
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return self.not(a);
            }
            let n = self.n(a);
            match n.op {
                Op::Lut if w <= 64 => return self.lutmap1(a, w, |x| x ^ k as u64),
                Op::Xor if self.cv(n.b).is_some() => {
                    let k2 = self.cv(n.b).unwrap();
                    let kk = self.konst(w, k ^ k2);
                    return self.xor(n.a, kk);
                }
                Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                    let x = self.xor(n.b, b);
                    let y = self.xor(n.c, b);
                    return self.ite(n.a, x, y);
                }
                _ => {}
            }
            // xor of a field that is known zero = or
            if self.max(a) & k == 0 {
                return self.or(a, b);
            }
        } else if w == 1 {
            // a xor b = not (a = b)
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::Not {
                let x = self.xor(na.a, b);
                return self.not(x);
            }
            if nb.op == Op::Not {
                let x = self.xor(a, nb.a);
                return self.not(x);
            }
        }
        if a > b {
            std::mem::swap(&mut a, &mut b)
        }
        self.mk(Op::Xor, w, a, b)
    }
    pub fn shl(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.konst(w, 0);
            }
            let k = k as u32;
            if let Some(j) = self.cv(a) {
                return self.konst(w, j << k);
            }
            let x = self.extract(a, w - 1 - k, 0);
            let z = self.konst(k, 0);
            return self.concat(x, z);
        }
        if let (Some(j), Op::Lut) = (self.cv(a), self.n(b).op) {
            if w <= 64 {
                return self.lutmap1(b, w, |x| if x >= w as u64 { 0 } else { (j as u64) << x });
            }
        }
        self.mk(Op::Shl, w, a, b)
    }
    pub fn lshr(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.konst(w, 0);
            }
            let k = k as u32;
            if let Some(j) = self.cv(a) {
                return self.konst(w, j >> k);
            }
            let x = self.extract(a, w - 1, k);
            return self.zext(x, w);
        }
        if let (Some(j), Op::Lut) = (self.cv(a), self.n(b).op) {
            if w <= 64 {
                return self.lutmap1(b, w, |x| if x >= w as u64 { 0 } else { (j as u64) >> x });
            }
        }
        self.mk(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            let k = (k.min(w as u128 - 1)) as u32;
            if let Some(j) = self.cv(a) {
                let x = sext(j, w, 128) as i128 >> k;
                return self.konst(w, x as u128);
            }
            let x = self.extract(a, w - 1, k);
            return self.sext(x, w);
        }
        self.mk(Op::AShr, w, a, b)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.konst(1, 1);
        }
        let (mut a, mut b) = (a, b);
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b)
        }
        let n = self.n(a);
        if let Some(k) = self.cv(b) {
            if let Some(j) = self.cv(a) {
                return self.konst(1, (j == k) as u128);
            }
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            if k & self.kz[a as usize] != 0 {
                return self.konst(1, 0);
            }
            match n.op {
                Op::Zext => {
                    let aw = self.w(n.a);
                    if k > mask(aw) {
                        return self.konst(1, 0);
                    }
                    let kk = self.konst(aw, k);
                    return self.eq(n.a, kk);
                }
                Op::Sext => {
                    let aw = self.w(n.a);
                    if sext(k & mask(aw), aw, w) != k {
                        return self.konst(1, 0);
                    }
                    let kk = self.konst(aw, k);
                    return self.eq(n.a, kk);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hk = self.konst(w - lw, k >> lw);
                    let lk = self.konst(lw, k);
                    let x = self.eq(n.a, hk);
                    if self.cv(x) == Some(0) {
                        return x;
                    }
                    let y = self.eq(n.b, lk);
                    return self.and(x, y);
                }
                Op::Ite => {
                    let (kb, kc) = (self.cv(n.b), self.cv(n.c));
                    if kb.is_some() || kc.is_some() {
                        let x = self.eq(n.b, b);
                        let y = self.eq(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::Add => {
                    if let Some(k2) = self.cv(n.b) {
                        let kk = self.konst(w, k.wrapping_sub(k2));
                        return self.eq(n.a, kk);
                    }
                }
                Op::Sub => {
                    if let Some(k2) = self.cv(n.a) {
                        let kk = self.konst(w, k2.wrapping_sub(k));
                        return self.eq(n.b, kk);
                    }
                    if k == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.cv(n.b) {
                        let kk = self.konst(w, k ^ k2);
                        return self.eq(n.a, kk);
                    }
                    if k == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Not => {
                    let kk = self.konst(w, !k);
                    return self.eq(n.a, kk);
                }
                Op::Or if k == 0 => {
                    let z = self.konst(w, 0);
                    let x = self.eq(n.a, z);
                    let y = self.eq(n.b, z);
                    return self.and(x, y);
                }
                Op::Lut => return self.lutmap1(a, 1, |x| (x as u128 == k) as u64),
                _ => {}
            }
        } else {
            let nb = self.n(b);
            if n.op == Op::Zext && nb.op == Op::Zext && self.w(n.a) == self.w(nb.a) {
                return self.eq(n.a, nb.a);
            }
            if n.op == Op::Concat && nb.op == Op::Concat && self.w(n.b) == self.w(nb.b) {
                let x = self.eq(n.a, nb.a);
                let y = self.eq(n.b, nb.b);
                return self.and(x, y);
            }
            if n.op == Op::Add && nb.op == Op::Add && n.b == nb.b {
                return self.eq(n.a, nb.a);
            }
            if n.op == Op::Not && nb.op == Op::Not {
                return self.eq(n.a, nb.a);
            }
        }
        if a > b && self.cv(b).is_none() {
            std::mem::swap(&mut a, &mut b)
        }
        self.mk(Op::Eq, 1, a, b)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.konst(1, 0);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        let n = self.n(a);
        let nb = self.n(b);
        if let Some(k) = self.cv(b) {
            if let Some(j) = self.cv(a) {
                return self.konst(1, (j < k) as u128);
            }
            if k == 0 {
                return self.konst(1, 0);
            }
            if self.max(a) < k {
                return self.konst(1, 1);
            }
            if k == 1 {
                let z = self.konst(w, 0);
                return self.eq(a, z);
            }
            match n.op {
                Op::Zext => {
                    let kk = self.konst(self.w(n.a), k);
                    return self.ult(n.a, kk);
                }
                Op::Lut => return self.lutmap1(a, 1, |x| ((x as u128) < k) as u64),
                Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                    let x = self.ult(n.b, b);
                    let y = self.ult(n.c, b);
                    return self.ite(n.a, x, y);
                }
                Op::Concat => {
                    // k with zero low part: compare the high part only
                    let lw = self.w(n.b);
                    if k & mask(lw) == 0 {
                        let kk = self.konst(w - lw, k >> lw);
                        return self.ult(n.a, kk);
                    }
                }
                _ => {}
            }
        } else if let Some(k) = self.cv(a) {
            if k == mask(w) || self.max(b) <= k {
                return self.konst(1, 0);
            }
            if k == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            match nb.op {
                Op::Zext => {
                    let kk = self.konst(self.w(nb.a), k);
                    return self.ult(kk, nb.a);
                }
                Op::Lut => return self.lutmap1(b, 1, |x| (k < x as u128) as u64),
                Op::Ite if self.cv(nb.b).is_some() || self.cv(nb.c).is_some() => {
                    let x = self.ult(a, nb.b);
                    let y = self.ult(a, nb.c);
                    return self.ite(nb.a, x, y);
                }
                _ => {}
            }
            // k < b  <=>  !(b < k+1)
            let kk = self.konst(w, k + 1);
            let x = self.mk_ult(b, kk);
            return self.not(x);
        } else if n.op == Op::Zext && nb.op == Op::Zext && self.w(n.a) == self.w(nb.a) {
            return self.ult(n.a, nb.a);
        }
        self.mk_ult(a, b)
    }
    fn mk_ult(&mut self, a: Id, b: Id) -> Id {
        self.mk(Op::Ult, 1, a, b)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.konst(1, 0);
        }
        if let (Some(j), Some(k)) = (self.cv(a), self.cv(b)) {
            return self.konst(1, ((sext(j, w, 128) as i128) < (sext(k, w, 128) as i128)) as u128);
        }
        let sb = 1u128 << (w - 1);
        let (za, zb) = (self.kz[a as usize] & sb != 0, self.kz[b as usize] & sb != 0);
        if za && zb {
            return self.ult(a, b);
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        if self.cv(a) == Some(mask(w)) {
            let x = self.extract(b, w - 1, w - 1);
            return self.not(x);
        }
        let (n, nb) = (self.n(a), self.n(b));
        if let Some(k) = self.cv(b) {
            if za && k & sb != 0 {
                return self.konst(1, 0);
            }
            if n.op == Op::Sext {
                let aw = self.w(n.a);
                if sext(k & mask(aw), aw, w) == k {
                    let kk = self.konst(aw, k);
                    return self.slt(n.a, kk);
                }
            }
            if n.op == Op::Lut {
                return self.lutmap1(a, 1, |x| {
                    ((sext(x as u128, w, 128) as i128) < (sext(k, w, 128) as i128)) as u64
                });
            }
            if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                let x = self.slt(n.b, b);
                let y = self.slt(n.c, b);
                return self.ite(n.a, x, y);
            }
        }
        if let Some(k) = self.cv(a) {
            if zb && k & sb != 0 {
                return self.konst(1, 1);
            }
            if nb.op == Op::Sext {
                let bw = self.w(nb.a);
                if sext(k & mask(bw), bw, w) == k {
                    let kk = self.konst(bw, k);
                    return self.slt(kk, nb.a);
                }
            }
            if nb.op == Op::Lut {
                return self.lutmap1(b, 1, |x| {
                    ((sext(k, w, 128) as i128) < (sext(x as u128, w, 128) as i128)) as u64
                });
            }
            if nb.op == Op::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
                let x = self.slt(a, nb.b);
                let y = self.slt(a, nb.c);
                return self.ite(nb.a, x, y);
            }
        }
        self.mk(Op::Slt, 1, a, b)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        if let Some(k) = self.cv(c) {
            return if k == 1 { a } else { b };
        }
        let w = self.w(a);
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite over the same one-byte selector: fold to a table
        if nc.op == Op::Lut && w <= 64 {
            let ta = self.table_of(a, nc.a);
            let tb = self.table_of(b, nc.a);
            if let (Some(ta), Some(tb)) = (ta, tb) {
                let t = self.luts[nc.k as usize].clone();
                let mut o = [0u64; 256];
                for i in 0..256 {
                    o[i] = if t[i] == 1 { ta[i] } else { tb[i] };
                }
                return self.lut(nc.a, w, o);
            }
        }
        self.raw(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    fn table_of(&self, e: Id, idx: Id) -> Option<[u64; 256]> {
        let n = self.n(e);
        match n.op {
            Op::Const => Some([n.k as u64; 256]),
            Op::Lut if n.a == idx => Some(*self.luts[n.k as usize]),
            _ => None,
        }
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(w, n.k),
            Op::Zext => self.zext(n.a, w),
            Op::Lut if w <= 64 => self.lutmap1(a, w, |x| x),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => {
                if self.max(a) == 0 {
                    return self.konst(w, 0);
                }
                self.raw(Node { op: Op::Zext, w, a, b: 0, c: 0, k: 0 })
            }
        }
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if self.kz[a as usize] & (1u128 << (n.w - 1)) != 0 {
            return self.zext(a, w);
        }
        match n.op {
            Op::Const => self.konst(w, sext(n.k, n.w, w)),
            Op::Sext => self.sext(n.a, w),
            Op::Lut if w <= 64 => self.lutmap1(a, w, |x| sext(x as u128, n.w, w) as u64),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.raw(Node { op: Op::Sext, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn trunc(&mut self, a: Id, w: u32) -> Id {
        self.extract(a, w - 1, 0)
    }
    pub fn extract(&mut self, a: Id, hi: u32, lo: u32) -> Id {
        let n = self.n(a);
        let w = hi - lo + 1;
        if w == n.w {
            return a;
        }
        if (self.max(a) >> lo) & mask(w) == 0 {
            return self.konst(w, 0);
        }
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, hi + n.k as u32, lo + n.k as u32),
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            Op::Zext => {
                let aw = self.w(n.a);
                if hi < aw {
                    return self.extract(n.a, hi, lo);
                }
                if lo >= aw {
                    return self.konst(w, 0);
                }
                let x = self.extract(n.a, aw - 1, lo);
                return self.zext(x, w);
            }
            Op::Sext => {
                let aw = self.w(n.a);
                if hi < aw {
                    return self.extract(n.a, hi, lo);
                }
                if lo >= aw {
                    let s = self.extract(n.a, aw - 1, aw - 1);
                    return self.sext(s, w);
                }
                let x = self.extract(n.a, aw - 1, lo);
                return self.sext(x, w);
            }
            Op::Lut if w <= 64 => return self.lutmap1(a, w, |x| x.checked_shr(lo).unwrap_or(0)),
            Op::And | Op::Or | Op::Xor => {
                if self.cv(n.b).is_some() || w <= 8 {
                    let x = self.extract(n.a, hi, lo);
                    let y = self.extract(n.b, hi, lo);
                    return match n.op {
                        Op::And => self.and(x, y),
                        Op::Or => self.or(x, y),
                        _ => self.xor(x, y),
                    };
                }
            }
            Op::Not => {
                let x = self.extract(n.a, hi, lo);
                return self.not(x);
            }
            Op::Ite => {
                let x = self.extract(n.b, hi, lo);
                let y = self.extract(n.c, hi, lo);
                return self.ite(n.a, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            _ => {}
        }
        self.raw(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        let (h, l) = (self.n(hi), self.n(lo));
        let w = h.w + l.w;
        assert!(w <= 128, "concat too wide");
        if let Some(k) = self.cv(hi) {
            if let Some(j) = self.cv(lo) {
                return self.konst(w, (k << l.w) | j);
            }
            if k == 0 {
                return self.zext(lo, w);
            }
        }
        if self.max(hi) == 0 {
            return self.zext(lo, w);
        }
        if let Some(m) = self.merge(hi, lo) {
            return m;
        }
        if l.op == Op::Concat {
            if let Some(m) = self.merge(hi, l.a) {
                return self.concat(m, l.b);
            }
        }
        if h.op == Op::Concat {
            // right-associate
            let r = self.concat(h.b, lo);
            return self.concat(h.a, r);
        }
        if h.op == Op::Zext {
            let aw = self.w(h.a);
            let x = self.concat(h.a, lo);
            debug_assert!(aw + l.w < w);
            return self.zext(x, w);
        }
        self.raw(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    fn merge(&mut self, hi: Id, lo: Id) -> Option<Id> {
        let (h, l) = (self.n(hi), self.n(lo));
        if h.op == Op::Extract {
            let hl = h.k as u32;
            if l.op == Op::Extract && l.a == h.a && l.k as u32 + l.w == hl {
                return Some(self.extract(h.a, hl + h.w - 1, l.k as u32));
            }
            if lo == h.a && false {
                return None;
            }
            // low part already simplified to its source: extract(x, m-1, 0) where x is zext etc.
            if hl == l.w {
                let e = self.extract(h.a, hl - 1, 0);
                if e == lo {
                    return Some(self.extract(h.a, hl + h.w - 1, 0));
                }
            }
        }
        // sign extension split in two
        if h.op == Op::Ite && l.op == Op::Ite && h.a == l.a {
            let x = self.concat(h.b, l.b);
            let y = self.concat(h.c, l.c);
            return Some(self.ite(h.a, x, y));
        }
        if h.op == Op::Lut && l.op == Op::Lut && h.a == l.a && h.w + l.w <= 64 {
            let (t, u) = (self.luts[h.k as usize].clone(), self.luts[l.k as usize].clone());
            let mut o = [0u64; 256];
            for i in 0..256 {
                o[i] = t[i] << l.w | u[i];
            }
            return Some(self.lut(h.a, h.w + l.w, o));
        }
        None
    }

    // ---------------------------------------------------------------- eval
    pub fn new_epoch(&mut self) {
        self.epoch += 1;
    }
    /// In the current evaluation epoch, node e has value v.
    pub fn preset(&mut self, e: Id, v: u128) {
        self.ev_epoch[e as usize] = self.epoch;
        self.ev_val[e as usize] = v;
    }
    /// The only 8-bit node through which e depends on variables, if there is
    /// just one.
    pub fn pivot(&self, e: Id) -> Option<Id> {
        let mut st = vec![e];
        let mut seen = std::collections::HashSet::new();
        let mut p = None;
        while let Some(x) = st.pop() {
            if self.vars[x as usize] == 0 || !seen.insert(x) {
                continue;
            }
            if seen.len() > 200 {
                return None;
            }
            let n = self.n(x);
            if n.w == 8 {
                match p {
                    None => p = Some(x),
                    Some(y) if y == x => {}
                    _ => return None,
                }
                continue;
            }
            match n.op {
                Op::Var => return None,
                Op::Ite => st.extend([n.a, n.b, n.c]),
                Op::Zext | Op::Sext | Op::Not | Op::Extract | Op::Lut => st.push(n.a),
                _ => st.extend([n.a, n.b]),
            }
        }
        p
    }
    pub fn eval(&mut self, e: Id, m: &[u128]) -> u128 {
        self.new_epoch();
        self.ev(e, m)
    }
    pub fn eval_more(&mut self, e: Id, m: &[u128]) -> u128 {
        self.ev(e, m)
    }
    fn ev(&mut self, e: Id, m: &[u128]) -> u128 {
        if self.ev_epoch[e as usize] == self.epoch {
            return self.ev_val[e as usize];
        }
        let n = self.n(e);
        let w = n.w;
        let mk = mask(w);
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => m.get(n.k as usize).copied().unwrap_or(0) & mk,
            Op::Ite => {
                if self.ev(n.a, m) == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            Op::Zext => self.ev(n.a, m),
            Op::Sext => {
                let aw = self.w(n.a);
                sext(self.ev(n.a, m), aw, w)
            }
            Op::Not => !self.ev(n.a, m) & mk,
            Op::Extract => (self.ev(n.a, m) >> n.k) & mk,
            Op::Concat => {
                let lw = self.w(n.b);
                let h = self.ev(n.a, m);
                let l = self.ev(n.b, m);
                (h << lw) | l
            }
            Op::Lut => {
                let i = self.ev(n.a, m);
                self.luts[n.k as usize][i as usize] as u128
            }
            _ => {
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                let aw = self.w(n.a);
                bin_c(n.op, aw, a, b)
            }
        };
        self.ev_epoch[e as usize] = self.epoch;
        self.ev_val[e as usize] = r;
        r
    }
    pub fn vars_of(&self, e: Id) -> u128 {
        self.vars[e as usize]
    }
}

/// Concrete semantics, identical to SMT-LIB's for the total operations.
pub fn bin_c(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let mk = mask(w);
    let sa = || sext(a, w, 128) as i128;
    let sb = || sext(b, w, 128) as i128;
    match op {
        Op::Add => a.wrapping_add(b) & mk,
        Op::Sub => a.wrapping_sub(b) & mk,
        Op::Mul => a.wrapping_mul(b) & mk,
        Op::UDiv => {
            if b == 0 {
                mk
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                if sa() < 0 {
                    1
                } else {
                    mk
                }
            } else {
                (sa().wrapping_div(sb()) as u128) & mk
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                (sa().wrapping_rem(sb()) as u128) & mk
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & mk
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = b.min(w as u128 - 1) as u32;
            ((sa() >> s) as u128) & mk
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sa() < sb()) as u128,
        _ => panic!("bin_c {:?}", op),
    }
}
