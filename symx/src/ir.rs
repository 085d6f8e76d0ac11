//! Parser for the textual LLVM IR that rustc emits.  The module is indexed
//! once; function bodies are decoded the first time they are executed.
use crate::expr::Id;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(Id),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Vec(u32, Rc<Ty>),
    Array(u64, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Other,
}

pub fn round_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            t => panic!("bits of {:?}", t),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 / 8).next_power_of_two().max(1),
            Ty::Array(_, t) => t.align(),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, f) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Void | Ty::Other => 1,
        }
    }
    /// Bytes touched by a store.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => round_up(self.store_size(), self.align()),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(..) => round_up(self.store_size(), self.align()),
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let (o, s) = self.struct_layout();
                let _ = o;
                s
            }
            Ty::Void | Ty::Other => 0,
        }
    }
    pub fn struct_layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(packed, f) => {
                let mut off = 0;
                let mut v = Vec::with_capacity(f.len());
                for t in f.iter() {
                    if !packed {
                        off = round_up(off, t.align());
                    }
                    v.push(off);
                    off += t.size();
                }
                if !packed {
                    off = round_up(off, self.align());
                }
                (v, off)
            }
            _ => panic!("struct_layout"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    PtrToInt,
    IntToPtr,
    Bitcast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // symbol id
    Indirect(Opnd),
    AsmNop,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: Ty, d: u32, a: Opnd, b: Opnd },
    Icmp { p: Pred, ty: Ty, d: u32, a: Opnd, b: Opnd },
    Fcmp { p: String, ty: Ty, d: u32, a: Opnd, b: Opnd },
    FNeg { ty: Ty, d: u32, a: Opnd },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: Opnd },
    Load { d: u32, ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: i64, scaled: Vec<(Opnd, u32, i64)> },
    Alloca { d: u32, size: u64, n: Option<Opnd> },
    Select { d: u32, ty: Ty, cty: Ty, c: Opnd, a: Opnd, b: Opnd },
    Call { d: Option<u32>, callee: Callee, args: Vec<Opnd>, atys: Vec<Ty>, ret: Ty, normal: Option<u32> },
    Br(u32),
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { c: Opnd, w: u32, cases: Vec<(u128, u32)>, def: u32 },
    Ret(Option<Opnd>),
    Unreachable,
    Extract { d: u32, a: Opnd, idx: Vec<u32> },
    Insert { d: u32, a: Opnd, aty: Ty, v: Opnd, idx: Vec<u32> },
    ExtractElem { d: u32, a: Opnd, i: Opnd },
    InsertElem { d: u32, a: Opnd, aty: Ty, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, n: u32, aty: Ty, mask: Vec<u32> },
    Rmw { d: u32, op: String, ty: Ty, p: Opnd, v: Opnd },
    CmpXchg { d: u32, ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    Move { d: u32, a: Opnd, ty: Ty },
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
    /// per-instruction !dbg id (0 = none)
    pub dbg: Vec<u32>,
}

pub struct Func {
    pub sym: u32,
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SymKind {
    FuncDef { start: usize, end: usize, pretty: String },
    FuncDecl { weak: bool },
    Global { line: usize, constant: bool },
    Alias(usize),
    Unknown,
}

pub struct Symbol {
    pub name: String,
    pub kind: SymKind,
}

pub struct Module {
    pub lines: Vec<&'static str>,
    pub syms: RefCell<Vec<Symbol>>,
    pub by_name: RefCell<HashMap<String, u32>>,
    pub funcs: RefCell<HashMap<u32, Rc<Func>>>,
    pub types: RefCell<HashMap<String, Ty>>,
    pub meta: HashMap<u32, usize>,
}

pub const ADDR_SHIFT: u32 = 32;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn zero_of(ty: &Ty) -> Val {
    match ty {
        Ty::Vec(n, t) => Val::A(Rc::new(vec![zero_of(t); *n as usize])),
        Ty::Array(n, t) => Val::A(Rc::new(vec![zero_of(t); *n as usize])),
        Ty::Struct(_, f) => Val::A(Rc::new(f.iter().map(zero_of).collect())),
        _ => Val::C(0),
    }
}

struct P<'m> {
    s: &'static [u8],
    i: usize,
    m: &'m Module,
    regs: Option<&'m RefCell<RegMap>>,
}

#[derive(Default)]
pub struct RegMap {
    map: HashMap<&'static str, u32>,
}
impl RegMap {
    fn get(&mut self, n: &'static str) -> u32 {
        let l = self.map.len() as u32;
        *self.map.entry(n).or_insert(l)
    }
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'m> P<'m> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn rest(&self) -> &'static str {
        std::str::from_utf8(&self.s[self.i..]).unwrap_or("<non-utf8>")
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn eat_word(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let j = self.i + t.len();
            if j >= self.s.len() || !is_idc(self.s[j]) {
                self.i = j;
                return true;
            }
        }
        false
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("expected {:?} at {:?}", t, &self.rest()[..self.rest().len().min(120)]);
        }
    }
    fn word(&mut self) -> &'static str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_idc(self.s[self.i]) {
            self.i += 1
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
    }
    fn peek_word(&mut self) -> &'static str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    /// name after % or @ (sigil already consumed)
    fn name(&mut self) -> &'static str {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1
            }
            self.i = j + 1;
            unsafe { std::str::from_utf8_unchecked(&self.s[st..j]) }
        } else {
            self.word()
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let neg = self.eat("-");
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1
        }
        let t = unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) };
        let v: u128 = t.parse().unwrap_or_else(|_| panic!("num at {:?}", &self.rest()[..self.rest().len().min(80)]));
        if neg {
            (v as i128).wrapping_neg()
        } else {
            v as i128
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        let mut q = false;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            self.i += 1;
            if q {
                if c == b'"' {
                    q = false
                }
                continue;
            }
            match c {
                b'"' => q = true,
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Array(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.tylist(b'}');
                    self.expect(">");
                    Ty::Struct(true, Rc::new(f))
                } else {
                    let n = self.num() as u32;
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'{' => {
                self.i += 1;
                let f = self.tylist(b'}');
                Ty::Struct(false, Rc::new(f))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.types.borrow().get(n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                    _ if w.starts_with('i') && w.len() > 1 && w.as_bytes()[1].is_ascii_digit() => {
                        Ty::Int(w[1..].parse().unwrap())
                    }
                    _ => panic!("type {:?} at {:?}", w, &self.rest()[..self.rest().len().min(120)]),
                }
            }
        }
    }
    fn tylist(&mut self, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.peek() == close {
            self.i += 1;
            return v;
        }
        loop {
            v.push(self.ty());
            let c = self.peek();
            self.i += 1;
            if c == close {
                return v;
            }
            assert!(c == b',');
        }
    }
    /// Skips parameter attributes before a value.
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1
                }
                self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'=' {
                    self.i += 1;
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.peek_word();
            match w {
                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "ptrtoint"
                | "getelementptr" | "splat" | "c" | "trunc" | "sub" | "add" | "bitcast" | "xor" | "shl" | "blockaddress"
                | "asm" | "ptrtoaddr" | "none" => return,
                _ => {}
            }
            self.word();
            if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.skip_parens();
            } else if w == "align" || w == "dereferenceable" {
                if self.peek().is_ascii_digit() {
                    self.num();
                }
            }
        }
    }
    fn sym_addr(&self, name: &str) -> u128 {
        let id = self.m.sym_id(name);
        let syms = self.m.syms.borrow();
        match &syms[id as usize].kind {
            SymKind::FuncDecl { weak: true } if !crate::ext::known_extern(name) => 0,
            _ => ((id as u128) + 1) << ADDR_SHIFT,
        }
    }
    fn fconst(&mut self, ty: &Ty) -> u128 {
        // hex or decimal float
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (is_idc(self.s[self.i]) || self.s[self.i] == b'+') {
            self.i += 1
        }
        if self.i < self.s.len() && self.s[self.i] == b'(' {
            // nan(0x...) payload
            while self.s[self.i] != b')' {
                self.i += 1
            }
            self.i += 1;
        }
        let t = unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) };
        let d = if let Some(h) = t.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).expect("fp const"))
        } else {
            if let Some(k) = t.find("nan") {
                let v = match t.find("(0x") {
                    Some(p) => u64::from_str_radix(t[p + 3..].trim_end_matches(')'), 16).expect("nan payload"),
                    None => 0,
                };
                let neg = t[..k].contains('-');
                return match ty {
                    Ty::Float => {
                        let p = if t.contains("snan") || v != 0 { v } else { 1 << 22 };
                        (0x7f80_0000u64 | p | if t.contains("+nan(") { 1 << 22 } else { 0 } | if neg { 1 << 31 } else { 0 }) as u128
                    }
                    _ => {
                        let p = if v != 0 { v } else { 1 << 51 };
                        (0x7ff0_0000_0000_0000u64 | p | if t.contains("+nan(") { 1 << 51 } else { 0 } | if neg { 1 << 63 } else { 0 }) as u128
                    }
                };
            }
            t.parse::<f64>().expect("fp const")
        };
        match ty {
            Ty::Float => (d as f32).to_bits() as u128,
            _ => d.to_bits() as u128,
        }
    }
    /// Parses a constant of the given type.
    fn konst(&mut self, ty: &Ty) -> Val {
        let c = self.peek();
        if c == b'@' {
            self.i += 1;
            let n = self.name();
            return Val::C(self.sym_addr(n));
        }
        if c == b'-' || c == b'+' || c.is_ascii_digit() {
            return match ty {
                Ty::Float | Ty::Double => Val::C(self.fconst(ty)),
                _ => Val::C(self.num() as u128 & mask(ty.bits())),
            };
        }
        match c {
            b'<' | b'{' | b'[' => {
                let mut closer: &str = match c {
                    b'<' => ">",
                    b'{' => "}",
                    _ => "]",
                };
                self.i += 1;
                if c == b'<' && self.peek() == b'{' {
                    self.i += 1;
                    closer = "}>";
                }
                let mut v = vec![];
                if self.eat(closer) {
                    return Val::A(Rc::new(v));
                }
                loop {
                    let t = self.ty();
                    v.push(self.konst(&t));
                    if self.eat(",") {
                        continue;
                    }
                    if closer == "}>" {
                        self.expect("}");
                        self.expect(">");
                    } else {
                        self.expect(closer);
                    }
                    break;
                }
                return Val::A(Rc::new(v));
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "null" | "none" => Val::C(0),
            "true" => Val::C(1),
            "false" => Val::C(0),
            "undef" | "poison" | "zeroinitializer" => zero_of(ty),
            "c" => {
                self.expect("\"");
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    let ch = self.s[self.i];
                    if ch == b'\\' && self.s[self.i + 1] == b'\\' {
                        v.push(Val::C(b'\\' as u128));
                        self.i += 2;
                    } else if ch == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(Val::C(u8::from_str_radix(h, 16).unwrap() as u128));
                        self.i += 3;
                    } else {
                        v.push(Val::C(ch as u128));
                        self.i += 1;
                    }
                }
                self.i += 1;
                Val::A(Rc::new(v))
            }
            "splat" => {
                self.expect("(");
                let t = self.ty();
                let v = self.konst(&t);
                self.expect(")");
                match ty {
                    Ty::Vec(n, _) => Val::A(Rc::new(vec![v; *n as usize])),
                    _ => v,
                }
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                self.expect("(");
                let t = self.ty();
                let v = self.konst(&t);
                self.expect("to");
                let t2 = self.ty();
                self.expect(")");
                match v {
                    Val::C(x) => Val::C(x & mask(t2.bits())),
                    v => v,
                }
            }
            "sub" | "add" | "xor" | "shl" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect("(");
                let t = self.ty();
                let a = self.konst(&t);
                self.expect(",");
                let t2 = self.ty();
                let b = self.konst(&t2);
                self.expect(")");
                let (a, b) = match (a, b) {
                    (Val::C(a), Val::C(b)) => (a, b),
                    _ => panic!("const expr"),
                };
                let m = mask(t.bits());
                Val::C(
                    match w {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "xor" => a ^ b,
                        _ => a << (b & 127),
                    } & m,
                )
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    let w = self.word();
                    if w.is_empty() {
                        panic!("gep const {:?}", self.rest())
                    }
                    if self.i < self.s.len() && self.s[self.i] == b'(' && w == "inrange" {
                        self.skip_parens();
                    }
                }
                self.expect("(");
                let t = self.ty();
                self.expect(",");
                let pt = self.ty();
                let base = match self.konst(&pt) {
                    Val::C(x) => x as i64,
                    _ => panic!(),
                };
                let mut idx = vec![];
                while self.eat(",") {
                    let it = self.ty();
                    match self.konst(&it) {
                        Val::C(x) => idx.push((Opnd::K(Val::C(x)), it.bits())),
                        _ => panic!(),
                    }
                }
                self.expect(")");
                let (off, sc) = gep_offset(&t, idx);
                assert!(sc.is_empty());
                Val::C(base.wrapping_add(off) as u64 as u128)
            }
            _ => panic!("const {:?} at {:?} in {}", w, &self.rest()[..self.rest().len().min(100)], String::from_utf8_lossy(&self.s[..self.s.len().min(300)])),
        }
    }
    fn opnd(&mut self, ty: &Ty) -> Opnd {
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            return Opnd::R(self.regs.unwrap().borrow_mut().get(n));
        }
        if *ty == Ty::Other {
            // metadata
            let mut d = 0i32;
            while self.i < self.s.len() {
                match self.s[self.i] {
                    b'(' | b'{' => d += 1,
                    b')' | b'}' if d == 0 => break,
                    b')' | b'}' => d -= 1,
                    b',' if d == 0 => break,
                    _ => {}
                }
                self.i += 1;
            }
            return Opnd::K(Val::C(0));
        }
        Opnd::K(self.konst(ty))
    }
    fn tyop(&mut self) -> (Ty, Opnd) {
        let t = self.ty();
        let o = self.opnd(&t);
        (t, o)
    }
    fn label(&mut self) -> &'static str {
        self.expect("label");
        self.expect("%");
        self.name()
    }
}

pub fn gep_offset(t: &Ty, idx: Vec<(Opnd, u32)>) -> (i64, Vec<(Opnd, u32, i64)>) {
    let mut off = 0i64;
    let mut sc = vec![];
    let mut cur = t.clone();
    for (n, (o, w)) in idx.into_iter().enumerate() {
        if n > 0 {
            match cur.clone() {
                Ty::Struct(_, f) => {
                    let k = match o {
                        Opnd::K(Val::C(k)) => k as usize,
                        _ => panic!("gep struct idx"),
                    };
                    off += cur.struct_layout().0[k] as i64;
                    cur = f[k].clone();
                    continue;
                }
                Ty::Array(_, e) => cur = (*e).clone(),
                Ty::Vec(_, e) => cur = (*e).clone(),
                _ => panic!("gep into {:?}", cur),
            }
        }
        let s = cur.size() as i64;
        match o {
            Opnd::K(Val::C(k)) => {
                let k = sext(k, w, 64) as i64;
                off = off.wrapping_add(k.wrapping_mul(s));
            }
            o => sc.push((o, w, s)),
        }
    }
    (off, sc)
}

pub fn sext(x: u128, from: u32, to: u32) -> u128 {
    let x = x & mask(from);
    if from < 128 && (x >> (from - 1)) & 1 == 1 {
        (x | !mask(from)) & mask(to)
    } else {
        x & mask(to)
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ir").into_boxed_str());
        let lines: Vec<&'static str> = text.split('\n').collect();
        let mut m = Module {
            lines,
            syms: RefCell::new(vec![]),
            by_name: RefCell::new(HashMap::new()),
            funcs: RefCell::new(HashMap::new()),
            types: RefCell::new(HashMap::new()),
            meta: HashMap::new(),
        };
        let mut i = 0;
        let mut pretty = String::new();
        let n = m.lines.len();
        let mut meta = HashMap::new();
        while i < n {
            let l = m.lines[i];
            let b = l.as_bytes();
            if b.is_empty() {
                i += 1;
                continue;
            }
            match b[0] {
                b';' => {
                    if !l.starts_with("; Function Attrs") {
                        pretty = l[1..].trim().to_string();
                    }
                }
                b'!' => {
                    if b.len() > 1 && b[1].is_ascii_digit() {
                        if let Some(e) = l.find(' ') {
                            if let Ok(k) = l[1..e].parse::<u32>() {
                                meta.insert(k, i);
                            }
                        }
                    }
                }
                b'%' => {
                    // named type
                    let mut p = P { s: b, i: 1, m: &m, regs: None };
                    let nm = p.name();
                    p.expect("=");
                    p.expect("type");
                    if p.peek_word() != "opaque" {
                        let t = p.ty();
                        m.types.borrow_mut().insert(nm.to_string(), t);
                    }
                }
                b'@' => {
                    let mut p = P { s: b, i: 1, m: &m, regs: None };
                    let nm = p.name();
                    p.expect("=");
                    let mut kind = SymKind::Unknown;
                    let mut weak = false;
                    loop {
                        let w = p.word();
                        if w.is_empty() {
                            if p.eat("(") {
                                // e.g. thread_local(...), comdat
                                let mut d = 1;
                                while d > 0 {
                                    match p.s[p.i] {
                                        b'(' => d += 1,
                                        b')' => d -= 1,
                                        _ => {}
                                    }
                                    p.i += 1;
                                }
                                continue;
                            }
                            break;
                        }
                        match w {
                            "extern_weak" => weak = true,
                            "global" | "constant" => {
                                kind = SymKind::Global { line: i, constant: w == "constant" };
                                break;
                            }
                            "alias" => {
                                kind = SymKind::Alias(i);
                                break;
                            }
                            _ => {}
                        }
                    }
                    let _ = weak;
                    m.add_sym(nm, kind);
                }
                b'd' if l.starts_with("declare ") => {
                    if let Some(at) = l.find('@') {
                        let mut p = P { s: b, i: at + 1, m: &m, regs: None };
                        let nm = p.name();
                        m.add_sym(nm, SymKind::FuncDecl { weak: l.starts_with("declare extern_weak") });
                    }
                }
                b'd' if l.starts_with("define ") => {
                    let at = l.find('@').unwrap();
                    let mut p = P { s: b, i: at + 1, m: &m, regs: None };
                    let nm = p.name();
                    let st = i;
                    while m.lines[i] != "}" {
                        i += 1
                    }
                    let pr = if pretty.is_empty() { nm.to_string() } else { std::mem::take(&mut pretty) };
                    m.add_sym(nm, SymKind::FuncDef { start: st, end: i, pretty: pr });
                }
                b'}' => {}
                _ => {}
            }
            if b[0] != b';' {
                pretty.clear();
            }
            i += 1;
        }
        m.meta = meta;
        m
    }
    fn add_sym(&self, n: &str, k: SymKind) -> u32 {
        if let Some(&i) = self.by_name.borrow().get(n) {
            let s = &mut self.syms.borrow_mut()[i as usize];
            if s.kind == SymKind::Unknown {
                s.kind = k;
            }
            return i;
        }
        let mut s = self.syms.borrow_mut();
        let i = s.len() as u32;
        s.push(Symbol { name: n.to_string(), kind: k });
        self.by_name.borrow_mut().insert(n.to_string(), i);
        i
    }
    pub fn sym_id(&self, n: &str) -> u32 {
        if let Some(&i) = self.by_name.borrow().get(n) {
            return i;
        }
        self.add_sym(n, SymKind::Unknown)
    }
    pub fn sym_name(&self, id: u32) -> String {
        self.syms.borrow()[id as usize].name.clone()
    }
    pub fn sym_kind(&self, id: u32) -> SymKind {
        self.syms.borrow()[id as usize].kind.clone()
    }
    pub fn pretty(&self, id: u32) -> String {
        match &self.syms.borrow()[id as usize].kind {
            SymKind::FuncDef { pretty, .. } => pretty.clone(),
            _ => self.syms.borrow()[id as usize].name.clone(),
        }
    }
    /// (type, initialiser) of a global
    pub fn global_init(&self, line: usize) -> (Ty, Option<Val>, bool) {
        let l = self.lines[line];
        let mut p = P { s: l.as_bytes(), i: 1, m: self, regs: None };
        p.name();
        p.expect("=");
        let mut ext = false;
        loop {
            let w = p.word();
            match w {
                "global" | "constant" => break,
                "external" | "extern_weak" => ext = true,
                "" => {
                    if p.peek() == b'(' {
                        p.skip_parens();
                    } else {
                        panic!("global {}", l)
                    }
                }
                _ => {}
            }
        }
        let t = p.ty();
        if ext {
            return (t, None, true);
        }
        let v = p.konst(&t);
        (t, Some(v), false)
    }

    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.borrow().get(&id) {
            return Some(f.clone());
        }
        let (st, en) = match &self.syms.borrow()[id as usize].kind {
            SymKind::FuncDef { start, end, .. } => (*start, *end),
            _ => return None,
        };
        let f = Rc::new(self.decode(id, st, en));
        self.funcs.borrow_mut().insert(id, f.clone());
        Some(f)
    }

    fn decode(&self, id: u32, st: usize, en: usize) -> Func {
        let regs = RefCell::new(RegMap::default());
        // SAFETY of lifetime: regs only lives in this call; use raw borrow
        let regs_ref: &RefCell<RegMap> = unsafe { &*(&regs as *const _) };
        let hdr = self.lines[st];
        let at = hdr.find('@').unwrap();
        let mut p = P { s: hdr.as_bytes(), i: at + 1, m: self, regs: Some(regs_ref) };
        let fname = p.name();
        p.expect("(");
        let mut params = vec![];
        let mut argno = 0u32;
        if p.peek() != b')' {
            loop {
                if p.eat("...") {
                    break;
                }
                let _t = p.ty();
                p.attrs();
                if p.peek() == b'%' {
                    p.i += 1;
                    let n = p.name();
                    params.push(regs.borrow_mut().get(n));
                } else {
                    // unnamed
                    let n: &'static str = Box::leak(argno.to_string().into_boxed_str());
                    params.push(regs.borrow_mut().get(n));
                }
                argno += 1;
                if !p.eat(",") {
                    break;
                }
            }
        }
        // block labels
        let mut labels: HashMap<&'static str, u32> = HashMap::new();
        let mut nb = 0u32;
        let is_label = |l: &'static str| -> Option<&'static str> {
            let b = l.as_bytes();
            if b.is_empty() || b[0] == b' ' || b[0] == b';' || b[0] == b'}' {
                return None;
            }
            if b[0] == b'"' {
                let e = l[1..].find('"')? + 1;
                return Some(&l[1..e]);
            }
            let e = l.find(':')?;
            Some(&l[..e])
        };
        for i in st + 1..en {
            if let Some(n) = is_label(self.lines[i]) {
                labels.insert(n, nb);
                nb += 1;
            } else if i == st + 1 {
                nb += 1; // implicit entry
            }
        }
        let lab = |n: &str| -> u32 { labels.get(n).copied().unwrap_or(0) };
        let mut blocks: Vec<Block> = vec![];
        let mut i = st + 1;
        while i < en {
            let l = self.lines[i];
            if let Some(n) = is_label(l) {
                blocks.push(Block { name: n.to_string(), phis: vec![], insts: vec![], dbg: vec![] });
                i += 1;
                continue;
            }
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with('#') {
                i += 1;
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Block { name: "entry".into(), phis: vec![], insts: vec![], dbg: vec![] });
            }
            // join multi-line instructions
            let mut text: &'static str = l;
            let joined = if t.starts_with("switch ") && !t.contains(']') {
                let mut s = l.to_string();
                loop {
                    i += 1;
                    s.push(' ');
                    s.push_str(self.lines[i].trim());
                    if self.lines[i].trim().starts_with(']') {
                        break;
                    }
                }
                Some(s)
            } else if t.starts_with("invoke ") || t.contains(" = invoke ") {
                let mut s = l.to_string();
                i += 1;
                s.push(' ');
                s.push_str(self.lines[i].trim());
                Some(s)
            } else if t.contains(" = landingpad ") {
                while i + 1 < en {
                    let nx = self.lines[i + 1].trim_start();
                    if nx.starts_with("cleanup") || nx.starts_with("catch ") || nx.starts_with("filter ") {
                        i += 1
                    } else {
                        break;
                    }
                }
                None
            } else {
                None
            };
            if let Some(s) = joined {
                text = Box::leak(s.into_boxed_str());
            }
            let dbg = text
                .rfind("!dbg !")
                .and_then(|k| {
                    let r = &text[k + 6..];
                    let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
                    r[..e].parse::<u32>().ok()
                })
                .unwrap_or(0);
            let b = blocks.last_mut().unwrap();
            let mut p = P { s: text.as_bytes(), i: 0, m: self, regs: Some(regs_ref) };
            let ins = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decode_inst(&mut p, &lab, b)));
            match ins {
                Ok(Some(x)) => {
                    if !matches!(x, Inst::Nop) {
                        b.insts.push(x);
                        b.dbg.push(dbg);
                    }
                }
                Ok(None) => {}
                Err(_) => {
                    b.insts.push(Inst::Unsupported(text.trim().chars().take(200).collect()));
                    b.dbg.push(0);
                }
            }
            i += 1;
        }
        let nregs = regs.borrow().map.len();
        Func { sym: id, name: fname.to_string(), params, nregs, blocks }
    }
}

fn decode_inst(p: &mut P, lab: &dyn Fn(&str) -> u32, blk: &mut Block) -> Option<Inst> {
    let mut d: Option<u32> = None;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        d = Some(p.regs.unwrap().borrow_mut().get(n));
        p.expect("=");
    }
    let w = p.word();
    let dd = d.unwrap_or(u32::MAX);
    let binop = match w {
        "add" => Some(BinOp::Add),
        "sub" => Some(BinOp::Sub),
        "mul" => Some(BinOp::Mul),
        "udiv" => Some(BinOp::UDiv),
        "sdiv" => Some(BinOp::SDiv),
        "urem" => Some(BinOp::URem),
        "srem" => Some(BinOp::SRem),
        "and" => Some(BinOp::And),
        "or" => Some(BinOp::Or),
        "xor" => Some(BinOp::Xor),
        "shl" => Some(BinOp::Shl),
        "lshr" => Some(BinOp::LShr),
        "ashr" => Some(BinOp::AShr),
        "fadd" => Some(BinOp::FAdd),
        "fsub" => Some(BinOp::FSub),
        "fmul" => Some(BinOp::FMul),
        "fdiv" => Some(BinOp::FDiv),
        "frem" => Some(BinOp::FRem),
        _ => None,
    };
    if let Some(op) = binop {
        while matches!(
            p.peek_word(),
            "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
        ) {
            p.word();
        }
        let (ty, a) = p.tyop();
        p.expect(",");
        let b = p.opnd(&ty);
        return Some(Inst::Bin { op, ty, d: dd, a, b });
    }
    let cast = match w {
        "zext" => Some(Cast::Zext),
        "sext" => Some(Cast::Sext),
        "trunc" => Some(Cast::Trunc),
        "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
        "inttoptr" => Some(Cast::IntToPtr),
        "bitcast" => Some(Cast::Bitcast),
        "uitofp" => Some(Cast::UiToFp),
        "sitofp" => Some(Cast::SiToFp),
        "fptoui" => Some(Cast::FpToUi),
        "fptosi" => Some(Cast::FpToSi),
        "fpext" => Some(Cast::FpExt),
        "fptrunc" => Some(Cast::FpTrunc),
        _ => None,
    };
    if let Some(k) = cast {
        while matches!(p.peek_word(), "nuw" | "nsw" | "nneg") {
            p.word();
        }
        let (from, a) = p.tyop();
        p.expect("to");
        let to = p.ty();
        return Some(Inst::Cast { k, from, to, d: dd, a });
    }
    Some(match w {
        "icmp" => {
            while p.peek_word() == "samesign" {
                p.word();
            }
            let pr = match p.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                x => panic!("pred {}", x),
            };
            let (ty, a) = p.tyop();
            p.expect(",");
            let b = p.opnd(&ty);
            Inst::Icmp { p: pr, ty, d: dd, a, b }
        }
        "fcmp" => {
            let pr = p.word().to_string();
            let (ty, a) = p.tyop();
            p.expect(",");
            let b = p.opnd(&ty);
            Inst::Fcmp { p: pr, ty, d: dd, a, b }
        }
        "fneg" => {
            let (ty, a) = p.tyop();
            Inst::FNeg { ty, d: dd, a }
        }
        "load" => {
            p.eat_word("atomic");
            p.eat_word("volatile");
            let ty = p.ty();
            p.expect(",");
            let (_, q) = p.tyop();
            Inst::Load { d: dd, ty, p: q }
        }
        "store" => {
            p.eat_word("atomic");
            p.eat_word("volatile");
            let (ty, v) = p.tyop();
            p.expect(",");
            let (_, q) = p.tyop();
            Inst::Store { ty, v, p: q }
        }
        "getelementptr" => {
            while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                p.word();
                if p.i < p.s.len() && p.s[p.i] == b'(' {
                    p.skip_parens();
                }
            }
            let t = p.ty();
            p.expect(",");
            let (_, base) = p.tyop();
            let mut idx = vec![];
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                let (it, o) = p.tyop();
                idx.push((o, it.bits()));
            }
            let (off, scaled) = gep_offset(&t, idx);
            Inst::Gep { d: dd, base, off, scaled }
        }
        "alloca" => {
            p.eat_word("inalloca");
            let t = p.ty();
            let mut n = None;
            if p.eat(",") && p.peek() == b'i' {
                let (_, o) = p.tyop();
                n = Some(o);
            }
            Inst::Alloca { d: dd, size: t.size(), n }
        }
        "select" => {
            let (cty, c) = p.tyop();
            p.expect(",");
            let (ty, a) = p.tyop();
            p.expect(",");
            let (_, b) = p.tyop();
            Inst::Select { d: dd, ty, cty, c, a, b }
        }
        "phi" => {
            let ty = p.ty();
            let mut v = vec![];
            loop {
                p.expect("[");
                let o = p.opnd(&ty);
                p.expect(",");
                p.expect("%");
                let l = p.name();
                p.expect("]");
                v.push((lab(l), o));
                if !p.eat(",") || p.peek() != b'[' {
                    break;
                }
            }
            blk.phis.push((dd, v));
            return None;
        }
        "br" => {
            if p.peek_word() == "label" {
                let l = p.label();
                Inst::Br(lab(l))
            } else {
                let (_, c) = p.tyop();
                p.expect(",");
                let t = p.label();
                p.expect(",");
                let f = p.label();
                Inst::CondBr { c, t: lab(t), f: lab(f) }
            }
        }
        "switch" => {
            let (ty, c) = p.tyop();
            p.expect(",");
            let def = lab(p.label());
            p.expect("[");
            let mut cases = vec![];
            while !p.eat("]") {
                let t = p.ty();
                let k = match p.konst(&t) {
                    Val::C(k) => k,
                    _ => panic!(),
                };
                p.expect(",");
                let l = p.label();
                cases.push((k, lab(l)));
            }
            Inst::Switch { c, w: ty.bits(), cases, def }
        }
        "ret" => {
            if p.eat_word("void") {
                Inst::Ret(None)
            } else {
                let (_, o) = p.tyop();
                Inst::Ret(Some(o))
            }
        }
        "unreachable" => Inst::Unreachable,
        "extractvalue" => {
            let (_, a) = p.tyop();
            let mut idx = vec![];
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                idx.push(p.num() as u32);
            }
            Inst::Extract { d: dd, a, idx }
        }
        "insertvalue" => {
            let (aty, a) = p.tyop();
            p.expect(",");
            let (_, v) = p.tyop();
            let mut idx = vec![];
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                idx.push(p.num() as u32);
            }
            Inst::Insert { d: dd, a, aty, v, idx }
        }
        "extractelement" => {
            let (_, a) = p.tyop();
            p.expect(",");
            let (_, i) = p.tyop();
            Inst::ExtractElem { d: dd, a, i }
        }
        "insertelement" => {
            let (aty, a) = p.tyop();
            p.expect(",");
            let (_, v) = p.tyop();
            p.expect(",");
            let (_, i) = p.tyop();
            Inst::InsertElem { d: dd, a, aty, v, i }
        }
        "shufflevector" => {
            let (aty, a) = p.tyop();
            p.expect(",");
            let (_, b) = p.tyop();
            p.expect(",");
            let mt = p.ty();
            let mk = p.konst(&mt);
            let mask = match mk {
                Val::A(v) => v
                    .iter()
                    .map(|x| match x {
                        Val::C(k) => *k as u32,
                        _ => 0,
                    })
                    .collect(),
                _ => panic!(),
            };
            let n = match &aty {
                Ty::Vec(n, _) => *n,
                _ => panic!(),
            };
            Inst::Shuffle { d: dd, a, b, n, aty, mask }
        }
        "atomicrmw" => {
            p.eat_word("volatile");
            let op = p.word().to_string();
            let (_, q) = p.tyop();
            p.expect(",");
            let (ty, v) = p.tyop();
            Inst::Rmw { d: dd, op, ty, p: q, v }
        }
        "cmpxchg" => {
            p.eat_word("weak");
            p.eat_word("volatile");
            let (_, q) = p.tyop();
            p.expect(",");
            let (ty, c) = p.tyop();
            p.expect(",");
            let (_, n) = p.tyop();
            Inst::CmpXchg { d: dd, ty, p: q, c, n }
        }
        "fence" => Inst::Nop,
        "freeze" => {
            let (ty, a) = p.tyop();
            Inst::Move { d: dd, a, ty }
        }
        "landingpad" => Inst::Unsupported("landingpad reached".into()),
        "resume" => Inst::Unsupported("resume reached".into()),
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            let mut w2 = w;
            if w2 != "call" && w2 != "invoke" {
                w2 = p.word();
            }
            let inv = w2 == "invoke";
            // fast-math, cc, ret attrs
            loop {
                let pw = p.peek_word();
                match pw {
                    "fastcc" | "coldcc" | "ccc" | "noundef" | "zeroext" | "signext" | "noalias" | "nonnull" | "nnan"
                    | "ninf" | "nsz" | "fast" | "contract" | "afn" | "reassoc" | "arcp" | "inreg" | "preserve_mostcc" => {
                        p.word();
                    }
                    "align" => {
                        p.word();
                        if p.peek() == b'(' {
                            p.skip_parens();
                        } else {
                            p.num();
                        }
                    }
                    "range" | "dereferenceable" | "dereferenceable_or_null" | "captures" | "nofpclass" | "noext" => {
                        p.word();
                        if p.peek() == b'(' {
                            p.skip_parens();
                        }
                    }
                    _ => break,
                }
            }
            let ret = p.ty();
            if p.peek() == b'(' {
                p.skip_parens();
            }
            let callee;
            if p.peek_word() == "asm" {
                // only the empty compiler barrier is supported
                p.word();
                while matches!(p.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") {
                    p.word();
                }
                if p.s[p.i..].windows(5).take(120).any(|w| w == b"cpuid") {
                    // a processor without optional features
                    return d.map(|d| Inst::Move { d, a: Opnd::K(zero_of(&ret)), ty: ret });
                }
                p.expect("\"\"");
                p.expect(",");
                p.expect("\"");
                while p.s[p.i] != b'"' {
                    p.i += 1
                }
                p.i += 1;
                callee = Callee::AsmNop;
            } else if p.peek() == b'@' {
                p.i += 1;
                let n = p.name();
                callee = Callee::Direct(p.m.sym_id(n));
                if n.starts_with("llvm.lifetime.")
                    || n == "llvm.experimental.noalias.scope.decl"
                    || n.starts_with("llvm.dbg.")
                    || n == "llvm.donothing"
                    || n.starts_with("llvm.prefetch")
                    || n.starts_with("llvm.x86.sse2.pause")
                {
                    return Some(Inst::Nop);
                }
            } else {
                let o = p.opnd(&Ty::Ptr);
                callee = Callee::Indirect(o);
            }
            p.expect("(");
            let mut args = vec![];
            let mut atys = vec![];
            if p.peek() != b')' {
                loop {
                    let t = p.ty();
                    p.attrs();
                    let o = p.opnd(&t);
                    args.push(o);
                    atys.push(t);
                    if !p.eat(",") {
                        break;
                    }
                }
            }
            p.expect(")");
            let mut normal = None;
            if inv {
                let r = p.rest();
                let k = r.find("to label %").expect("invoke normal");
                p.i += k + 3;
                normal = Some(lab(p.label()));
            }
            Inst::Call { d, callee, args, atys, ret, normal }
        }
        _ => panic!("inst {}", w),
    })
}
