//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub const HEAP: u32 = 0x0100_0000;
pub const STACK: u32 = 0x4000_0000;
const CH: usize = 64;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<Id>, // empty when fully concrete
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: vec![] }
    }
}

#[derive(Clone, Default)]
pub struct Region {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub len: usize,
}
impl Region {
    fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(i / CH)?.get(i % CH)?.as_ref()
    }
    fn slot(&mut self, i: usize) -> &mut Option<Rc<Obj>> {
        while self.chunks.len() <= i / CH {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        &mut Rc::make_mut(&mut self.chunks[i / CH])[i % CH]
    }
    fn push(&mut self, o: Obj) -> usize {
        let i = self.len;
        *self.slot(i) = Some(Rc::new(o));
        self.len += 1;
        i
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub bb: u32,
    pub ip: u32,
    pub stack_base: usize,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub globals: HashMap<u32, Rc<Obj>>,
    pub heap: Region,
    pub stack: Region,
    pub pc: Vec<Id>,
    pub model: Rc<Vec<u128>>,
    pub draws: Vec<(u32, Id)>, // width, value expr
    pub steps: u64,
    pub clock: u64,
    pub errno: u64,
    pub fs: Rc<crate::fs::Fs>,
    pub forks: u32,
    pub marks: Vec<u32>,
    pub notes: Vec<Rc<String>>,
}

#[derive(Debug)]
pub enum Stop {
    Forked,
    /// path finished normally
    Done,
    /// path infeasible (assume)
    Infeasible,
    Panic(String),
    /// the engine cannot continue: inconclusive
    Error(String),
}

pub type R<T> = Result<T, Stop>;

pub enum BRet {
    Val(Val),
    Void,
    Multi(Vec<(Id, Val)>),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub id: String,
    pub kind: String,
    pub draws: Vec<(u32, u128)>,
    pub notes: Vec<String>,
    pub stack: Vec<String>,
}

pub struct Engine {
    pub m: Module,
    pub c: Ctx,
    pub s: Solver,
    pub gbase: HashMap<u32, Rc<Obj>>,
    pub work: Vec<State>,
    pub kinds: Vec<u8>, // per symbol: 0 unknown 1 defined 2 panic 3 builtin
    pub violations: Vec<Violation>,
    pub vio_count: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, (u64, u64)>, // id -> (solver-decided, constant)
    pub errors: BTreeMap<String, u64>,
    pub paths: u64,
    pub paths_done: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub exec_syms: HashSet<u32>,
    pub exec_dbg: Vec<bool>,
    pub args: Vec<u64>,
    pub concrete: Option<Vec<u128>>,
    pub out: Vec<u8>,
    pub trace: bool,
    pub max_steps: u64,
    pub deadline: Option<Instant>,
    pub max_paths: u64,
    pub timed_out: bool,
    pub samples: Vec<Vec<(u32, u128)>>,
    pub prof: HashMap<(u32, u32), u64>,
    pub profq: bool,
    pub names: HashMap<u32, Rc<str>>,
    pub enum_limit: usize,
    pub max_vio: usize,
    pub vacuous_asserts: u64,
}

fn lanes(v: &Val) -> Rc<Vec<Val>> {
    match v {
        Val::A(a) => a.clone(),
        _ => panic!("lanes"),
    }
}

impl Engine {
    pub fn new(m: Module, s: Solver) -> Engine {
        let nm = m.lines.len();
        let _ = nm;
        Engine {
            m,
            c: Ctx::new(),
            s,
            gbase: HashMap::new(),
            work: vec![],
            kinds: vec![],
            violations: vec![],
            vio_count: BTreeMap::new(),
            reach: BTreeMap::new(),
            checks: BTreeMap::new(),
            errors: BTreeMap::new(),
            paths: 0,
            paths_done: 0,
            infeasible: 0,
            steps: 0,
            forks: 0,
            exec_syms: HashSet::new(),
            exec_dbg: vec![],
            args: vec![],
            concrete: None,
            out: vec![],
            trace: false,
            max_steps: 200_000_000,
            deadline: None,
            max_paths: u64::MAX,
            timed_out: false,
            samples: vec![],
            prof: HashMap::new(),
            profq: std::env::var_os("SYMX_PROFQ").is_some(),
            names: HashMap::new(),
            enum_limit: 2048,
            max_vio: 12,
            vacuous_asserts: 0,
        }
    }

    pub fn name(&mut self, s: u32) -> Rc<str> {
        if let Some(n) = self.names.get(&s) {
            return n.clone();
        }
        let n: Rc<str> = self.m.sym_name(s).into();
        self.names.insert(s, n.clone());
        n
    }

    pub fn expr(&mut self, v: &Val, w: u32) -> Id {
        match v {
            Val::C(k) => self.c.konst(w, *k),
            Val::S(e) => *e,
            Val::A(_) => panic!("expr of aggregate"),
        }
    }
    pub fn val(&self, e: Id) -> Val {
        match self.c.cv(e) {
            Some(k) => Val::C(k),
            None => Val::S(e),
        }
    }

    // ------------------------------------------------------------ memory
    fn global_obj(&mut self, id: u32) -> Option<Rc<Obj>> {
        if let Some(o) = self.gbase.get(&id) {
            return Some(o.clone());
        }
        let line = match self.m.sym_kind(id) {
            SymKind::Global { line, .. } => line,
            _ => return None,
        };
        let (t, v, _ext) = self.m.global_init(line);
        let mut o = Obj::new(t.size() as usize);
        if let Some(v) = v {
            write_const(&mut o.data, 0, &t, &v);
        }
        let o = Rc::new(o);
        self.gbase.insert(id, o.clone());
        Some(o)
    }
    pub fn obj(&mut self, st: &State, addr: u64) -> R<(Rc<Obj>, usize)> {
        let id = (addr >> ADDR_SHIFT) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        if id >= STACK {
            if let Some(o) = st.stack.get((id - STACK) as usize) {
                return Ok((o.clone(), off));
            }
        } else if id >= HEAP {
            if let Some(o) = st.heap.get((id - HEAP) as usize) {
                return Ok((o.clone(), off));
            }
        } else if id > 0 {
            if let Some(o) = st.globals.get(&(id - 1)) {
                return Ok((o.clone(), off));
            }
            if let Some(o) = self.global_obj(id - 1) {
                return Ok((o, off));
            }
        }
        Err(Stop::Error(format!("invalid address {:#x}", addr)))
    }
    fn with_mut<T>(&mut self, st: &mut State, addr: u64, n: usize, f: impl FnOnce(&mut Obj, usize) -> T) -> R<T> {
        let id = (addr >> ADDR_SHIFT) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let slot: &mut Rc<Obj> = if id >= STACK {
            match st.stack.get((id - STACK) as usize) {
                Some(_) => st.stack.slot((id - STACK) as usize).as_mut().unwrap(),
                None => return Err(Stop::Error(format!("store to dead stack {:#x}", addr))),
            }
        } else if id >= HEAP {
            match st.heap.get((id - HEAP) as usize) {
                Some(_) => st.heap.slot((id - HEAP) as usize).as_mut().unwrap(),
                None => return Err(Stop::Error(format!("store to freed heap {:#x}", addr))),
            }
        } else if id > 0 {
            if !st.globals.contains_key(&(id - 1)) {
                match self.global_obj(id - 1) {
                    Some(o) => {
                        st.globals.insert(id - 1, o);
                    }
                    None => return Err(Stop::Error(format!("store to {:#x}", addr))),
                }
            }
            st.globals.get_mut(&(id - 1)).unwrap()
        } else {
            return Err(Stop::Error(format!("store to null page {:#x}", addr)));
        };
        if off + n > slot.data.len() {
            return Err(Stop::Error(format!("out-of-bounds store {:#x}+{} size {}", addr, n, slot.data.len())));
        }
        Ok(f(Rc::make_mut(slot), off))
    }
    pub fn alloc(&mut self, st: &mut State, n: usize) -> u64 {
        let i = st.heap.push(Obj::new(n));
        ((HEAP + i as u32) as u64) << ADDR_SHIFT
    }
    pub fn free(&mut self, st: &mut State, addr: u64) -> R<()> {
        if addr == 0 {
            return Ok(());
        }
        let id = (addr >> ADDR_SHIFT) as u32;
        if id < HEAP || id >= STACK || addr & 0xffff_ffff != 0 {
            return Err(Stop::Error(format!("bad free {:#x}", addr)));
        }
        let s = st.heap.slot((id - HEAP) as usize);
        if s.is_none() {
            return Err(Stop::Error(format!("double free {:#x}", addr)));
        }
        *s = None;
        Ok(())
    }
    pub fn load_byte(o: &Obj, off: usize) -> (u8, Id) {
        if o.sym.is_empty() {
            (o.data[off], 0)
        } else {
            (o.data[off], o.sym[off])
        }
    }
    pub fn byte_id(&mut self, o: &Obj, off: usize) -> Id {
        let (b, s) = Self::load_byte(o, off);
        if s != 0 {
            s
        } else {
            self.c.konst(8, b as u128)
        }
    }
    pub fn load_n(&mut self, st: &State, addr: u64, n: usize) -> R<Val> {
        if n == 0 {
            return Ok(Val::C(0));
        }
        let (o, off) = self.obj(st, addr)?;
        if off + n > o.data.len() {
            return Err(Stop::Error(format!("out-of-bounds load {:#x}+{} size {}", addr, n, o.data.len())));
        }
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = v << 8 | o.data[off + i] as u128;
            }
            return Ok(Val::C(v));
        }
        let mut e = self.byte_id(&o, off);
        for i in 1..n {
            let b = self.byte_id(&o, off + i);
            e = self.c.concat(b, e);
        }
        Ok(self.val(e))
    }
    pub fn store_n(&mut self, st: &mut State, addr: u64, n: usize, v: &Val) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        match v {
            Val::C(k) => {
                let k = *k;
                self.with_mut(st, addr, n, |o, off| {
                    for i in 0..n {
                        o.data[off + i] = (k >> (8 * i)) as u8;
                    }
                    if !o.sym.is_empty() {
                        for i in 0..n {
                            o.sym[off + i] = 0;
                        }
                    }
                })
            }
            Val::S(e) => {
                let w = self.c.w(*e);
                let e = if (w as usize) < n * 8 { self.c.zext(*e, n as u32 * 8) } else { *e };
                let mut bs = Vec::with_capacity(n);
                for i in 0..n as u32 {
                    let b = self.c.extract(e, i * 8 + 7, i * 8);
                    bs.push((b, self.c.cv(b)));
                }
                self.with_mut(st, addr, n, |o, off| {
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.data.len()];
                    }
                    for (i, (b, k)) in bs.iter().enumerate() {
                        match k {
                            Some(k) => {
                                o.data[off + i] = *k as u8;
                                o.sym[off + i] = 0;
                            }
                            None => o.sym[off + i] = *b,
                        }
                    }
                })
            }
            Val::A(_) => panic!("store_n agg"),
        }
    }
    pub fn load(&mut self, st: &State, ty: &Ty, addr: u64) -> R<Val> {
        match ty {
            Ty::Int(w) => {
                let n = ty.store_size() as usize;
                let v = self.load_n(st, addr, n)?;
                if *w as usize == n * 8 {
                    return Ok(v);
                }
                Ok(match v {
                    Val::C(k) => Val::C(k & mask(*w)),
                    Val::S(e) => {
                        let t = self.c.trunc(e, *w);
                        self.val(t)
                    }
                    v => v,
                })
            }
            Ty::Ptr | Ty::Double => self.load_n(st, addr, 8),
            Ty::Float => self.load_n(st, addr, 4),
            Ty::Vec(n, t) => {
                let s = t.bits() as u64;
                if s % 8 != 0 {
                    let w = *n as u32 * s as u32;
                    if w % 8 != 0 || w > 128 {
                        return Err(Stop::Error("load of bit vector".into()));
                    }
                    let x = self.load_n(st, addr, w as usize / 8)?;
                    return self.cast(Cast::Bitcast, &Ty::Int(w), ty, &x);
                }
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.load(st, t, addr + i * s / 8)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Array(n, t) => {
                let s = t.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, t, addr + i * s)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(_, f) => {
                let (o, _) = ty.struct_layout();
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() {
                    v.push(self.load(st, t, addr + o[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            t => Err(Stop::Error(format!("load {:?}", t))),
        }
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, addr: u64, v: &Val) -> R<()> {
        match ty {
            Ty::Int(_) => {
                let n = ty.store_size() as usize;
                self.store_n(st, addr, n, v)
            }
            Ty::Ptr | Ty::Double => self.store_n(st, addr, 8, v),
            Ty::Float => self.store_n(st, addr, 4, v),
            Ty::Vec(n, t) => {
                let s = t.bits() as u64;
                if s % 8 != 0 {
                    let w = *n as u32 * s as u32;
                    if w % 8 != 0 || w > 128 {
                        return Err(Stop::Error("store of bit vector".into()));
                    }
                    let x = self.cast(Cast::Bitcast, ty, &Ty::Int(w), v)?;
                    return self.store_n(st, addr, w as usize / 8, &x);
                }
                let l = lanes(v);
                for i in 0..*n as u64 {
                    self.store(st, t, addr + i * s / 8, &l[i as usize])?;
                }
                Ok(())
            }
            Ty::Array(n, t) => {
                let s = t.size();
                let l = lanes(v);
                for i in 0..*n {
                    self.store(st, t, addr + i * s, &l[i as usize])?;
                }
                Ok(())
            }
            Ty::Struct(_, f) => {
                let (o, _) = ty.struct_layout();
                let l = lanes(v);
                for (i, t) in f.iter().enumerate() {
                    self.store(st, t, addr + o[i], &l[i])?;
                }
                Ok(())
            }
            t => Err(Stop::Error(format!("store {:?}", t))),
        }
    }
    /// Copies n bytes.
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj(st, src)?;
        if off + n > o.data.len() {
            return Err(Stop::Error(format!("out-of-bounds memcpy read {:#x}+{} size {}", src, n, o.data.len())));
        }
        let has = !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0);
        self.with_mut(st, dst, n, |d, doff| {
            d.data[doff..doff + n].copy_from_slice(&o.data[off..off + n]);
            if has {
                if d.sym.is_empty() {
                    d.sym = vec![0; d.data.len()];
                }
                d.sym[doff..doff + n].copy_from_slice(&o.sym[off..off + n]);
            } else if !d.sym.is_empty() {
                for x in &mut d.sym[doff..doff + n] {
                    *x = 0
                }
            }
        })
    }
    pub fn bytes_at(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.obj(st, addr)?;
        if off + n > o.data.len() {
            return Err(Stop::Error("bytes_at out of bounds".into()));
        }
        if !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0) {
            return Err(Stop::Error("symbolic bytes where concrete ones are needed".into()));
        }
        Ok(o.data[off..off + n].to_vec())
    }
    pub fn ids_at(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<Id>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.obj(st, addr)?;
        if off + n > o.data.len() {
            return Err(Stop::Error(format!("out-of-bounds compare {:#x}+{} size {}", addr, n, o.data.len())));
        }
        Ok((0..n).map(|i| self.byte_id(&o, off + i)).collect())
    }

    // ------------------------------------------------- path condition
    fn slice(&self, pc: &[Id], vars: u128) -> (Vec<Id>, u128) {
        let mut v = vars;
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &e) in pc.iter().enumerate() {
                let ev = self.c.vars_of(e);
                if !used[i] && ev & v != 0 {
                    used[i] = true;
                    out.push(e);
                    if ev & !v != 0 {
                        v |= ev;
                        ch = true;
                    }
                }
            }
            if !ch {
                return (out, v);
            }
        }
    }
    /// Is pc && cond satisfiable?  Returns a full model.
    pub fn sat(&mut self, st: &State, cond: Id, cross: bool) -> R<Option<Rc<Vec<u128>>>> {
        if let Some(k) = self.c.cv(cond) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        if !cross {
            if self.c.eval(cond, &st.model) == 1 {
                self.s.stats.model_hits += 1;
                return Ok(Some(st.model.clone()));
            }
            if st.pc.contains(&cond) {
                return Ok(Some(st.model.clone()));
            }
            let nc = self.c.not(cond);
            if st.pc.contains(&nc) {
                return Ok(None);
            }
        }
        if self.profq {
            let fr = st.frames.last().unwrap();
            *self.prof.entry((fr.f.sym, fr.bb)).or_default() += 1;
        }
        let (mut cs, vars) = self.slice(&st.pc, self.c.vars_of(cond));
        cs.push(cond);
        match self.s.check(&mut self.c, &cs, cross) {
            Answer::Sat(m) => {
                let mut nm = (*st.model).clone();
                nm.resize(self.c.var_w.len().max(nm.len()), 0);
                for i in 0..self.c.var_w.len() {
                    if vars >> i & 1 == 1 {
                        nm[i] = m.get(i).copied().unwrap_or(0);
                    }
                }
                Ok(Some(Rc::new(nm)))
            }
            Answer::Unsat => Ok(None),
            Answer::Unknown(e) => Err(Stop::Error(format!("solver: {}", e))),
        }
    }
    /// Adds a constraint known to be consistent; `model` satisfies pc && e.
    pub fn add(&mut self, st: &mut State, e: Id, model: Rc<Vec<u128>>) {
        st.model = model;
        self.add_rec(st, e);
    }
    fn add_rec(&mut self, st: &mut State, e: Id) {
        if self.c.cv(e).is_some() {
            return;
        }
        let n = self.c.n(e);
        if n.op == Op::And {
            self.add_rec(st, n.a);
            self.add_rec(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let m = self.c.n(n.a);
            if m.op == Op::Or {
                let x = self.c.not(m.a);
                let y = self.c.not(m.b);
                self.add_rec(st, x);
                self.add_rec(st, y);
                return;
            }
        }
        if !st.pc.contains(&e) {
            st.pc.push(e);
        }
    }
    /// Decides a 1-bit condition on this path, forking when both are possible.
    /// With `reexec`, the other state repeats the current instruction.
    pub fn decide(&mut self, st: &mut State, cond: Id) -> R<(bool, Option<State>)> {
        if let Some(k) = self.c.cv(cond) {
            return Ok((k == 1, None));
        }
        let nc = self.c.not(cond);
        if st.pc.contains(&cond) {
            return Ok((true, None));
        }
        if st.pc.contains(&nc) {
            return Ok((false, None));
        }
        let cur = self.c.eval(cond, &st.model) == 1;
        let (here, other) = if cur { (cond, nc) } else { (nc, cond) };
        let om = self.sat(st, other, false)?;
        match om {
            None => {
                // implied: keep it, it helps later syntactic checks
                Ok((cur, None))
            }
            Some(m) => {
                self.forks += 1;
                st.forks += 1;
                if std::env::var_os("SYMX_PROF").is_some() {
                    let fr = st.frames.last().unwrap();
                    *self.prof.entry((fr.f.sym, fr.bb)).or_default() += 1;
                }
                let mut o = st.clone();
                self.add(&mut o, other, m);
                let cm = st.model.clone();
                self.add(st, here, cm);
                Ok((cur, Some(o)))
            }
        }
    }
    /// Concretises a value; forks when several values are possible.
    pub fn concretize(&mut self, st: &mut State, v: &Val, what: &str) -> R<u128> {
        let e = match v {
            Val::C(k) => return Ok(*k),
            Val::S(e) => *e,
            _ => return Err(Stop::Error("concretize aggregate".into())),
        };
        let w = self.c.w(e);
        let cur = self.c.eval(e, &st.model);
        let k = self.c.konst(w, cur);
        let eq = self.c.eq(e, k);
        let ne = self.c.not(eq);
        if self.c.cv(eq) == Some(1) || st.pc.contains(&eq) {
            return Ok(cur);
        }
        if self.sat(st, ne, false)?.is_none() {
            return Ok(cur);
        }
        // enumerate
        let mut outs: Vec<State> = vec![];
        let mut blocked: Vec<Id> = vec![];
        let mut s0 = st.clone();
        let m0 = st.model.clone();
        self.add(&mut s0, eq, m0);
        outs.push(s0);
        blocked.push(ne);
        loop {
            let mut probe = st.clone();
            let mut conj = blocked[0];
            for b in &blocked[1..] {
                conj = self.c.and(conj, *b);
            }
            let m = self.sat(&probe, conj, false)?;
            match m {
                None => break,
                Some(m) => {
                    let x = self.c.eval(e, &m);
                    let k = self.c.konst(w, x);
                    let eq = self.c.eq(e, k);
                    self.add(&mut probe, eq, m);
                    outs.push(probe);
                    let ne = self.c.not(eq);
                    blocked.push(ne);
                    if outs.len() > self.enum_limit {
                        return Err(Stop::Error(format!("too many values for {}", what)));
                    }
                }
            }
        }
        self.forks += outs.len() as u64 - 1;
        if std::env::var_os("SYMX_PROF").is_some() {
            let fr = st.frames.last().unwrap();
            *self.prof.entry((fr.f.sym, fr.bb)).or_default() += outs.len() as u64;
        }
        for o in outs {
            self.work.push(o);
        }
        Err(Stop::Forked)
    }
    /// Floating point is not encoded: a symbolic operand is split by value.
    fn pin(&mut self, st: &mut State, v: Val) -> R<Val> {
        Ok(match v {
            Val::S(_) => Val::C(self.concretize(st, &v, "float operand")?),
            v => v,
        })
    }
    pub fn addr(&mut self, st: &mut State, v: &Val, what: &str) -> R<u64> {
        Ok(self.concretize(st, v, what)? as u64)
    }

    /// Load through a symbolic address.
    pub fn load_sym(&mut self, st: &mut State, ty: &Ty, e: Id) -> R<Val> {
        let vs = self.c.vars_of(e);
        if !ty.is_scalar() {
            return self.load_sym_multi(st, ty, e);
        }
        let vi = vs.trailing_zeros() as usize;
        let single = vs.count_ones() == 1 && self.c.var_w[vi] == 8;
        let var = if single {
            self.c.nodes.iter().position(|n| n.op == Op::Var && n.k == vi as u128).unwrap() as Id
        } else {
            match self.c.pivot(e) {
                Some(p) => p,
                None => return self.load_sym_multi(st, ty, e),
            }
        };
        // feasible values of the byte, over-approximated by its own constraints
        let own: Vec<Id> = if single {
            st.pc.iter().copied().filter(|x| self.c.vars_of(*x) == vs).collect()
        } else {
            let cand: Vec<Id> = st.pc.iter().copied().filter(|x| self.c.vars_of(*x) == vs).collect();
            cand.into_iter().filter(|x| self.c.pivot(*x) == Some(var)).collect()
        };
        let m = (*st.model).clone();
        let mut vals: Vec<Option<Val>> = vec![None; 256];
        let mut sym = false;
        for b in 0..256u32 {
            self.c.new_epoch();
            self.c.preset(var, b as u128);
            if own.iter().any(|x| self.c.eval_more(*x, &m) != 1) {
                continue;
            }
            let a = self.c.eval_more(e, &m) as u64;
            match self.load(st, ty, a) {
                Ok(v) => {
                    if let Val::S(_) = v {
                        sym = true
                    }
                    vals[b as usize] = Some(v)
                }
                Err(Stop::Error(x)) => {
                    // must be infeasible under the full path condition
                    let k = self.c.konst(8, b as u128);
                    let eq = self.c.eq(var, k);
                    if self.sat(st, eq, false)?.is_some() {
                        return Err(Stop::Error(x));
                    }
                }
                Err(x) => return Err(x),
            }
        }
        let w = ty.bits();
        if !sym && w <= 64 {
            let mut t = [0u64; 256];
            let mut last = vals.iter().flatten().next().map(|v| if let Val::C(k) = v { *k as u64 } else { 0 }).unwrap_or(0);
            for b in 0..256 {
                if let Some(Val::C(k)) = &vals[b] {
                    last = *k as u64;
                }
                t[b] = last;
            }
            let r = self.c.lut(var, w, t);
            return Ok(self.val(r));
        }
        // ite chain over distinct addresses
        let mut r: Option<Id> = None;
        for b in 0..256 {
            if let Some(v) = &vals[b] {
                let x = self.expr(&v.clone(), w);
                r = Some(match r {
                    None => x,
                    Some(o) => {
                        let k = self.c.konst(8, b as u128);
                        let q = self.c.eq(var, k);
                        self.c.ite(q, x, o)
                    }
                });
            }
        }
        match r {
            Some(r) => Ok(self.val(r)),
            None => Err(Stop::Infeasible),
        }
    }
    fn load_sym_multi(&mut self, st: &mut State, ty: &Ty, e: Id) -> R<Val> {
        // Same object for every feasible address?  Then select over the object.
        if ty.is_scalar() && !matches!(self.c.n(e).op, Op::Ite) {
            let cur = self.c.eval(e, &st.model.clone()) as u64;
            if let Ok((o, _)) = self.obj(st, cur) {
                let base = (cur >> ADDR_SHIFT) << ADDR_SHIFT;
                let n = ty.store_size() as usize;
                let len = o.data.len();
                if len >= n && len <= 8192 {
                    let b = self.c.konst(64, base as u128);
                    let off = self.c.sub(e, b);
                    let lim = self.c.konst(64, (len - n + 1) as u128);
                    let inb = self.c.ult(off, lim);
                    let oob = self.c.not(inb);
                    if self.sat(st, oob, false)?.is_none() {
                        // stride: known zero low bits
                        let tz = (!self.c.kz[off as usize]).trailing_zeros().min(4);
                        let step = 1usize << tz;
                        let mut vals = vec![];
                        let mut i = 0;
                        while i + n <= len {
                            let v = self.load(st, ty, base + i as u64)?;
                            vals.push((i, self.expr(&v, ty.bits())));
                            i += step;
                        }
                        let r = self.mux(off, &vals);
                        return Ok(self.val(r));
                    }
                }
            }
        }
        let a = self.addr(st, &Val::S(e), "load address")?;
        self.load(st, ty, a)
    }
    fn mux(&mut self, off: Id, vals: &[(usize, Id)]) -> Id {
        // runs
        let mut runs: Vec<(usize, Id)> = vec![];
        for &(i, v) in vals {
            if runs.last().map(|x| x.1) != Some(v) {
                runs.push((i, v));
            }
        }
        self.mux_rec(off, &runs)
    }
    fn mux_rec(&mut self, off: Id, runs: &[(usize, Id)]) -> Id {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let m = runs.len() / 2;
        let lo = self.mux_rec(off, &runs[..m]);
        let hi = self.mux_rec(off, &runs[m..]);
        let k = self.c.konst(64, runs[m].0 as u128);
        let c = self.c.ult(off, k);
        self.c.ite(c, lo, hi)
    }

    // ---------------------------------------------------------- scalars
    /// Integers of 129 to 256 bits: a low and a high half of 128 bits. Only
    /// what std's 128-bit formatting needs.
    fn wide_bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        let no = || Stop::Error(format!("{:?} of {} bits", op, w));
        if w != 256 {
            return Err(no());
        }
        let half = |v: &Val| -> R<(Val, Val)> {
            match v {
                Val::C(k) => Ok((Val::C(*k), Val::C(0))),
                Val::A(l) if l.len() == 2 => Ok((l[0].clone(), l[1].clone())),
                _ => Err(no()),
            }
        };
        let ((al, ah), (bl, bh)) = (half(a)?, half(b)?);
        let zero = |v: &Val| matches!(v, Val::C(0));
        let (lo, hi) = match op {
            BinOp::And | BinOp::Or | BinOp::Xor => (self.bin(op, 128, &al, &bl)?, self.bin(op, 128, &ah, &bh)?),
            BinOp::Add => {
                let lo = self.bin(op, 128, &al, &bl)?;
                let c = self.icmp(Pred::Ult, 128, &lo, &al);
                let c = self.cast(Cast::Zext, &Ty::Int(1), &Ty::Int(128), &c)?;
                let h = self.bin(op, 128, &ah, &bh)?;
                (lo, self.bin(op, 128, &h, &c)?)
            }
            BinOp::Mul if zero(&ah) && zero(&bh) => {
                // schoolbook with 64-bit digits
                let m = Val::C(mask(64));
                let k = Val::C(64);
                let mut p = |en: &mut Self, op, x: &Val, y: &Val| en.bin(op, 128, x, y);
                let (a0, a1) = (p(self, BinOp::And, &al, &m)?, p(self, BinOp::LShr, &al, &k)?);
                let (b0, b1) = (p(self, BinOp::And, &bl, &m)?, p(self, BinOp::LShr, &bl, &k)?);
                let (p00, p01) = (p(self, BinOp::Mul, &a0, &b0)?, p(self, BinOp::Mul, &a0, &b1)?);
                let (p10, p11) = (p(self, BinOp::Mul, &a1, &b0)?, p(self, BinOp::Mul, &a1, &b1)?);
                let mut mid = p(self, BinOp::LShr, &p00, &k)?;
                for x in [&p01, &p10] {
                    let l = p(self, BinOp::And, x, &m)?;
                    mid = p(self, BinOp::Add, &mid, &l)?;
                }
                let low = p(self, BinOp::And, &p00, &m)?;
                let up = p(self, BinOp::Shl, &mid, &k)?;
                let lo = p(self, BinOp::Or, &low, &up)?;
                let mut hi = p(self, BinOp::LShr, &mid, &k)?;
                for x in [&p01, &p10] {
                    let h = p(self, BinOp::LShr, x, &k)?;
                    hi = p(self, BinOp::Add, &hi, &h)?;
                }
                (lo, p(self, BinOp::Add, &hi, &p11)?)
            }
            BinOp::LShr => match (&bl, &bh) {
                (Val::C(0), Val::C(0)) => (al, ah),
                (Val::C(n), Val::C(0)) if *n < 128 => {
                    let l = self.bin(BinOp::LShr, 128, &al, &Val::C(*n))?;
                    let u = self.bin(BinOp::Shl, 128, &ah, &Val::C(128 - n))?;
                    (self.bin(BinOp::Or, 128, &l, &u)?, self.bin(BinOp::LShr, 128, &ah, &Val::C(*n))?)
                }
                (Val::C(128), Val::C(0)) => (ah, Val::C(0)),
                (Val::C(n), Val::C(0)) if *n < 256 => (self.bin(BinOp::LShr, 128, &ah, &Val::C(n - 128))?, Val::C(0)),
                _ => return Err(no()),
            },
            _ => return Err(no()),
        };
        Ok(Val::A(Rc::new(vec![lo, hi])))
    }

    pub fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w > 128 {
            return self.wide_bin(op, w, a, b);
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let o = match op {
                BinOp::Add => Op::Add,
                BinOp::Sub => Op::Sub,
                BinOp::Mul => Op::Mul,
                BinOp::And => Op::And,
                BinOp::Or => Op::Or,
                BinOp::Xor => Op::Xor,
                BinOp::Shl => Op::Shl,
                BinOp::LShr => Op::LShr,
                BinOp::AShr => Op::AShr,
                BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem => {
                    if *y == 0 {
                        return Err(Stop::Error("division by zero".into()));
                    }
                    match op {
                        BinOp::UDiv => Op::UDiv,
                        BinOp::SDiv => Op::SDiv,
                        BinOp::URem => Op::URem,
                        _ => Op::SRem,
                    }
                }
                BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                    return Ok(Val::C(if w == 32 {
                        let (p, q) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                        let r = match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            BinOp::FDiv => p / q,
                            _ => p % q,
                        };
                        r.to_bits() as u128
                    } else {
                        let (p, q) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                        let r = match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            BinOp::FDiv => p / q,
                            _ => p % q,
                        };
                        r.to_bits() as u128
                    }))
                }
            };
            return Ok(Val::C(bin_c(o, w, *x, *y)));
        }
        let x = self.expr(a, w);
        let y = self.expr(b, w);
        let r = match op {
            BinOp::Add => self.c.add(x, y),
            BinOp::Sub => self.c.sub(x, y),
            BinOp::Mul => self.c.mul(x, y),
            BinOp::UDiv => self.c.udiv(x, y),
            BinOp::URem => self.c.urem(x, y),
            BinOp::SDiv => self.c.sdivrem(Op::SDiv, x, y),
            BinOp::SRem => self.c.sdivrem(Op::SRem, x, y),
            BinOp::And => self.c.and(x, y),
            BinOp::Or => self.c.or(x, y),
            BinOp::Xor => self.c.xor(x, y),
            BinOp::Shl => self.c.shl(x, y),
            BinOp::LShr => self.c.lshr(x, y),
            BinOp::AShr => self.c.ashr(x, y),
            BinOp::FAdd => crate::fp::add(&mut self.c, x, y),
            BinOp::FSub => {
                let y = crate::fp::neg(&mut self.c, y);
                crate::fp::add(&mut self.c, x, y)
            }
            BinOp::FMul => crate::fp::mul(&mut self.c, x, y),
            BinOp::FDiv => crate::fp::div(&mut self.c, x, y),
            _ => return Err(Stop::Error("symbolic floating point remainder".into())),
        };
        Ok(self.val(r))
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let sx = || sext(*x, w, 128) as i128;
            let sy = || sext(*y, w, 128) as i128;
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx() > sy(),
                Pred::Sge => sx() >= sy(),
                Pred::Slt => sx() < sy(),
                Pred::Sle => sx() <= sy(),
            };
            return Val::C(r as u128);
        }
        let x = self.expr(a, w);
        let y = self.expr(b, w);
        let r = match p {
            Pred::Eq => self.c.eq(x, y),
            Pred::Ne => {
                let e = self.c.eq(x, y);
                self.c.not(e)
            }
            Pred::Ult => self.c.ult(x, y),
            Pred::Ugt => self.c.ult(y, x),
            Pred::Ule => {
                let e = self.c.ult(y, x);
                self.c.not(e)
            }
            Pred::Uge => {
                let e = self.c.ult(x, y);
                self.c.not(e)
            }
            Pred::Slt => self.c.slt(x, y),
            Pred::Sgt => self.c.slt(y, x),
            Pred::Sle => {
                let e = self.c.slt(y, x);
                self.c.not(e)
            }
            Pred::Sge => {
                let e = self.c.slt(x, y);
                self.c.not(e)
            }
        };
        self.val(r)
    }
    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if let (Ty::Vec(n, ft), Ty::Vec(m, tt)) = (from, to) {
            if k != Cast::Bitcast {
                let l = lanes(v);
                let mut o = vec![];
                for x in l.iter() {
                    o.push(self.cast(k, ft, tt, x)?);
                }
                return Ok(Val::A(Rc::new(o)));
            }
            let _ = (n, m);
        }
        match k {
            Cast::Zext | Cast::Trunc | Cast::Sext | Cast::PtrToInt | Cast::IntToPtr => {
                let (fw, tw) = (from.bits(), to.bits());
                if fw > 128 || tw > 128 {
                    return match (k, v) {
                        (Cast::Zext, Val::C(_) | Val::S(_)) if tw == 256 => {
                            let lo = self.cast(k, from, &Ty::Int(128), v)?;
                            Ok(Val::A(Rc::new(vec![lo, Val::C(0)])))
                        }
                        (Cast::Trunc, Val::A(l)) if fw == 256 && tw <= 128 => self.cast(k, &Ty::Int(128), to, &l[0]),
                        _ => Err(Stop::Error(format!("{:?} from {} to {} bits", k, fw, tw))),
                    };
                }
                Ok(match v {
                    Val::C(x) => Val::C(match k {
                        Cast::Sext => sext(*x, fw, tw),
                        _ => *x & mask(tw),
                    }),
                    Val::S(e) => {
                        let r = if tw > fw {
                            if k == Cast::Sext {
                                self.c.sext(*e, tw)
                            } else {
                                self.c.zext(*e, tw)
                            }
                        } else if tw < fw {
                            self.c.trunc(*e, tw)
                        } else {
                            *e
                        };
                        self.val(r)
                    }
                    _ => return Err(Stop::Error("cast aggregate".into())),
                })
            }
            Cast::Bitcast => {
                // flatten to bits then split
                if from == to || (from.is_scalar() && to.is_scalar()) {
                    return Ok(v.clone());
                }
                let bits: (Val, u32) = match from {
                    Ty::Vec(n, t) => {
                        let w = t.bits();
                        let l = lanes(v);
                        if l.iter().all(|x| matches!(x, Val::C(_))) && n * w <= 128 {
                            let mut r = 0u128;
                            for x in l.iter().rev() {
                                if let Val::C(k) = x {
                                    r = (r << w) | k;
                                }
                            }
                            (Val::C(r), n * w)
                        } else {
                            let mut e = self.expr(&l[0], w);
                            for x in &l[1..] {
                                let y = self.expr(x, w);
                                e = self.c.concat(y, e);
                            }
                            (self.val(e), n * w)
                        }
                    }
                    t => (v.clone(), t.bits()),
                };
                match to {
                    Ty::Vec(n, t) => {
                        let w = t.bits();
                        let mut o = vec![];
                        for i in 0..*n {
                            o.push(match &bits.0 {
                                Val::C(k) => Val::C((k >> (i * w)) & mask(w)),
                                Val::S(e) => {
                                    let x = self.c.extract(*e, i * w + w - 1, i * w);
                                    self.val(x)
                                }
                                _ => unreachable!(),
                            });
                        }
                        Ok(Val::A(Rc::new(o)))
                    }
                    _ => Ok(bits.0),
                }
            }
            _ => {
                let x = match v {
                    Val::C(x) => *x,
                    Val::S(e) if matches!(k, Cast::UiToFp | Cast::SiToFp) && from.bits() <= 64 => {
                        let e = self.int_to_float(*e, k == Cast::SiToFp, *to == Ty::Float);
                        return Ok(Val::S(e));
                    }
                    Val::S(e) if matches!(to, Ty::Float | Ty::Double) && matches!(k, Cast::FpExt | Cast::FpTrunc) => {
                        let r = crate::fp::convert(&mut self.c, *e, to.bits());
                        return Ok(self.val(r));
                    }
                    Val::S(e) if matches!(from, Ty::Float | Ty::Double) && to.bits() <= 64 => {
                        let r = crate::fp::to_int(&mut self.c, *e, to.bits(), k == Cast::FpToSi);
                        return Ok(self.val(r));
                    }
                    _ => return Err(Stop::Error("symbolic float conversion".into())),
                };
                let r: u128 = match k {
                    Cast::UiToFp => match to {
                        Ty::Float => (x as f32).to_bits() as u128,
                        _ => (x as f64).to_bits() as u128,
                    },
                    Cast::SiToFp => {
                        let s = sext(x, from.bits(), 128) as i128;
                        match to {
                            Ty::Float => (s as f32).to_bits() as u128,
                            _ => (s as f64).to_bits() as u128,
                        }
                    }
                    Cast::FpToUi => match from {
                        Ty::Float => f32::from_bits(x as u32) as u128 & mask(to.bits()),
                        _ => f64::from_bits(x as u64) as u128 & mask(to.bits()),
                    },
                    Cast::FpToSi => match from {
                        Ty::Float => f32::from_bits(x as u32) as i128 as u128 & mask(to.bits()),
                        _ => f64::from_bits(x as u64) as i128 as u128 & mask(to.bits()),
                    },
                    Cast::FpExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
                    Cast::FpTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
                    _ => unreachable!(),
                };
                Ok(Val::C(r))
            }
        }
    }

    /// Round-to-nearest-even conversion as a bit-vector term.
    fn int_to_float(&mut self, x: Id, signed: bool, single: bool) -> Id {
        let w = self.c.w(x);
        let (sign, mag) = if signed {
            let z = self.c.konst(w, 0);
            let s = self.c.slt(x, z);
            let n = self.c.sub(z, x);
            (s, self.c.ite(s, n, x))
        } else {
            (self.c.konst(1, 0), x)
        };
        let mag = if w < 64 { self.c.zext(mag, 64) } else { mag };
        let (man, bias, rw) = if single { (23u32, 127u128, 32u32) } else { (52, 1023, 64) };
        let mut norm = self.c.konst(64, 0);
        let mut exp = self.c.konst(64, 0);
        for p in 0..w.min(64) {
            let bit = self.c.extract(mag, p, p);
            let one = self.c.konst(1, 1);
            let c = self.c.eq(bit, one);
            let sh = self.c.konst(64, 63 - p as u128);
            let n = self.c.shl(mag, sh);
            let e = self.c.konst(64, bias + p as u128);
            norm = self.c.ite(c, n, norm);
            exp = self.c.ite(c, e, exp);
        }
        let drop = 63 - man;
        let d = self.c.konst(64, drop as u128);
        let keep = self.c.lshr(norm, d);
        let rm = self.c.konst(64, (1u128 << drop) - 1);
        let rem = self.c.and(norm, rm);
        let half = self.c.konst(64, 1u128 << (drop - 1));
        let gt = self.c.ult(half, rem);
        let tie = self.c.eq(rem, half);
        let odd = self.c.extract(keep, 0, 0);
        let to = self.c.and(tie, odd);
        let up = self.c.or(gt, to);
        let up = self.c.zext(up, 64);
        let hidden = self.c.konst(64, 1u128 << man);
        let frac = self.c.sub(keep, hidden);
        let frac = self.c.add(frac, up);
        let m = self.c.konst(64, man as u128);
        let ex = self.c.shl(exp, m);
        let v = self.c.add(ex, frac);
        let z = self.c.konst(64, 0);
        let is0 = self.c.eq(mag, z);
        let v = self.c.ite(is0, z, v);
        let v = if rw < 64 { self.c.trunc(v, rw) } else { v };
        let sb = self.c.konst(rw, 1u128 << (rw - 1));
        let sv = self.c.or(v, sb);
        self.c.ite(sign, sv, v)
    }
    /// IEEE comparison as a bit-vector term.
    pub fn float_cmp(&mut self, p: &str, w: u32, x: Id, y: Id) -> Id {
        let inf = if w == 32 { 0x7f80_0000u128 } else { 0x7ff0_0000_0000_0000 };
        let inf = self.c.konst(w, inf);
        let am = self.c.konst(w, (1u128 << (w - 1)) - 1);
        let z = self.c.konst(w, 0);
        let mut key = vec![];
        let mut un = self.c.konst(1, 0);
        for v in [x, y] {
            let a = self.c.and(v, am);
            let nan = self.c.ult(inf, a);
            un = self.c.or(un, nan);
            let neg = self.c.slt(v, z);
            let na = self.c.sub(z, a);
            key.push(self.c.ite(neg, na, a));
        }
        let ord = self.c.not(un);
        let eq = self.c.eq(key[0], key[1]);
        let lt = self.c.slt(key[0], key[1]);
        let gt = self.c.slt(key[1], key[0]);
        let r = match &p[1..] {
            "eq" => eq,
            "gt" => gt,
            "ge" => self.c.or(gt, eq),
            "lt" => lt,
            "le" => self.c.or(lt, eq),
            _ => self.c.not(eq),
        };
        match p {
            "ord" => ord,
            "uno" => un,
            "true" => self.c.konst(1, 1),
            "false" => self.c.konst(1, 0),
            _ if p.starts_with('o') => self.c.and(ord, r),
            _ => self.c.or(un, r),
        }
    }

    // ------------------------------------------------------------- run
    pub fn init_state(&mut self) -> State {
        let mut st = State {
            frames: vec![],
            globals: HashMap::new(),
            heap: Region::default(),
            stack: Region::default(),
            pc: vec![],
            model: Rc::new(vec![]),
            draws: vec![],
            steps: 0,
            clock: 1_000_000,
            errno: 0,
            fs: Rc::new(crate::fs::new()),
            forks: 0,
            marks: vec![],
            notes: vec![],
        };
        st.errno = self.alloc(&mut st, 8);
        st
    }

    pub fn run(&mut self, entry: &str) {
        let sid = self.m.sym_id(entry);
        let f = match self.m.func(sid) {
            Some(f) => f,
            None => {
                self.errors.insert(format!("no harness {}", entry), 1);
                return;
            }
        };
        let mut st = self.init_state();
        self.push_frame(&mut st, f, &[]);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.deadline.map(|d| Instant::now() > d).unwrap_or(false) || self.paths >= self.max_paths {
                self.timed_out = true;
                break;
            }
            if self.violations.len() >= self.max_vio {
                break;
            }
            let stop = loop {
                match self.step(&mut st) {
                    Ok(()) => {
                        if st.steps > self.max_steps {
                            break Stop::Error("step limit".into());
                        }
                        if st.steps & 0xfffff == 0 && self.deadline.map(|d| Instant::now() > d).unwrap_or(false) {
                            break Stop::Error("deadline".into());
                        }
                    }
                    Err(s) => break s,
                }
            };
            match stop {
                Stop::Forked => {}
                Stop::Done => {
                    self.paths += 1;
                    self.paths_done += 1;
                    if self.samples.len() < 3 || (self.paths_done % 997 == 0 && self.samples.len() < 8) {
                        let d = self.model_draws(&st);
                        self.samples.push(d);
                    }
                }
                Stop::Infeasible => {
                    self.infeasible += 1;
                }
                Stop::Panic(m) => {
                    self.paths += 1;
                    let model = st.model.clone();
                    self.violation(&st, "panic", &format!("panic: {}", m), &model);
                }
                Stop::Error(e) => {
                    if e == "deadline" {
                        self.timed_out = true;
                        continue;
                    }
                    self.paths += 1;
                    let tr = self.stack_trace(&st);
                    if std::env::var_os("SYMX_VERBOSE").is_some() {
                        eprintln!("ERROR {} at {:#?}", e, tr);
                    }
                    *self.errors.entry(format!("{} [{}]", e, tr.iter().take(4).cloned().collect::<Vec<_>>().join(" < "))).or_default() += 1;
                    if self.errors.len() > 20 {
                        break;
                    }
                }
            }
        }
    }
    pub fn stack_trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| format!("{}:{}", self.m.pretty(f.f.sym), f.f.blocks[f.bb as usize].name)).collect()
    }
    pub fn model_draws(&mut self, st: &State) -> Vec<(u32, u128)> {
        let m = st.model.clone();
        self.draws_under(st, &m)
    }
    pub fn draws_under(&mut self, st: &State, m: &[u128]) -> Vec<(u32, u128)> {
        let mut v = vec![];
        for (w, e) in &st.draws {
            let x = self.c.eval(*e, m);
            v.push((*w, x));
        }
        v
    }
    pub fn violation(&mut self, st: &State, kind: &str, id: &str, model: &[u128]) {
        let n = self.vio_count.entry(id.to_string()).or_default();
        *n += 1;
        if *n > 3 {
            return;
        }
        let draws = self.draws_under(st, model);
        let stack = self.stack_trace(st);
        self.violations.push(Violation {
            id: id.to_string(),
            kind: kind.to_string(),
            draws,
            notes: st.notes.iter().map(|s| s.to_string()).collect(),
            stack,
        });
    }

    pub fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: &[Val]) {
        let mut regs = vec![Val::C(0); f.nregs];
        for (i, p) in f.params.iter().enumerate() {
            if let Some(a) = args.get(i) {
                regs[*p as usize] = a.clone();
            }
        }
        self.exec_syms.insert(f.sym);
        let sb = st.stack.len;
        st.frames.push(Rc::new(Frame { f, regs, bb: 0, ip: 0, stack_base: sb }));
    }

    #[inline]
    fn op(&self, fr: &Frame, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => fr.regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }
    fn top<'a>(&self, st: &'a mut State) -> &'a mut Frame {
        Rc::make_mut(st.frames.last_mut().unwrap())
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let from = fr.bb;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = inc.iter().find(|x| x.0 == from).map(|x| &x.1).unwrap_or_else(|| panic!("phi without edge"));
                vals.push((*d, self.op(fr, o)));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.bb = to;
        fr.ip = 0;
    }
    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        let fr = self.top(st);
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }

    /// Executes one instruction.
    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.steps += 1;
        let f = st.frames.last().unwrap().f.clone();
        let (bb, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.bb as usize, fr.ip as usize)
        };
        let inst = &f.blocks[bb].insts[ip];
        let dbg = f.blocks[bb].dbg[ip] as usize;
        if dbg != 0 {
            if self.exec_dbg.len() <= dbg {
                self.exec_dbg.resize(dbg + 1, false);
            }
            self.exec_dbg[dbg] = true;
        }
        if self.trace {
            eprintln!("  {}:{}:{} {:?}", f.name.chars().take(60).collect::<String>(), f.blocks[bb].name, ip, inst);
        }
        let fr: &Frame = unsafe { &*(&**st.frames.last().unwrap() as *const Frame) };
        // NB: `fr` is only read before any mutation of the top frame below.
        match inst {
            Inst::Bin { op, ty, d, a, b } => {
                let (mut x, mut y) = (self.op(fr, a), self.op(fr, b));
                if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem) {
                    x = self.pin(st, x)?;
                    y = self.pin(st, y)?;
                }
                let v = match ty {
                    Ty::Vec(_, t) => {
                        let (l, r) = (lanes(&x), lanes(&y));
                        let mut o = vec![];
                        for i in 0..l.len() {
                            o.push(self.bin(*op, t.bits(), &l[i], &r[i])?);
                        }
                        Val::A(Rc::new(o))
                    }
                    t => self.bin(*op, t.bits(), &x, &y)?,
                };
                self.set(st, *d, v);
            }
            Inst::Icmp { p, ty, d, a, b } => {
                let (x, y) = (self.op(fr, a), self.op(fr, b));
                if matches!(ty, Ty::Int(n) if *n > 128) {
                    return Err(Stop::Error("comparison of more than 128 bits".into()));
                }
                let v = match ty {
                    Ty::Vec(_, t) => {
                        let (l, r) = (lanes(&x), lanes(&y));
                        let mut o = vec![];
                        for i in 0..l.len() {
                            o.push(self.icmp(*p, t.bits(), &l[i], &r[i]));
                        }
                        Val::A(Rc::new(o))
                    }
                    t => self.icmp(*p, t.bits(), &x, &y),
                };
                self.set(st, *d, v);
            }
            Inst::Fcmp { p, ty, d, a, b } => {
                let (x, y) = (self.op(fr, a), self.op(fr, b));
                let w = if *ty == Ty::Float { 32 } else { 64 };
                if matches!((&x, &y), (Val::S(_), Val::S(_) | Val::C(_)) | (Val::C(_), Val::S(_))) && matches!(ty, Ty::Float | Ty::Double) {
                    let (x, y) = (self.expr(&x, w), self.expr(&y, w));
                    let r = self.float_cmp(p, w, x, y);
                    let v = match self.c.cv(r) {
                        Some(k) => Val::C(k),
                        None => Val::S(r),
                    };
                    self.set(st, *d, v);
                    return Ok(());
                }
                let (x, y) = match (x, y) {
                    (Val::C(x), Val::C(y)) => (x, y),
                    _ => return Err(Stop::Error("symbolic float compare".into())),
                };
                let (x, y) = if *ty == Ty::Float {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                } else {
                    (f64::from_bits(x as u64), f64::from_bits(y as u64))
                };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => un || x != y,
                    "uno" => un,
                    "true" => true,
                    _ => false,
                };
                self.set(st, *d, Val::C(r as u128));
            }
            Inst::FNeg { ty, d, a } => {
                let x = match self.op(fr, a) {
                    Val::C(x) => x,
                    Val::S(e) if matches!(ty, Ty::Float | Ty::Double) => {
                        let r = crate::fp::neg(&mut self.c, e);
                        let v = self.val(r);
                        self.set(st, *d, v);
                        return Ok(());
                    }
                    _ => return Err(Stop::Error("symbolic fneg".into())),
                };
                let v = x ^ (1u128 << (ty.bits() - 1));
                self.set(st, *d, Val::C(v));
            }
            Inst::Cast { k, from, to, d, a } => {
                let mut x = self.op(fr, a);
                let fl = |t: &Ty| matches!(t, Ty::Float | Ty::Double);
                let ours = match k {
                    Cast::UiToFp | Cast::SiToFp => from.is_scalar() && from.bits() <= 64,
                    Cast::FpToUi | Cast::FpToSi => fl(from) && to.is_scalar() && to.bits() <= 64,
                    _ => fl(from) && fl(to),
                };
                if !ours && matches!(k, Cast::UiToFp | Cast::SiToFp | Cast::FpToUi | Cast::FpToSi | Cast::FpExt | Cast::FpTrunc) {
                    x = self.pin(st, x)?;
                }
                let v = self.cast(*k, from, to, &x)?;
                self.set(st, *d, v);
            }
            Inst::Load { d, ty, p } => {
                if matches!(ty, Ty::Int(n) if *n > 128) {
                    return Err(Stop::Error("access of more than 128 bits".into()));
                }
                let pv = self.op(fr, p);
                let v = match pv {
                    Val::C(a) => self.load(st, ty, a as u64)?,
                    Val::S(e) => self.load_sym(st, ty, e)?,
                    _ => return Err(Stop::Error("load agg ptr".into())),
                };
                self.set(st, *d, v);
            }
            Inst::Store { ty, v, p } => {
                if matches!(ty, Ty::Int(n) if *n > 128) {
                    return Err(Stop::Error("access of more than 128 bits".into()));
                }
                let pv = self.op(fr, p);
                let x = self.op(fr, v);
                let a = self.addr(st, &pv, "store address")?;
                self.store(st, ty, a, &x)?;
                self.top(st).ip += 1;
            }
            Inst::Gep { d, base, off, scaled } => {
                let b = self.op(fr, base);
                let v = match (&b, scaled.is_empty()) {
                    (Val::C(x), true) => Val::C((*x as u64).wrapping_add(*off as u64) as u128),
                    _ => {
                        let mut acc = self.bin(BinOp::Add, 64, &b, &Val::C(*off as u64 as u128))?;
                        for (o, w, s) in scaled {
                            let i = self.op(fr, o);
                            let i = if *w < 64 {
                                self.cast(Cast::Sext, &Ty::Int(*w), &Ty::Int(64), &i)?
                            } else if *w > 64 {
                                self.cast(Cast::Trunc, &Ty::Int(*w), &Ty::Int(64), &i)?
                            } else {
                                i
                            };
                            let m = self.bin(BinOp::Mul, 64, &i, &Val::C(*s as u64 as u128))?;
                            acc = self.bin(BinOp::Add, 64, &acc, &m)?;
                        }
                        acc
                    }
                };
                self.set(st, *d, v);
            }
            Inst::Alloca { d, size, n } => {
                let mut sz = *size as usize;
                if let Some(o) = n {
                    match self.op(fr, o) {
                        Val::C(k) => sz *= k as usize,
                        _ => return Err(Stop::Error("symbolic alloca".into())),
                    }
                }
                let i = st.stack.push(Obj::new(sz));
                let a = ((STACK + i as u32) as u64) << ADDR_SHIFT;
                self.set(st, *d, Val::C(a as u128));
            }
            Inst::Select { d, ty, cty, c, a, b } => {
                let cv = self.op(fr, c);
                let (x, y) = (self.op(fr, a), self.op(fr, b));
                let v = if let Ty::Vec(..) = cty {
                    let (cl, l, r) = (lanes(&cv), lanes(&x), lanes(&y));
                    let et = match ty {
                        Ty::Vec(_, t) => t.bits(),
                        _ => return Err(Stop::Error("vector select".into())),
                    };
                    let mut o = vec![];
                    for i in 0..cl.len() {
                        o.push(match &cl[i] {
                            Val::C(1) => l[i].clone(),
                            Val::C(_) => r[i].clone(),
                            Val::S(e) => {
                                let (p, q) = (self.expr(&l[i].clone(), et), self.expr(&r[i].clone(), et));
                                let z = self.c.ite(*e, p, q);
                                self.val(z)
                            }
                            _ => unreachable!(),
                        });
                    }
                    Val::A(Rc::new(o))
                } else {
                    match cv {
                        Val::C(1) => x,
                        Val::C(_) => y,
                        Val::S(e) => {
                            let known = if st.pc.contains(&e) {
                                Some(true)
                            } else {
                                let n = self.c.not(e);
                                if st.pc.contains(&n) {
                                    Some(false)
                                } else {
                                    None
                                }
                            };
                            match (known, ty) {
                                (Some(true), _) => x,
                                (Some(false), _) => y,
                                (None, Ty::Int(w)) => {
                                    let (p, q) = (self.expr(&x, *w), self.expr(&y, *w));
                                    let r = self.c.ite(e, p, q);
                                    self.val(r)
                                }
                                _ => {
                                    let (t, other) = self.decide(st, e)?;
                                    if let Some(mut o) = other {
                                        let ov = if t { y.clone() } else { x.clone() };
                                        self.set(&mut o, *d, ov);
                                        self.work.push(o);
                                    }
                                    if t {
                                        x
                                    } else {
                                        y
                                    }
                                }
                            }
                        }
                        _ => return Err(Stop::Error("select".into())),
                    }
                };
                self.set(st, *d, v);
            }
            Inst::Br(t) => self.jump(st, *t),
            Inst::CondBr { c, t, f } => {
                let cv = self.op(fr, c);
                match cv {
                    Val::C(k) => self.jump(st, if k == 1 { *t } else { *f }),
                    Val::S(e) => {
                        let (b, other) = self.decide(st, e)?;
                        if let Some(mut o) = other {
                            self.jump(&mut o, if b { *f } else { *t });
                            self.work.push(o);
                        }
                        self.jump(st, if b { *t } else { *f });
                    }
                    _ => return Err(Stop::Error("br agg".into())),
                }
            }
            Inst::Switch { c, w, cases, def } => {
                let cv = self.op(fr, c);
                match cv {
                    Val::C(k) => {
                        let t = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    Val::S(e) => {
                        // group by target
                        let mut groups: Vec<(u32, Id)> = vec![];
                        let mut none = self.c.konst(1, 1);
                        for (k, t) in cases {
                            let kk = self.c.konst(*w, *k);
                            let q = self.c.eq(e, kk);
                            let nq = self.c.not(q);
                            none = self.c.and(none, nq);
                            match groups.iter_mut().find(|g| g.0 == *t) {
                                Some(g) => g.1 = self.c.or(g.1, q),
                                None => groups.push((*t, q)),
                            }
                        }
                        match groups.iter_mut().find(|g| g.0 == *def) {
                            Some(g) => g.1 = self.c.or(g.1, none),
                            None => groups.push((*def, none)),
                        }
                        let mut feas = vec![];
                        for (t, q) in groups {
                            if let Some(m) = self.sat(st, q, false)? {
                                feas.push((t, q, m));
                            }
                        }
                        if feas.is_empty() {
                            return Err(Stop::Infeasible);
                        }
                        self.forks += feas.len() as u64 - 1;
                        if std::env::var_os("SYMX_PROF").is_some() {
                            *self.prof.entry((f.sym, bb as u32)).or_default() += feas.len() as u64 - 1;
                        }
                        let last = feas.pop().unwrap();
                        for (t, q, m) in feas {
                            let mut o = st.clone();
                            self.add(&mut o, q, m);
                            self.jump(&mut o, t);
                            self.work.push(o);
                        }
                        self.add(st, last.1, last.2);
                        self.jump(st, last.0);
                    }
                    _ => return Err(Stop::Error("switch agg".into())),
                }
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| self.op(fr, o));
                return self.ret(st, v);
            }
            Inst::Unreachable => {
                return Err(Stop::Error("reached `unreachable`".into()));
            }
            Inst::Extract { d, a, idx } => {
                let mut v = self.op(fr, a);
                for i in idx {
                    v = lanes(&v)[*i as usize].clone();
                }
                self.set(st, *d, v);
            }
            Inst::Insert { d, a, aty: _, v, idx } => {
                let base = self.op(fr, a);
                let x = self.op(fr, v);
                let r = insert(&base, idx, x);
                self.set(st, *d, r);
            }
            Inst::ExtractElem { d, a, i } => {
                let v = lanes(&self.op(fr, a));
                let i = match self.op(fr, i) {
                    Val::C(k) => k as usize,
                    _ => return Err(Stop::Error("symbolic extractelement".into())),
                };
                self.set(st, *d, v[i].clone());
            }
            Inst::InsertElem { d, a, aty: _, v, i } => {
                let base = self.op(fr, a);
                let x = self.op(fr, v);
                let i = match self.op(fr, i) {
                    Val::C(k) => k as u32,
                    _ => return Err(Stop::Error("symbolic insertelement".into())),
                };
                let r = insert(&base, &[i], x);
                self.set(st, *d, r);
            }
            Inst::Shuffle { d, a, b, n, aty: _, mask } => {
                let (x, y) = (lanes(&self.op(fr, a)), lanes(&self.op(fr, b)));
                let o = mask.iter().map(|i| if i < n { x[*i as usize].clone() } else { y[(*i - n) as usize].clone() }).collect();
                self.set(st, *d, Val::A(Rc::new(o)));
            }
            Inst::Rmw { d, op, ty, p, v } => {
                let pv = self.op(fr, p);
                let x = self.op(fr, v);
                let a = self.addr(st, &pv, "rmw address")?;
                let old = self.load(st, ty, a)?;
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(BinOp::Add, w, &old, &x)?,
                    "sub" => self.bin(BinOp::Sub, w, &old, &x)?,
                    "and" => self.bin(BinOp::And, w, &old, &x)?,
                    "or" => self.bin(BinOp::Or, w, &old, &x)?,
                    "xor" => self.bin(BinOp::Xor, w, &old, &x)?,
                    "nand" => {
                        let t = self.bin(BinOp::And, w, &old, &x)?;
                        self.bin(BinOp::Xor, w, &t, &Val::C(mask(w)))?
                    }
                    "umax" | "umin" | "max" | "min" => {
                        let p = match op.as_str() {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "max" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        match self.icmp(p, w, &old, &x) {
                            Val::C(1) => old.clone(),
                            Val::C(_) => x,
                            _ => return Err(Stop::Error("symbolic atomic minmax".into())),
                        }
                    }
                    o => return Err(Stop::Error(format!("atomicrmw {}", o))),
                };
                self.store(st, ty, a, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg { d, ty, p, c, n } => {
                let pv = self.op(fr, p);
                let (cv, nv) = (self.op(fr, c), self.op(fr, n));
                let a = self.addr(st, &pv, "cmpxchg address")?;
                let old = self.load(st, ty, a)?;
                let eq = self.icmp(Pred::Eq, ty.bits(), &old, &cv);
                let ok = match eq {
                    Val::C(k) => k == 1,
                    _ => return Err(Stop::Error("symbolic cmpxchg".into())),
                };
                if ok {
                    self.store(st, ty, a, &nv)?;
                }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::C(ok as u128)])));
            }
            Inst::Move { d, a, ty: _ } => {
                let v = self.op(fr, a);
                self.set(st, *d, v);
            }
            Inst::Nop => {
                self.top(st).ip += 1;
            }
            Inst::Unsupported(s) => return Err(Stop::Error(format!("unsupported: {}", s))),
            Inst::Call { d, callee, args, atys, ret, normal } => {
                let sym = match callee {
                    Callee::AsmNop => {
                        return self.finish_call(st, *d, *normal, None);
                    }
                    Callee::Direct(s) => *s,
                    Callee::Indirect(o) => {
                        let v = self.op(fr, o);
                        let a = self.addr(st, &v, "call target")?;
                        let id = (a >> ADDR_SHIFT) as u32;
                        if a & 0xffff_ffff != 0 || id == 0 || id >= HEAP {
                            return Err(Stop::Error(format!("call of bad pointer {:#x}", a)));
                        }
                        id - 1
                    }
                };
                let k = self.kind(sym);
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    av.push(self.op(fr, a));
                }
                match k {
                    1 => {
                        let f = self.m.func(sym).unwrap();
                        if st.frames.len() > 2000 {
                            return Err(Stop::Error("call depth".into()));
                        }
                        self.push_frame(st, f, &av);
                    }
                    2 => {
                        let tr = self.stack_trace(st);
                        let what = crate::ext::panic_site(&tr);
                        return Err(Stop::Panic(what));
                    }
                    _ => {
                        let name = self.name(sym);
                        match crate::ext::builtin(self, st, &name, &av, atys, ret)? {
                            BRet::Val(v) => return self.finish_call(st, *d, *normal, Some(v)),
                            BRet::Void => return self.finish_call(st, *d, *normal, None),
                            BRet::Multi(alts) => {
                                for (c, v) in alts {
                                    if let Some(m) = self.sat(st, c, false)? {
                                        let mut o = st.clone();
                                        self.add(&mut o, c, m);
                                        self.finish_call(&mut o, *d, *normal, Some(v))?;
                                        self.work.push(o);
                                    }
                                }
                                return Err(Stop::Forked);
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn finish_call(&mut self, st: &mut State, d: Option<u32>, normal: Option<u32>, v: Option<Val>) -> R<()> {
        if let (Some(d), Some(v)) = (d, v) {
            self.top(st).regs[d as usize] = v;
        }
        match normal {
            Some(n) => self.jump(st, n),
            None => self.top(st).ip += 1,
        }
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        // release stack objects
        for i in fr.stack_base..st.stack.len {
            *st.stack.slot(i) = None;
        }
        st.stack.len = fr.stack_base;
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        let caller = st.frames.last().unwrap();
        let f = caller.f.clone();
        if let Inst::Call { d, normal, .. } = &f.blocks[caller.bb as usize].insts[caller.ip as usize] {
            self.finish_call(st, *d, *normal, v)
        } else {
            panic!("return to non-call")
        }
    }
    fn kind(&mut self, s: u32) -> u8 {
        if self.kinds.len() <= s as usize {
            self.kinds.resize(s as usize + 1, 0);
        }
        let k = self.kinds[s as usize];
        if k != 0 {
            return k;
        }
        let k = match self.m.sym_kind(s) {
            SymKind::FuncDef { pretty, .. } => {
                if crate::ext::is_panic(&pretty, &self.m.sym_name(s)) {
                    2
                } else if crate::ext::override_defined(&self.m.sym_name(s)) {
                    3
                } else {
                    1
                }
            }
            _ => 3,
        };
        self.kinds[s as usize] = k;
        k
    }
}

fn insert(base: &Val, idx: &[u32], v: Val) -> Val {
    if idx.is_empty() {
        return v;
    }
    let mut l = match base {
        Val::A(a) => (**a).clone(),
        _ => panic!("insert into scalar"),
    };
    let i = idx[0] as usize;
    l[i] = insert(&l[i], &idx[1..], v);
    Val::A(Rc::new(l))
}

fn write_const(out: &mut [u8], off: usize, t: &Ty, v: &Val) {
    match (t, v) {
        (Ty::Array(n, e), Val::A(l)) => {
            let s = e.size() as usize;
            for i in 0..*n as usize {
                write_const(out, off + i * s, e, &l[i]);
            }
        }
        (Ty::Vec(n, e), Val::A(l)) => {
            let s = e.size() as usize;
            for i in 0..*n as usize {
                write_const(out, off + i * s, e, &l[i]);
            }
        }
        (Ty::Struct(_, f), Val::A(l)) => {
            let (o, _) = t.struct_layout();
            for (i, e) in f.iter().enumerate() {
                write_const(out, off + o[i] as usize, e, &l[i]);
            }
        }
        (t, Val::C(k)) => {
            for i in 0..t.store_size() as usize {
                out[off + i] = (k >> (8 * i)) as u8;
            }
        }
        _ => panic!("write_const"),
    }
}
