//! SMT-LIB2 back end (a persistent z3 process, optionally a second solver that
//! re-decides the property queries).
use crate::expr::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Sat(Rc<Vec<u128>>),
    Unsat,
    Unknown(String),
}

fn now() -> u64 {
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

struct Proc {
    child: Arc<Mutex<Child>>,
    /// When the current call must be over (ms since `T0`; 0: no call).
    due: Arc<AtomicU64>,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    cmd: Vec<String>,
    queries: u64,
    ready: bool,
}

impl Proc {
    fn start(cmd: &[String]) -> Proc {
        let mut child = Command::new(&cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {:?}: {}", cmd, e));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        // some queries make a solver ignore its own time limit
        let child = Arc::new(Mutex::new(child));
        let due = Arc::new(AtomicU64::new(0));
        let (c, d) = (Arc::downgrade(&child), due.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let c = match c.upgrade() {
                Some(c) => c,
                None => return,
            };
            let t = d.load(Ordering::SeqCst);
            if t != 0 && now() > t {
                let _ = c.lock().unwrap().kill();
            }
        });
        Proc { child, due, inp, out, cmd: cmd.to_vec(), queries: 0, ready: false }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time: f64,
    pub max_time: f64,
    pub cross: u64,
    pub cross_disagree: u64,
}

pub struct Solver {
    main: Proc,
    second: Option<Proc>,
    pub stats: Stats,
    cache: HashMap<Vec<Id>, Answer>,
    pub timeout_ms: u64,
}

/// Emits definitions for `roots`; returns (text, variable indices).
pub fn emit(c: &Ctx, roots: &[Id]) -> (String, Vec<usize>) {
    let mut order: Vec<Id> = vec![];
    let mut seen: HashMap<Id, ()> = HashMap::new();
    // iterative post-order
    let mut st: Vec<(Id, bool)> = roots.iter().map(|r| (*r, false)).collect();
    while let Some((e, done)) = st.pop() {
        if done {
            order.push(e);
            continue;
        }
        if seen.contains_key(&e) {
            continue;
        }
        seen.insert(e, ());
        let n = c.n(e);
        st.push((e, true));
        match n.op {
            Op::Const | Op::Var => {}
            Op::Ite => {
                st.push((n.a, false));
                st.push((n.b, false));
                st.push((n.c, false));
            }
            Op::Zext | Op::Sext | Op::Not | Op::Extract | Op::Lut => st.push((n.a, false)),
            _ => {
                st.push((n.a, false));
                st.push((n.b, false));
            }
        }
    }
    let mut s = String::new();
    let mut vs = vec![];
    let r = |e: Id, c: &Ctx| -> String {
        let n = c.n(e);
        match n.op {
            Op::Const => {
                if n.w % 4 == 0 {
                    format!("#x{:0>1$x}", n.k, (n.w / 4) as usize)
                } else {
                    format!("#b{:0>1$b}", n.k, n.w as usize)
                }
            }
            Op::Var => format!("v{}", n.k),
            _ => format!("e{}", e),
        }
    };
    for &e in &order {
        let n = c.n(e);
        match n.op {
            Op::Const => continue,
            Op::Var => {
                let _ = writeln!(s, "(declare-const v{} (_ BitVec {}))", n.k, n.w);
                vs.push(n.k as usize);
                continue;
            }
            _ => {}
        }
        let a = r(n.a, c);
        let body = match n.op {
            Op::Ite => {
                let k = r(n.a, c);
                format!("(ite (= {} #b1) {} {})", k, r(n.b, c), r(n.c, c))
            }
            Op::Zext => format!("((_ zero_extend {}) {})", n.w - c.w(n.a), a),
            Op::Sext => format!("((_ sign_extend {}) {})", n.w - c.w(n.a), a),
            Op::Not => format!("(bvnot {})", a),
            Op::Extract => format!("((_ extract {} {}) {})", n.k as u32 + n.w - 1, n.k, a),
            Op::Lut => {
                let t = &c.luts[n.k as usize];
                // runs [start, value]
                let mut runs: Vec<(u32, u64)> = vec![];
                for i in 0..256u32 {
                    if runs.last().map(|x| x.1) != Some(t[i as usize]) {
                        runs.push((i, t[i as usize]));
                    }
                }
                fn tree(runs: &[(u32, u64)], x: &str, w: u32, o: &mut String) {
                    if runs.len() == 1 {
                        if w % 4 == 0 {
                            let _ = write!(o, "#x{:0>1$x}", runs[0].1, (w / 4) as usize);
                        } else {
                            let _ = write!(o, "#b{:0>1$b}", runs[0].1, w as usize);
                        }
                        return;
                    }
                    let m = runs.len() / 2;
                    let _ = write!(o, "(ite (bvult {} #x{:02x}) ", x, runs[m].0);
                    tree(&runs[..m], x, w, o);
                    o.push(' ');
                    tree(&runs[m..], x, w, o);
                    o.push(')');
                }
                let mut o = String::new();
                tree(&runs, &a, n.w, &mut o);
                o
            }
            _ => {
                let b = r(n.b, c);
                match n.op {
                    Op::Add => format!("(bvadd {} {})", a, b),
                    Op::Sub => format!("(bvsub {} {})", a, b),
                    Op::Mul => format!("(bvmul {} {})", a, b),
                    Op::UDiv => format!("(bvudiv {} {})", a, b),
                    Op::URem => format!("(bvurem {} {})", a, b),
                    Op::SDiv => format!("(bvsdiv {} {})", a, b),
                    Op::SRem => format!("(bvsrem {} {})", a, b),
                    Op::And => format!("(bvand {} {})", a, b),
                    Op::Or => format!("(bvor {} {})", a, b),
                    Op::Xor => format!("(bvxor {} {})", a, b),
                    Op::Shl => format!("(bvshl {} {})", a, b),
                    Op::LShr => format!("(bvlshr {} {})", a, b),
                    Op::AShr => format!("(bvashr {} {})", a, b),
                    Op::Concat => format!("(concat {} {})", a, b),
                    Op::Eq => format!("(ite (= {} {}) #b1 #b0)", a, b),
                    Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", a, b),
                    Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", a, b),
                    _ => unreachable!(),
                }
            }
        };
        let _ = writeln!(s, "(define-fun e{} () (_ BitVec {}) {})", e, n.w, body);
    }
    for &x in roots {
        let n = c.n(x);
        match n.op {
            Op::Not => {
                let _ = writeln!(s, "(assert (= {} #b0))", r(n.a, c));
            }
            _ => {
                let _ = writeln!(s, "(assert (= {} #b1))", r(x, c));
            }
        }
    }
    (s, vs)
}

impl Solver {
    pub fn new(main: &str, second: Option<&str>, timeout_ms: u64) -> Solver {
        let sp = |s: &str| s.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
        Solver {
            main: Proc::start(&sp(main)),
            second: second.map(|s| Proc::start(&sp(s))),
            stats: Stats::default(),
            cache: HashMap::new(),
            timeout_ms,
        }
    }

    /// One query.  z3 first gets a short try on its incremental core (cheap
    /// set-up), then, if undecided, the full one-shot bit-vector tactic.
    fn ask(p: &mut Proc, text: &str, vs: &[usize], nvars: usize, z3: bool, timeout: u64) -> Answer {
        if z3 {
            if let a @ (Answer::Sat(_) | Answer::Unsat) = Self::ask1(p, text, vs, nvars, true, true, timeout.min(1500)) {
                return a;
            }
        }
        Self::ask1(p, text, vs, nvars, z3, false, timeout)
    }

    fn ask1(p: &mut Proc, text: &str, vs: &[usize], nvars: usize, z3: bool, inc: bool, timeout: u64) -> Answer {
        p.queries += 1;
        if p.queries % 8000 == 0 {
            // keep the solver's heap small
            let cmd = p.cmd.clone();
            *p = Proc::start(&cmd);
        }
        let mut q = String::with_capacity(text.len() + 256);
        if !inc || !p.ready {
            q.push_str("(reset)\n");
            if z3 {
                let _ = writeln!(q, "(set-option :timeout {})", timeout);
            }
            q.push_str("(set-option :produce-models true)\n(set-logic QF_BV)\n");
        }
        p.ready = inc;
        if inc {
            q.push_str("(push 1)\n");
        }
        q.push_str(text);
        q.push_str("(check-sat)\n(echo \"@@\")\n");
        p.due.store(now() + timeout * 2 + 3000, Ordering::SeqCst);
        if p.inp.write_all(q.as_bytes()).is_err() || p.inp.flush().is_err() {
            let cmd = p.cmd.clone();
            *p = Proc::start(&cmd);
            return Answer::Unknown("solver died".into());
        }
        let mut res = String::new();
        let mut err = String::new();
        loop {
            let mut l = String::new();
            match p.out.read_line(&mut l) {
                Ok(0) | Err(_) => {
                    let cmd = p.cmd.clone();
                    *p = Proc::start(&cmd);
                    return Answer::Unknown("solver died".into());
                }
                _ => {}
            }
            let t = l.trim();
            if t == "@@" || t == "\"@@\"" {
                break;
            }
            if t.contains("(error") {
                err = t.to_string();
            } else if !t.is_empty() {
                res = t.to_string();
            }
        }
        p.due.store(0, Ordering::SeqCst);
        let pop = |p: &mut Proc| {
            if inc {
                let _ = p.inp.write_all(b"(pop 1)\n");
            }
        };
        if !err.is_empty() {
            p.ready = false;
            return Answer::Unknown(err);
        }
        match res.as_str() {
            "unsat" => {
                pop(p);
                Answer::Unsat
            }
            "sat" => {
                let mut m = vec![0u128; nvars];
                if !vs.is_empty() {
                    let mut q = String::from("(get-value (");
                    for v in vs {
                        let _ = write!(q, "v{} ", v);
                    }
                    q.push_str("))\n(echo \"@@\")\n");
                    let _ = p.inp.write_all(q.as_bytes());
                    let _ = p.inp.flush();
                    let mut all = String::new();
                    loop {
                        let mut l = String::new();
                        match p.out.read_line(&mut l) {
                            Ok(0) | Err(_) => return Answer::Unknown("solver died".into()),
                            _ => {}
                        }
                        if l.trim().trim_matches('"') == "@@" {
                            break;
                        }
                        all.push_str(&l);
                    }
                    if all.contains("(error") {
                        return Answer::Unknown(all);
                    }
                    let toks: Vec<&str> = all
                        .split(|c: char| c.is_whitespace() || c == '(' || c == ')')
                        .filter(|t| !t.is_empty())
                        .collect();
                    let mut i = 0;
                    while i + 1 < toks.len() {
                        let v: usize = match toks[i].strip_prefix('v').and_then(|x| x.parse().ok()) {
                            Some(v) => v,
                            None => return Answer::Unknown(format!("model {:?}", all)),
                        };
                        let t = toks[i + 1];
                        let val = if let Some(h) = t.strip_prefix("#x") {
                            u128::from_str_radix(h, 16).unwrap()
                        } else if let Some(b) = t.strip_prefix("#b") {
                            u128::from_str_radix(b, 2).unwrap()
                        } else {
                            return Answer::Unknown(format!("model {:?}", all));
                        };
                        m[v] = val;
                        i += 2;
                    }
                }
                pop(p);
                Answer::Sat(Rc::new(m))
            }
            x => {
                p.ready = false;
                Answer::Unknown(format!("solver said {:?}", x))
            }
        }
    }

    /// Decides the conjunction of `cs` (each a 1-bit expression).
    pub fn check(&mut self, c: &mut Ctx, cs: &[Id], cross: bool) -> Answer {
        let mut key: Vec<Id> = cs.to_vec();
        key.sort();
        key.dedup();
        key.retain(|e| c.cv(*e) != Some(1));
        if key.iter().any(|e| c.cv(*e) == Some(0)) {
            return Answer::Unsat;
        }
        if key.is_empty() {
            return Answer::Sat(Rc::new(vec![0; c.var_w.len()]));
        }
        if let Some(a) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return a.clone();
        }
        let (text, vs) = emit(c, &key);
        if let Ok(d) = std::env::var("SYMX_DUMP") {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.stats.queries), format!("(set-logic QF_BV)\n{}(check-sat)\n", text));
        }
        let t0 = Instant::now();
        let a = Self::ask(&mut self.main, &text, &vs, c.var_w.len(), true, self.timeout_ms);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt
        }
        match &a {
            Answer::Sat(m) => {
                self.stats.sat += 1;
                // the model must satisfy the constraints under our own semantics
                c.new_epoch();
                for &k in &key {
                    if c.eval_more(k, m) != 1 {
                        return Answer::Unknown("model does not satisfy the encoding".into());
                    }
                }
            }
            Answer::Unsat => self.stats.unsat += 1,
            Answer::Unknown(_) => self.stats.unknown += 1,
        }
        if cross {
            if let Some(p) = &mut self.second {
                let z3 = p.cmd[0].contains("z3");
                let b = Self::ask(p, &text, &vs, c.var_w.len(), z3, self.timeout_ms);
                self.stats.cross += 1;
                let dis = matches!(
                    (&a, &b),
                    (Answer::Sat(_), Answer::Unsat) | (Answer::Unsat, Answer::Sat(_))
                );
                if dis {
                    self.stats.cross_disagree += 1;
                    return Answer::Unknown("solvers disagree".into());
                }
            }
        }
        self.cache.insert(key, a.clone());
        a
    }
}
