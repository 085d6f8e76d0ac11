mod exec;
mod expr;
mod ext;
mod fp;
mod fs;
mod ir;
mod solver;

use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Executed source lines and (possibly inlined) functions from debug info.
fn source_coverage(en: &exec::Engine, filt: &str) -> (Vec<String>, Vec<String>) {
    use std::collections::{BTreeSet, HashMap};
    let m = &en.m;
    let line = |k: u32| -> &'static str { m.meta.get(&k).map(|i| m.lines[*i]).unwrap_or("") };
    fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
        let p = l.find(k)?;
        let r = &l[p + k.len()..];
        let e = if let Some(s) = r.strip_prefix('"') { s.find('"')? + 2 } else { r.find([',', ')']).unwrap_or(r.len()) };
        Some(&r[..e])
    }
    let refid = |s: Option<&str>| -> Option<u32> { s.and_then(|x| x.strip_prefix('!')).and_then(|x| x.parse().ok()) };
    let mut files: HashMap<u32, bool> = HashMap::new();
    let mut funcs = BTreeSet::new();
    let mut lines = BTreeSet::new();
    let mut done = std::collections::HashSet::new();
    for (k, &b) in en.exec_dbg.iter().enumerate() {
        if !b {
            continue;
        }
        let mut cur = Some(k as u32);
        while let Some(c) = cur {
            if !done.insert(c) {
                break;
            }
            let l = line(c);
            let mut sc = refid(field(l, "scope: "));
            let ln = field(l, "line: ").unwrap_or("0").to_string();
            let mut hops = 0;
            while let Some(s) = sc {
                hops += 1;
                if hops > 60 {
                    break;
                }
                let sl = line(s);
                if sl.contains("!DISubprogram(") {
                    let f = refid(field(sl, "file: ")).unwrap_or(0);
                    let hit = *files.entry(f).or_insert_with(|| line(f).contains(filt));
                    if hit {
                        let nm = field(sl, "name: ").unwrap_or("?").trim_matches('"').to_string();
                        funcs.insert(nm);
                        lines.insert(ln.parse::<u32>().unwrap_or(0));
                    }
                    break;
                }
                sc = refid(field(sl, "scope: "));
            }
            cur = refid(field(l, "inlinedAt: "));
        }
    }
    lines.remove(&0);
    // compress lines to ranges
    let mut r: Vec<String> = vec![];
    let v: Vec<u32> = lines.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && v[j + 1] == v[j] + 1 {
            j += 1
        }
        r.push(if i == j { v[i].to_string() } else { format!("{}-{}", v[i], v[j]) });
        i = j + 1;
    }
    (funcs.into_iter().collect(), r)
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ir = String::new();
    let mut entry = String::new();
    let mut args = vec![];
    let mut solver = "z3-new -in".to_string();
    let mut second: Option<String> = None;
    let mut secs = 600u64;
    let mut tmo = 20000u64;
    let mut filt = "progenitor".to_string();
    let mut conc: Option<Vec<u128>> = None;
    let mut trace = false;
    let mut max_paths = u64::MAX;
    let mut max_steps = 400_000_000u64;
    let mut i = 1;
    while i < a.len() {
        let nx = || a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ir" => ir = nx(),
            "--entry" => entry = nx(),
            "--arg" => args = nx().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--solver" => solver = nx(),
            "--second" => second = Some(nx()),
            "--max-secs" => secs = nx().parse().unwrap(),
            "--timeout-ms" => tmo = nx().parse().unwrap(),
            "--filter" => filt = nx(),
            "--max-paths" => max_paths = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--concrete" => conc = Some(nx().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            x => panic!("unknown option {}", x),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&ir);
    let s = solver::Solver::new(&solver, second.as_deref(), tmo);
    let mut en = exec::Engine::new(m, s);
    en.args = args.clone();
    en.concrete = conc;
    en.trace = trace;
    en.max_paths = max_paths;
    en.max_steps = max_steps;
    en.deadline = Some(t0 + Duration::from_secs(secs));
    let tl = t0.elapsed().as_secs_f64();
    en.run(&entry);
    let (sf, sl) = source_coverage(&en, &filt);
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"entry\":{},\"args\":{:?},\"status\":{},\"paths\":{},\"completed\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"exprs\":{},\"wall_s\":{:.3},\"load_s\":{:.3}",
        js(&entry),
        args,
        js(if !en.errors.is_empty() {
            "error"
        } else if en.timed_out {
            "timeout"
        } else if !en.violations.is_empty() {
            "violated"
        } else {
            "ok"
        }),
        en.paths,
        en.paths_done,
        en.infeasible,
        en.forks,
        en.steps,
        en.c.nodes.len(),
        t0.elapsed().as_secs_f64(),
        tl
    );
    let st = &en.s.stats;
    let _ = write!(
        o,
        ",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"cross\":{},\"cross_disagree\":{}",
        st.queries, st.sat, st.unsat, st.unknown, st.cache_hits, st.model_hits, st.time, st.max_time, st.cross, st.cross_disagree
    );
    let _ = write!(o, ",\"errors\":{{");
    for (k, (e, n)) in en.errors.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if k > 0 { "," } else { "" }, js(e), n);
    }
    let _ = write!(o, "}},\"reach\":{{");
    for (k, (e, n)) in en.reach.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if k > 0 { "," } else { "" }, js(e), n);
    }
    let _ = write!(o, "}},\"checks\":{{");
    for (k, (e, n)) in en.checks.iter().enumerate() {
        let _ = write!(o, "{}{}:[{},{}]", if k > 0 { "," } else { "" }, js(e), n.0, n.1);
    }
    let _ = write!(o, "}},\"violation_counts\":{{");
    for (k, (e, n)) in en.vio_count.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if k > 0 { "," } else { "" }, js(e), n);
    }
    let _ = write!(o, "}},\"violations\":[");
    let dr = |d: &Vec<(u32, u128)>| -> String {
        format!("[{}]", d.iter().map(|(w, v)| format!("[{},{}]", w, v)).collect::<Vec<_>>().join(","))
    };
    for (k, v) in en.violations.iter().enumerate() {
        let _ = write!(
            o,
            "{}{{\"id\":{},\"kind\":{},\"draws\":{},\"notes\":[{}],\"stack\":[{}]}}",
            if k > 0 { "," } else { "" },
            js(&v.id),
            js(&v.kind),
            dr(&v.draws),
            v.notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            v.stack.iter().take(8).map(|s| js(s)).collect::<Vec<_>>().join(",")
        );
    }
    let _ = write!(o, "],\"samples\":[{}]", en.samples.iter().map(dr).collect::<Vec<_>>().join(","));
    let mut fns: Vec<String> = en.exec_syms.iter().map(|s| en.m.pretty(*s)).collect();
    fns.sort();
    let real: Vec<&String> = fns.iter().filter(|f| f.contains(filt.as_str())).collect();
    let _ = write!(
        o,
        ",\"ir_functions\":{},\"ir_functions_filtered\":[{}],\"source_functions\":[{}],\"source_lines\":[{}],\"out\":{}}}",
        fns.len(),
        real.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        sf.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        sl.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        js(&en.out.iter().map(|b| format!("{:02x}", b)).collect::<String>())
    );
    println!("{}", o);
    if (std::env::var_os("SYMX_PROF").is_some() || en.profq) {
        let mut v: Vec<_> = en.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in v.iter().take(25) {
            let bn = en.m.func(*f).map(|f| f.blocks[*b as usize].name.clone()).unwrap_or_default();
            eprintln!("{:8} {} {}", n, en.m.pretty(*f), bn);
        }
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("SYMX_VERBOSE").is_some() {
            eprintln!("engine panic: {}", i);
        }
    }));
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        eprintln!("symx: internal error (set SYMX_VERBOSE=1)");
        std::process::exit(3);
    }
}
