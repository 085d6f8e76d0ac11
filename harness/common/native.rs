use std::cell::RefCell;
thread_local! {
    static DRAWS: RefCell<std::collections::VecDeque<u128>> = Default::default();
    static ARGS: RefCell<Vec<u64>> = Default::default();
    static OUT: RefCell<Vec<u8>> = Default::default();
    static FAILED: RefCell<Vec<String>> = Default::default();
    static SCRATCH: RefCell<Option<std::path::PathBuf>> = Default::default();
}
fn draw() -> u128 {
    match DRAWS.with(|d| d.borrow_mut().pop_front()) {
        Some(v) => v,
        None => fin(Some("more symbolic draws than recorded"), 78),
    }
}
fn fin(msg: Option<&str>, code: i32) -> ! {
    if let Some(m) = msg {
        println!("end: {}", m);
    }
    OUT.with(|o| {
        println!("out: {}", o.borrow().iter().map(|b| format!("{:02x}", b)).collect::<String>())
    });
    let f = FAILED.with(|f| f.borrow().clone());
    for x in &f {
        println!("failed: {}", x);
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    SCRATCH.with(|d| {
        if let Some(d) = d.borrow_mut().take() {
            let _ = std::env::set_current_dir("/");
            // only ever a directory this process made
            let _ = std::fs::remove_dir_all(&d);
        }
    });
    std::process::exit(if !f.is_empty() { 1 } else { code })
}
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    std::slice::from_raw_parts(p, n)
}
#[no_mangle]
extern "C" fn symx_u8() -> u8 {
    draw() as u8
}
#[no_mangle]
extern "C" fn symx_u16() -> u16 {
    draw() as u16
}
#[no_mangle]
extern "C" fn symx_u32() -> u32 {
    draw() as u32
}
#[no_mangle]
extern "C" fn symx_u64() -> u64 {
    draw() as u64
}
#[no_mangle]
extern "C" fn symx_choose(_n: u32) -> u32 {
    draw() as u32
}
#[no_mangle]
extern "C" fn symx_assume(c: bool) {
    if !c {
        fin(Some("assumption false"), 77)
    }
}
#[no_mangle]
unsafe extern "C" fn symx_check(c: bool, p: *const u8, n: usize) {
    if !c {
        let s = String::from_utf8_lossy(sl(p, n)).into_owned();
        FAILED.with(|f| f.borrow_mut().push(s));
    }
}
#[no_mangle]
unsafe extern "C" fn symx_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
unsafe extern "C" fn symx_note(_p: *const u8, _n: usize) {}
#[no_mangle]
unsafe extern "C" fn symx_out(p: *const u8, n: usize) {
    let b = sl(p, n).to_vec();
    OUT.with(|o| {
        let mut o = o.borrow_mut();
        o.extend_from_slice(&b);
        o.push(0x0a);
    });
}
#[no_mangle]
unsafe extern "C" fn symx_scratch(p: *mut u8, n: usize) -> usize {
    let d = SCRATCH.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let d = (0..1000)
                .map(|k| std::path::PathBuf::from(format!("/tmp/symx-replay-{}-{}", std::process::id(), k)))
                .find(|d| std::fs::create_dir(d).is_ok());
            if let Some(d) = &d {
                let _ = std::env::set_current_dir(d);
            }
            *s = d;
        }
        s.clone()
    });
    let Some(d) = d else { fin(Some("no scratch directory"), 78) };
    let t = d.to_string_lossy().into_owned();
    std::slice::from_raw_parts_mut(p, n)[..t.len()].copy_from_slice(t.as_bytes());
    t.len()
}
#[no_mangle]
extern "C" fn symx_arg(i: u32) -> u64 {
    ARGS.with(|a| a.borrow().get(i as usize).copied().unwrap_or(0))
}
fn nums(s: Option<String>) -> Vec<u128> {
    s.unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn main() {
    let mut a = std::env::args().skip(1);
    let e = a.next().unwrap_or_default();
    let args = nums(a.next());
    let draws = nums(a.next());
    ARGS.with(|x| *x.borrow_mut() = args.iter().map(|v| *v as u64).collect());
    DRAWS.with(|x| *x.borrow_mut() = draws.into_iter().collect());
    let Some(f) = lookup(&e) else {
        println!("no such entry {}", e);
        std::process::exit(79)
    };
    std::panic::set_hook(Box::new(|i| {
        println!("panic: {}", i);
    }));
    match std::panic::catch_unwind(f) {
        Ok(()) => fin(None, 0),
        Err(_) => {
            FAILED.with(|f| f.borrow_mut().push("panic".into()));
            fin(Some("panicked"), 101)
        }
    }
}
