//! Harness side of the symbolic-execution API. In the cdylib the `symx_*`
//! symbols stay undefined and are interpreted by the engine; in the replay
//! binary they are real functions that read a recorded assignment.
#![allow(dead_code)]
mod ffi {
    extern "C" {
        pub fn symx_u8() -> u8;
        pub fn symx_u16() -> u16;
        pub fn symx_u32() -> u32;
        pub fn symx_u64() -> u64;
        pub fn symx_choose(n: u32) -> u32;
        pub fn symx_assume(c: bool);
        pub fn symx_check(c: bool, p: *const u8, n: usize);
        pub fn symx_reach(p: *const u8, n: usize);
        pub fn symx_note(p: *const u8, n: usize);
        pub fn symx_out(p: *const u8, n: usize);
        pub fn symx_arg(i: u32) -> u64;
        pub fn symx_scratch(p: *mut u8, n: usize) -> usize;
    }
}
pub fn u8() -> u8 {
    unsafe { ffi::symx_u8() }
}
pub fn u16() -> u16 {
    unsafe { ffi::symx_u16() }
}
pub fn u32() -> u32 {
    unsafe { ffi::symx_u32() }
}
pub fn u64() -> u64 {
    unsafe { ffi::symx_u64() }
}
/// Nondeterministic choice of 0..n; every value becomes its own path.
pub fn choose(n: u32) -> u32 {
    unsafe { ffi::symx_choose(n) }
}
pub fn assume(c: bool) {
    unsafe { ffi::symx_assume(c) }
}
pub fn check(c: bool, id: &str) {
    unsafe { ffi::symx_check(c, id.as_ptr(), id.len()) }
}
pub fn reach(id: &str) {
    unsafe { ffi::symx_reach(id.as_ptr(), id.len()) }
}
/// Observable of the run: compared between the engine and the native replay.
pub fn out(b: &[u8]) {
    unsafe { ffi::symx_out(b.as_ptr(), b.len()) }
}
pub fn arg(i: u32) -> u64 {
    unsafe { ffi::symx_arg(i) }
}
/// An empty directory of this run's own, which is also the working directory.
pub fn scratch() -> String {
    let mut v = vec![0u8; 256];
    let n = unsafe { ffi::symx_scratch(v.as_mut_ptr(), v.len()) };
    v.truncate(n);
    String::from_utf8(v).unwrap_or_default()
}
/// n symbolic bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u8());
    }
    v
}
/// Any valid UTF-8 string of exactly n bytes.
pub fn string(n: usize) -> String {
    match String::from_utf8(bytes(n)) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
/// Long string with few variables: `n` bytes, every byte the same symbolic
/// ASCII byte except `k` independent symbolic ASCII bytes at first, middle and
/// last position.
pub fn pattern(n: usize, k: usize) -> String {
    let f = u8();
    assume(f < 128);
    let mut v = vec![f; n];
    let pos = [n.saturating_sub(1), 0, n / 2, n / 3];
    for p in pos.iter().take(k) {
        let b = u8();
        assume(b < 128);
        if *p < n {
            v[*p] = b;
        }
    }
    String::from_utf8(v).unwrap_or_default()
}
/// Equality as one formula (no path split per byte).
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// n symbolic bytes of an alphabet that no encoder touches (a: 0 lowercase,
/// 1 uppercase, 2 digits, 3 any ASCII letter or digit).
pub fn word(n: usize, a: u64) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = u8();
        let lo = (b >= b'a') & (b <= b'z');
        let up = (b >= b'A') & (b <= b'Z');
        let di = (b >= b'0') & (b <= b'9');
        assume(match a {
            0 => lo,
            1 => up,
            2 => di,
            _ => lo | up | di,
        });
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A name for serializer calls that want one for ever.
pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
