//! IEEE 754 single and double arithmetic on symbolic operands, as bit-vector
//! terms (round to nearest even). Differentially tested against the hardware
//! in the tests below.
use crate::expr::{Ctx, Id};

/// Width, mantissa bits, bias, greatest biased exponent.
fn fmt(w: u32) -> (u32, i128, i128) {
    if w == 32 {
        (23, 127, 255)
    } else {
        (52, 1023, 2047)
    }
}
/// Exponents are 16-bit two's complement numbers, significands 128 bits.
const X: u32 = 16;
const S: u32 = 128;

pub struct Un {
    neg: Id,
    /// unbiased
    exp: Id,
    /// leading one in the top bit unless zero
    sig: Id,
    nan: Id,
    inf: Id,
    zero: Id,
}

fn k(c: &mut Ctx, w: u32, v: i128) -> Id {
    let m = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
    c.konst(w, v as u128 & m)
}
fn top(c: &mut Ctx, s: Id) -> Id {
    let w = c.w(s);
    c.extract(s, w - 1, w - 1)
}
/// Shifts the leading one to the top, lowering the exponent.
fn normal(c: &mut Ctx, mut sig: Id, mut exp: Id) -> (Id, Id) {
    for p in [64u32, 32, 16, 8, 4, 2, 1] {
        let hi = c.extract(sig, S - 1, S - p);
        let z = k(c, p, 0);
        let none = c.eq(hi, z);
        let n = k(c, S, p as i128);
        let sh = c.shl(sig, n);
        sig = c.ite(none, sh, sig);
        let d = k(c, X, p as i128);
        let e = c.sub(exp, d);
        exp = c.ite(none, e, exp);
    }
    (sig, exp)
}
pub fn unpack(c: &mut Ctx, v: Id) -> Un {
    let w = c.w(v);
    let (m, bias, max) = fmt(w);
    let neg = c.extract(v, w - 1, w - 1);
    let be = c.extract(v, w - 2, m);
    let fr = c.extract(v, m - 1, 0);
    let ew = w - 1 - m;
    let e0 = k(c, ew, 0);
    let em = k(c, ew, max);
    let f0 = k(c, m, 0);
    let sub = c.eq(be, e0);
    let big = c.eq(be, em);
    let fz = c.eq(fr, f0);
    let fnz = c.not(fz);
    let nan = c.and(big, fnz);
    let inf = c.and(big, fz);
    let zero = c.and(sub, fz);
    let f = c.zext(fr, S);
    let sh = k(c, S, (S - 1 - m) as i128);
    let f = c.shl(f, sh);
    let one = k(c, S, i128::MIN);
    let n = c.or(f, one);
    let be = c.zext(be, X);
    let b = k(c, X, bias);
    let ne = c.sub(be, b);
    let se = k(c, X, 1 - bias);
    let (ss, se) = normal(c, f, se);
    let sig = c.ite(sub, ss, n);
    let exp = c.ite(sub, se, ne);
    Un { neg, exp, sig, nan, inf, zero }
}
/// `x >> n` for a 16-bit n >= 0, any bit lost kept in the lowest.
fn jam(c: &mut Ctx, x: Id, n: Id) -> Id {
    let lim = k(c, X, 127);
    let far = c.ult(lim, n);
    let n = c.ite(far, lim, n);
    let n = c.zext(n, S);
    let r = c.lshr(x, n);
    let b = c.shl(r, n);
    let same = c.eq(b, x);
    let lost = c.not(same);
    let l = c.zext(lost, S);
    c.or(r, l)
}
/// Rounds sig * 2^(exp-127) with sig's leading one in the top bit, or 0.
fn pack(c: &mut Ctx, w: u32, neg: Id, exp: Id, sig: Id) -> Id {
    let (m, bias, max) = fmt(w);
    let b = k(c, X, bias);
    let be = c.add(exp, b);
    let one = k(c, X, 1);
    let sub = c.slt(be, one);
    let by = c.sub(one, be);
    let shifted = jam(c, sig, by);
    let sig = c.ite(sub, shifted, sig);
    let drop = S - 1 - m;
    let keep = c.extract(sig, S - 1, drop);
    let half = c.extract(sig, drop - 1, drop - 1);
    let rest = c.extract(sig, drop - 2, 0);
    let rz = k(c, drop - 1, 0);
    let rz = c.eq(rest, rz);
    let rnz = c.not(rz);
    let odd = c.extract(sig, drop, drop);
    let t = c.or(rnz, odd);
    let up = c.and(half, t);
    let keep = c.zext(keep, w);
    let up = c.zext(up, w);
    let keep = c.add(keep, up);
    // a normal number's leading one adds one to the exponent field
    let base = c.sub(be, one);
    let zx = k(c, X, 0);
    let base = c.ite(sub, zx, base);
    let mx = k(c, X, max - 1);
    let over = c.slt(mx, be);
    let base = c.trunc(base, w.min(X));
    let base = c.zext(base, w);
    let sh = k(c, w, m as i128);
    let base = c.shl(base, sh);
    let r = c.add(base, keep);
    let inf = k(c, w, max << m);
    let r = c.ite(over, inf, r);
    signed(c, w, neg, r)
}
fn signed(c: &mut Ctx, w: u32, neg: Id, r: Id) -> Id {
    let n = c.zext(neg, w);
    let sh = k(c, w, w as i128 - 1);
    let n = c.shl(n, sh);
    c.or(n, r)
}
fn nan(c: &mut Ctx, w: u32) -> Id {
    let (m, _, max) = fmt(w);
    k(c, w, max << m | 1 << (m - 1))
}
fn inf(c: &mut Ctx, w: u32, neg: Id) -> Id {
    let (m, _, max) = fmt(w);
    let i = k(c, w, max << m);
    signed(c, w, neg, i)
}
fn zero(c: &mut Ctx, w: u32, neg: Id) -> Id {
    let z = k(c, w, 0);
    signed(c, w, neg, z)
}

pub fn convert(c: &mut Ctx, v: Id, to: u32) -> Id {
    let u = unpack(c, v);
    let r = pack(c, to, u.neg, u.exp, u.sig);
    let z = zero(c, to, u.neg);
    let r = c.ite(u.zero, z, r);
    let i = inf(c, to, u.neg);
    let r = c.ite(u.inf, i, r);
    let n = nan(c, to);
    c.ite(u.nan, n, r)
}
/// Saturating conversion to an integer of up to 127 bits.
pub fn to_int(c: &mut Ctx, v: Id, tw: u32, sign: bool) -> Id {
    let u = unpack(c, v);
    let z = k(c, X, 0);
    let small = c.slt(u.exp, z);
    let m = k(c, X, tw as i128);
    let big = c.slt(m, u.exp);
    let big = c.or(big, u.inf);
    let t = k(c, X, 127);
    let by = c.sub(t, u.exp);
    let by = c.zext(by, S);
    let mag = c.lshr(u.sig, by);
    let zs = k(c, S, 0);
    let mag = c.ite(small, zs, mag);
    let (pos, negmax) = if sign { ((1i128 << (tw - 1)) - 1, 1i128 << (tw - 1)) } else { ((1i128 << tw) - 1, 0) };
    let (p, n) = (k(c, S, pos), k(c, S, negmax));
    let lim = c.ite(u.neg, n, p);
    let over = c.ult(lim, mag);
    let over = c.or(over, big);
    let mag = c.ite(over, lim, mag);
    let minus = c.sub(zs, mag);
    let r = c.ite(u.neg, minus, mag);
    let none = c.or(u.nan, u.zero);
    let r = c.ite(none, zs, r);
    c.trunc(r, tw)
}
/// trunc, floor, ceil, round (half away from zero), roundeven.
pub fn integral(c: &mut Ctx, v: Id, how: &str) -> Id {
    let w = c.w(v);
    let (m, _, _) = fmt(w);
    let u = unpack(c, v);
    let z = k(c, X, 0);
    let mm = k(c, X, m as i128 - 1);
    let whole = c.slt(mm, u.exp);
    let keep = c.or(whole, u.zero);
    let same = c.or(keep, u.nan);
    let same = c.or(same, u.inf);
    // 63.64 fixed point
    let by = k(c, X, 63);
    let by = c.sub(by, u.exp);
    let one = k(c, X, 1);
    let fx = jam(c, u.sig, by);
    let _ = (z, one);
    let ip = c.extract(fx, 127, 64);
    let fp = c.extract(fx, 63, 0);
    let z64 = k(c, 64, 0);
    let exact = c.eq(fp, z64);
    let frac = c.not(exact);
    let pos = c.not(u.neg);
    let half = k(c, 64, 1i128 << 63);
    let below = c.ult(fp, half);
    let ge = c.not(below);
    let gt = c.ult(half, fp);
    let odd = c.extract(fx, 64, 64);
    let up = match how {
        "trunc" => k(c, 1, 0),
        "floor" => c.and(u.neg, frac),
        "ceil" => c.and(pos, frac),
        "round" => ge,
        _ => {
            let t = c.and(ge, odd);
            c.or(gt, t)
        }
    };
    let up = c.zext(up, 64);
    let ip = c.add(ip, up);
    let s = c.zext(ip, S);
    let e = k(c, X, 127);
    let (sig, exp) = normal(c, s, e);
    let r = pack(c, w, u.neg, exp, sig);
    let none = c.eq(ip, z64);
    let zr = zero(c, w, u.neg);
    let r = c.ite(none, zr, r);
    c.ite(same, v, r)
}
pub fn add(c: &mut Ctx, a: Id, b: Id) -> Id {
    let w = c.w(a);
    let (ua, ub) = (unpack(c, a), unpack(c, b));
    // the operand of greater magnitude first
    let am = k(c, w, (1i128 << (w - 1)) - 1);
    let (ma, mb) = (c.and(a, am), c.and(b, am));
    let sw = c.ult(ma, mb);
    let pick = |c: &mut Ctx, x: Id, y: Id| (c.ite(sw, y, x), c.ite(sw, x, y));
    let (se, le) = { let (x, y) = pick(c, ua.exp, ub.exp); (x, y) };
    let (ss, ls) = { let (x, y) = pick(c, ua.sig, ub.sig); (x, y) };
    let (sn, _) = pick(c, ua.neg, ub.neg);
    let one = k(c, S, 1);
    let bx = c.lshr(ss, one);
    let lx = c.lshr(ls, one);
    let d = c.sub(se, le);
    let zb = c.ite(sw, ua.zero, ub.zero);
    let lx = jam(c, lx, d);
    let z = k(c, S, 0);
    let lx = c.ite(zb, z, lx);
    let diff = c.xor(ua.neg, ub.neg);
    let (p, q) = (c.add(bx, lx), c.sub(bx, lx));
    let sum = c.ite(diff, q, p);
    let o = k(c, X, 1);
    let e = c.add(se, o);
    let (sig, exp) = normal(c, sum, e);
    let r = pack(c, w, sn, exp, sig);
    let none = c.eq(sum, z);
    let both = c.and(ua.neg, ub.neg);
    let zr = zero(c, w, both);
    let r = c.ite(none, zr, r);
    let ib = inf(c, w, ub.neg);
    let r = c.ite(ub.inf, ib, r);
    let ia = inf(c, w, ua.neg);
    let r = c.ite(ua.inf, ia, r);
    let bi = c.and(ua.inf, ub.inf);
    let bad = c.and(bi, diff);
    let n = c.or(ua.nan, ub.nan);
    let bad = c.or(bad, n);
    let nn = nan(c, w);
    c.ite(bad, nn, r)
}
pub fn neg(c: &mut Ctx, a: Id) -> Id {
    let w = c.w(a);
    let s = k(c, w, 1i128 << (w - 1));
    c.xor(a, s)
}
pub fn mul(c: &mut Ctx, a: Id, b: Id) -> Id {
    let w = c.w(a);
    let (m, _, _) = fmt(w);
    let (ua, ub) = (unpack(c, a), unpack(c, b));
    let sh = k(c, S, (S - 1 - m) as i128);
    let (x, y) = (c.lshr(ua.sig, sh), c.lshr(ub.sig, sh));
    let p = c.mul(x, y);
    let e = c.add(ua.exp, ub.exp);
    let o = k(c, X, (S - 1 - 2 * m) as i128);
    let e = c.add(e, o);
    let (sig, exp) = normal(c, p, e);
    let neg = c.xor(ua.neg, ub.neg);
    let r = pack(c, w, neg, exp, sig);
    let az = c.or(ua.zero, ub.zero);
    let ai = c.or(ua.inf, ub.inf);
    finish(c, w, neg, r, az, ai, &ua, &ub)
}
fn finish(c: &mut Ctx, w: u32, neg: Id, r: Id, az: Id, ai: Id, ua: &Un, ub: &Un) -> Id {
    let z = zero(c, w, neg);
    let r = c.ite(az, z, r);
    let i = inf(c, w, neg);
    let r = c.ite(ai, i, r);
    let bad = c.and(az, ai);
    let n = c.or(ua.nan, ub.nan);
    let bad = c.or(bad, n);
    let nn = nan(c, w);
    c.ite(bad, nn, r)
}
pub fn div(c: &mut Ctx, a: Id, b: Id) -> Id {
    let w = c.w(a);
    let (m, _, _) = fmt(w);
    let (ua, ub) = (unpack(c, a), unpack(c, b));
    let sh = k(c, S, (S - 1 - m) as i128);
    let y = c.lshr(ub.sig, sh);
    let o1 = k(c, S, 1);
    let y = c.ite(ub.zero, o1, y);
    let q = c.udiv(ua.sig, y);
    let back = c.mul(q, y);
    let exact = c.eq(back, ua.sig);
    let rest = c.not(exact);
    let rest = c.zext(rest, S);
    let q = c.or(q, rest);
    let e = c.sub(ua.exp, ub.exp);
    let o = k(c, X, m as i128);
    let e = c.add(e, o);
    let (sig, exp) = normal(c, q, e);
    let neg = c.xor(ua.neg, ub.neg);
    let r = pack(c, w, neg, exp, sig);
    let az = c.or(ua.zero, ub.inf);
    let ai = c.or(ua.inf, ub.zero);
    finish(c, w, neg, r, az, ai, &ua, &ub)
}

#[cfg(test)]
mod tests {
    use super::*;
    fn value(i: u64) -> u64 {
        let mut x = i.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        x ^= x >> 29;
        x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
        x ^= x >> 32;
        match i % 8 {
            0 => ((i / 8) as f64 / 4.0).to_bits() | x << 63,
            1 => x & 0x800f_ffff_ffff_ffff,
            2 => x & 0x8000_0000_0000_0000 | 0x7ff0_0000_0000_0000,
            3 => (x as i64 as f64).to_bits(),
            4 => ((x % 200) as f64 / 2.0 - 50.0).to_bits(),
            5 => x & 0xbfff_ffff_ffff_ffff | 0x3800_0000_0000_0000,
            6 => x & 0x801f_ffff_ffff_ffff | 0x3fe0_0000_0000_0000,
            _ => x,
        }
    }
    fn v32(i: u64) -> u32 {
        let v = value(i);
        match i % 3 {
            0 => (f64::from_bits(v) as f32).to_bits(),
            1 => v as u32,
            _ => (v >> 32) as u32 & 0x80ff_ffff,
        }
    }
    #[test]
    fn against_hardware() {
        for i in 0..60000u64 {
            let mut c = Ctx::new();
            let (a, b) = (value(i), value(i * 7 + 3));
            let (x, y) = (f64::from_bits(a), f64::from_bits(b));
            let (ca, cb) = (c.konst(64, a as u128), c.konst(64, b as u128));
            let same = |c: &Ctx, r: Id, f: f64, what: &str| {
                let g = c.cv(r).unwrap() as u64;
                assert!(g == f.to_bits() || f.is_nan() && f64::from_bits(g).is_nan(), "{what} {x:e} {y:e} {g:x} {:x}", f.to_bits());
            };
            let same32 = |c: &Ctx, r: Id, f: f32, what: &str| {
                let g = c.cv(r).unwrap() as u32;
                assert!(g == f.to_bits() || f.is_nan() && f32::from_bits(g).is_nan(), "{what} {x:e} {g:x} {:x}", f.to_bits());
            };
            for (how, f) in [("trunc", x.trunc()), ("floor", x.floor()), ("ceil", x.ceil()), ("round", x.round()), ("roundeven", x.round_ties_even())] {
                let r = integral(&mut c, ca, how);
                same(&c, r, f, how);
            }
            let r = add(&mut c, ca, cb);
            same(&c, r, x + y, "add");
            let r = mul(&mut c, ca, cb);
            same(&c, r, x * y, "mul");
            let r = div(&mut c, ca, cb);
            same(&c, r, x / y, "div");
            let r = convert(&mut c, ca, 32);
            same32(&c, r, x as f32, "narrow");
            for (tw, s, want) in [(64, true, x as i64 as u64 as u128), (64, false, x as u64 as u128), (32, true, x as i32 as u32 as u128), (8, false, x as u8 as u128)] {
                let r = to_int(&mut c, ca, tw, s);
                assert_eq!(c.cv(r), Some(want), "{x:e} {tw} {s}");
            }
            let (p, q) = (v32(i), v32(i * 5 + 1));
            let (u, v) = (f32::from_bits(p), f32::from_bits(q));
            let (cp, cq) = (c.konst(32, p as u128), c.konst(32, q as u128));
            let r = convert(&mut c, cp, 64);
            same(&c, r, u as f64, "widen");
            let r = add(&mut c, cp, cq);
            same32(&c, r, u + v, "add32");
            let r = mul(&mut c, cp, cq);
            same32(&c, r, u * v, "mul32");
            let r = div(&mut c, cp, cq);
            same32(&c, r, u / v, "div32");
            let r = integral(&mut c, cp, "round");
            same32(&c, r, u.round(), "round32");
        }
    }
}
