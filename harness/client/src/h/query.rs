use super::rec::{self, leaf_eq, Leaf, Recd};
use super::util::*;
use crate::rt;
use progenitor_client::QueryParam;
use serde::{Serialize, Serializer};

/// A string value of arg0 bytes (arg1 > 0: long pattern with arg1 free bytes).
pub fn text() {
    let (n, k) = (rt::arg(0) as usize, rt::arg(1) as usize);
    let s = if k > 0 { rt::pattern(n, k - 1) } else { rt::string(n) };
    let want = vec![pair(b"name", s.as_bytes())];
    check_pairs(query("name", &s), &want, "query: string value decodes to itself");
}

/// A parameter name of arg0 bytes.
pub fn name() {
    let s = rt::string(rt::arg(0) as usize);
    match rt::choose(4) {
        0 => check_pairs(query(&s, &7u8), &vec![pair(s.as_bytes(), b"7")], "query: scalar under its name"),
        1 => check_pairs(
            query(&s, &vec![1u8, 2]),
            &vec![pair(s.as_bytes(), b"1"), pair(s.as_bytes(), b"2")],
            "query: elements under the name",
        ),
        2 => check_pairs(query(&s, &Some("x")), &vec![pair(s.as_bytes(), b"x")], "query: optional under its name"),
        _ => check_pairs(query(&s, &None::<u8>), &vec![], "query: absent sends nothing"),
    }
}

/// Does `t` spell `v` in canonical decimal?
fn decimal_of(t: &[u8], v: i128) -> bool {
    let (neg, d) = match t.split_first() {
        Some((b'-', r)) => (true, r),
        _ => (false, t),
    };
    if d.is_empty() || d.len() > 20 {
        return false;
    }
    if (d.len() > 1 || neg) && d[0] == b'0' {
        return false;
    }
    let mut x: u64 = 0;
    let mut ok = true;
    for c in d {
        ok &= *c >= b'0' && *c <= b'9';
        x = x.wrapping_mul(10).wrapping_add((*c).wrapping_sub(b'0') as u64);
    }
    let m = if neg { (v as i64).wrapping_neg() as u64 } else { v as u64 };
    ok & (x == m) & (neg == (v < 0))
}

fn int_case<T: Serialize>(v: T, want: i128) {
    match query("n", &v) {
        Ok(r) => {
            rt::out(r.url().as_str().as_bytes());
            let ok = match pairs_of(&r) {
                Some(p) => p.len() == 1 && p[0].0 == b"n" && decimal_of(&p[0].1, want),
                None => false,
            };
            rt::check(ok & rest_intact(&r), "query: integer appears in decimal");
        }
        Err(_) => rt::check(false, "query: integer accepted"),
    }
}

/// Integers through the URL; arg0 selects the type.
pub fn int() {
    match rt::arg(0) {
        0 => {
            let v = rt::u8();
            int_case(v, v as i128)
        }
        1 => {
            let v = rt::u8() as i8;
            int_case(v, v as i128)
        }
        2 => {
            let v = rt::u16();
            int_case(v, v as i128)
        }
        3 => {
            let v = rt::u16() as i16;
            int_case(v, v as i128)
        }
        4 => {
            let v = rt::u32();
            int_case(v, v as i128)
        }
        5 => {
            let v = rt::u32() as i32;
            int_case(v, v as i128)
        }
        6 => {
            let v = rt::u64();
            int_case(v, v as i128)
        }
        7 => {
            let v = rt::u64() as i64;
            int_case(v, v as i128)
        }
        // 256 consecutive values around each boundary
        k => {
            const B: [u64; 14] = [
                0, 9_900, 65_400, 99_900, 9_999_900, 0x7fff_ff80, 0xffff_ff80, 9_999_999_900, 99_999_999_999_900,
                0x7fff_ffff_ffff_ff80, 0xffff_ffff_ffff_ff00, 9_999_999_999_999_999_900, 0x1f_ffff_ffff_ffff, 999_999_999_999_999_900,
            ];
            let b = B[rt::choose(14) as usize];
            let v = b.wrapping_add(rt::u8() as u64);
            match k {
                8 => int_case(v, v as i128),
                9 => int_case(v as i64, v as i64 as i128),
                10 => int_case(v as u32, v as u32 as i128),
                _ => int_case(v as i32, v as i32 as i128),
            }
        }
    }
}

/// bool, char and nested options/references through the URL.
pub fn misc() {
    match rt::arg(0) {
        0 => {
            let b = rt::u8() & 1 == 1;
            let w: &[u8] = if b { b"true" } else { b"false" };
            check_pairs(query("b", &b), &vec![pair(b"b", w)], "query: bool");
        }
        1 => {
            let c = rt::u32();
            let c = match char::from_u32(c) {
                Some(c) => c,
                None => {
                    rt::assume(false);
                    return;
                }
            };
            let mut b = [0u8; 4];
            let w = c.encode_utf8(&mut b).as_bytes().to_vec();
            check_pairs(query("c", &c), &vec![pair(b"c", &w)], "query: char");
        }
        _ => {
            const F: [(f64, &str); 18] = [
                (1.5, "1.5"),
                (-0.25, "-0.25"),
                (1e20, "1e20"),
                (0.0, "0.0"),
                (123456.75, "123456.75"),
                (1e-7, "1e-7"),
                (-0.0, "-0.0"),
                (f64::NAN, "NaN"),
                (f64::INFINITY, "inf"),
                (f64::NEG_INFINITY, "-inf"),
                (f64::MAX, "1.7976931348623157e308"),
                (f64::MIN_POSITIVE, "2.2250738585072014e-308"),
                (5e-324, "5e-324"),
                (0.1, "0.1"),
                (16777217.0, "16777217.0"),
                (9007199254740991.0, "9007199254740991.0"),
                (-1.0, "-1.0"),
                (1e16, "1e16"),
            ];
            let i = rt::choose(F.len() as u32) as usize;
            check_pairs(query("f", &F[i].0), &vec![pair(b"f", F[i].1.as_bytes())], "query: f64");
            if i < 2 {
                let f = F[i].0 as f32;
                check_pairs(query("f", &f), &vec![pair(b"f", F[i].1.as_bytes())], "query: f32");
            }
            check_pairs(query("f", &0.1f32), &vec![pair(b"f", b"0.1")], "query: f32");
        }
    }
}

fn rec_case<T: Serialize>(v: T, want: Leaf) {
    let nm = rt::string(2);
    let r = QueryParam::new(&nm, &v).serialize(rec::Top);
    let ok = match r {
        Ok(p) => {
            p.len() == 1 && (leaf_eq(&p[0].0, &Leaf::Str(nm.into_bytes())) & leaf_eq(&p[0].1, &want))
        }
        Err(_) => false,
    };
    rt::check(ok, "query: full-width scalar reaches the form serializer unchanged");
}

fn mk_scalar(kind: u64) -> (Dyn, Leaf) {
    let (lo, hi) = (rt::u64(), 0u64);
    let _ = hi;
    match kind {
        0 => (Dyn::Bool(lo & 1 == 1), Leaf::Bool(lo & 1 == 1)),
        1 => (Dyn::I8(lo as i8), Leaf::Int(lo as i8 as i128)),
        2 => (Dyn::I16(lo as i16), Leaf::Int(lo as i16 as i128)),
        3 => (Dyn::I32(lo as i32), Leaf::Int(lo as i32 as i128)),
        4 => (Dyn::I64(lo as i64), Leaf::Int(lo as i64 as i128)),
        5 => (Dyn::U8(lo as u8), Leaf::Int(lo as u8 as i128)),
        6 => (Dyn::U16(lo as u16), Leaf::Int(lo as u16 as i128)),
        7 => (Dyn::U32(lo as u32), Leaf::Int(lo as u32 as i128)),
        8 => (Dyn::U64(lo), Leaf::Int(lo as i128)),
        9 => (Dyn::F32(f32::from_bits(lo as u32)), Leaf::F32(lo as u32)),
        10 => (Dyn::F64(f64::from_bits(lo)), Leaf::F64(lo)),
        _ => match char::from_u32(lo as u32) {
            Some(c) => (Dyn::Char(c), Leaf::Char(c as u32)),
            None => {
                rt::assume(false);
                unreachable!()
            }
        },
    }
}

/// A scalar whose serializer call is picked at run time.
#[derive(Clone, Copy)]
pub enum Dyn {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Char(char),
}
impl Serialize for Dyn {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match *self {
            Dyn::Bool(v) => s.serialize_bool(v),
            Dyn::I8(v) => s.serialize_i8(v),
            Dyn::I16(v) => s.serialize_i16(v),
            Dyn::I32(v) => s.serialize_i32(v),
            Dyn::I64(v) => s.serialize_i64(v),
            Dyn::U8(v) => s.serialize_u8(v),
            Dyn::U16(v) => s.serialize_u16(v),
            Dyn::U32(v) => s.serialize_u32(v),
            Dyn::U64(v) => s.serialize_u64(v),
            Dyn::F32(v) => s.serialize_f32(v),
            Dyn::F64(v) => s.serialize_f64(v),
            Dyn::Char(v) => s.serialize_char(v),
        }
    }
}

/// Full-width scalars against the recording serializer; arg0 selects the kind.
pub fn rec_scalar() {
    let (v, want) = mk_scalar(rt::arg(0));
    match rt::choose(2) {
        0 => rec_case(v, want),
        _ => rec_case(Some(Some(v)), want),
    }
}

/// 128-bit integers: no form serializer has to take them, but none may send
/// another number. arg0: 0 alone, 1 optional, 2 newtype, 3 in a list, 4 in a
/// map, 5 in an object.
pub fn wide_int() {
    use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct};
    struct W(u128, bool, u64);
    struct One<'a>(&'a W);
    impl Serialize for One<'_> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            if self.0 .1 {
                s.serialize_i128(self.0 .0 as i128)
            } else {
                s.serialize_u128(self.0 .0)
            }
        }
    }
    impl Serialize for W {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let v = One(self);
            match self.2 {
                0 => v.serialize(s),
                1 => s.serialize_some(&v),
                2 => s.serialize_newtype_struct("W", &v),
                3 => {
                    let mut q = s.serialize_seq(Some(1))?;
                    q.serialize_element(&v)?;
                    q.end()
                }
                4 => {
                    let mut q = s.serialize_map(None)?;
                    q.serialize_entry("p", &v)?;
                    q.end()
                }
                _ => {
                    let mut q = s.serialize_struct("O", 1)?;
                    q.serialize_field("p", &v)?;
                    q.end()
                }
            }
        }
    }
    let n = ((rt::u64() as u128) << 64) | rt::u64() as u128;
    let signed = rt::choose(2) == 1;
    let v = W(n, signed, rt::arg(0));
    let want = if signed { Leaf::Int(n as i128) } else { Leaf::Wide(n) };
    let id = "query: a 128-bit number is sent as it is or refused";
    match QueryParam::new("p", &v).serialize(rec::Top) {
        Ok(p) => rt::check(
            p.len() == 1 && (leaf_eq(&p[0].0, &Leaf::Str(b"p".to_vec())) & leaf_eq(&p[0].1, &want)),
            id,
        ),
        Err(_) => rt::check(true, id),
    }
    // the whole way for numbers at the edges
    let n = [0u128, 1, u64::MAX as u128, u64::MAX as u128 + 1, i64::MAX as u128 + 1, i64::MIN as i128 as u128, (i64::MIN as i128 - 1) as u128, u128::MAX, 1 << 127]
        [rt::choose(9) as usize];
    let v = W(n, signed, rt::arg(0));
    let text = if signed { (n as i128).to_string() } else { n.to_string() };
    if let Ok(r) = query("p", &v) {
        check_pairs(Ok(r), &vec![pair(b"p", text.as_bytes())], "query: a 128-bit number in the url is itself");
    } else {
        rt::check(true, "query: a 128-bit number in the url is itself");
    }
}

/// arg0 u8 elements through the URL.
pub fn arr() {
    let n = rt::arg(0) as usize;
    let v = rt::bytes(n);
    match query("tag", &v) {
        Ok(r) => {
            rt::out(r.url().as_str().as_bytes());
            let ok = match pairs_of(&r) {
                Some(p) => {
                    let mut ok = p.len() == n;
                    if ok {
                        for i in 0..n {
                            ok &= rt::same(&p[i].0, b"tag");
                            ok &= decimal_of(&p[i].1, v[i] as i128);
                        }
                    }
                    ok
                }
                None => false,
            };
            rt::check(ok & rest_intact(&r), "query: one pair per element, in order");
        }
        Err(_) => rt::check(false, "query: one pair per element, in order"),
    }
}

/// arg0 elements of full-width scalars (kind arg1) against the recorder;
/// arg2: 0 Vec, 1 slice reference, 2 optional Vec, 3 options inside, 4 unsized hint
pub fn arr_rec() {
    let n = rt::arg(0) as usize;
    let mut vs = vec![];
    let mut want: Recd = vec![];
    for _ in 0..n {
        let (v, l) = mk_scalar(rt::arg(1));
        vs.push(v);
        want.push((Leaf::Str(b"el".to_vec()), l));
    }
    let r = match rt::arg(2) {
        0 => QueryParam::new("el", &vs).serialize(rec::Top),
        1 => QueryParam::new("el", &&vs[..]).serialize(rec::Top),
        2 => QueryParam::new("el", &Some(vs)).serialize(rec::Top),
        3 => {
            let o: Vec<Option<Dyn>> = vs.iter().map(|v| Some(*v)).collect();
            QueryParam::new("el", &o).serialize(rec::Top)
        }
        _ => QueryParam::new("el", &NoHint(vs)).serialize(rec::Top),
    };
    let ok = match r {
        Ok(p) => rec::rec_eq(&p, &want),
        Err(_) => false,
    };
    rt::check(ok, "query: every element reaches the form serializer, in order");
}
/// A sequence that does not announce its length (as iterators do).
struct NoHint(Vec<Dyn>);
impl Serialize for NoHint {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let mut q = s.serialize_seq(None)?;
        for v in &self.0 {
            q.serialize_element(v)?;
        }
        q.end()
    }
}

/// Array of strings: arg0 elements of arg1 bytes.
pub fn arr_str() {
    let (n, m) = (rt::arg(0) as usize, rt::arg(1) as usize);
    let v: Vec<String> = (0..n).map(|_| rt::string(m)).collect();
    let want: Pairs = v.iter().map(|s| pair(b"t[]", s.as_bytes())).collect();
    check_pairs(query("t[]", &v), &want, "query: one pair per string, in order");
}

/// arg0 elements, all the same symbolic byte but the first, middle and last.
pub fn arr_long() {
    let n = rt::arg(0) as usize;
    let mut v = vec![rt::u8(); n];
    for p in [n - 1, n / 2, 0] {
        v[p] = rt::u8();
    }
    let want: Recd = v.iter().map(|b| (Leaf::Str(b"el".to_vec()), Leaf::Int(*b as i128))).collect();
    let ok = match QueryParam::new("el", &v).serialize(rec::Top) {
        Ok(p) => rec::rec_eq(&p, &want),
        Err(_) => false,
    };
    rt::check(ok, "query: every element of a long list, in order");
    // and through the URL, with concrete text
    let c: Vec<u16> = (0..n as u16).collect();
    let want: Pairs = c.iter().map(|b| pair(b"el", b.to_string().as_bytes())).collect();
    check_pairs(query("el", &c), &want, "query: every element of a long list, in order");
}

/// A map value: arg0 entries with symbolic keys and values.
pub fn map() {
    let n = rt::arg(0) as usize;
    let (a, b) = (rt::arg(1) as usize, rt::arg(2) as usize);
    let mut es: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let k = rt::string(a);
        let v = rt::string(b);
        es.push((k, v));
    }
    let want: Pairs = es.iter().map(|(k, v)| pair(k.as_bytes(), v.as_bytes())).collect();
    check_pairs(query("ignored", &Es(es)), &want, "query: one pair per map entry");
}
struct Es(Vec<(String, String)>);
impl Serialize for Es {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(self.0.iter().map(|(k, v)| (k, v)))
    }
}

#[derive(Serialize)]
struct Inner {
    #[serde(rename = "x y")]
    x: u8,
    #[serde(skip_serializing_if = "Option::is_none")]
    t: Option<String>,
    u: Option<u8>,
}
#[derive(Serialize, Clone, Copy)]
#[serde(rename_all = "kebab-case")]
enum Unit {
    FirstOne,
    #[serde(rename = "a&b=c")]
    Odd,
}
#[derive(Serialize)]
enum External {
    Plain,
    One(String),
    #[allow(dead_code)]
    Obj { a: u8 },
}
#[derive(Serialize)]
#[serde(tag = "type")]
enum Internal {
    A { v: String },
    B,
}
#[derive(Serialize)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    A(String),
    B,
}
#[derive(Serialize)]
#[serde(untagged)]
enum Untagged {
    S(String),
    N(Vec<String>),
    O { k: String },
    E,
}
#[derive(Serialize)]
#[serde(transparent)]
struct Trans(String);
#[derive(Serialize)]
struct Plain(String);

/// Enums of every serde representation; arg0: bytes of the string payload.
pub fn enums() {
    let n = rt::arg(0) as usize;
    let s = rt::string(n);
    let b = s.as_bytes().to_vec();
    let id = "query: enum value";
    match rt::choose(17) {
        0 => check_pairs(query("e", &Unit::FirstOne), &vec![pair(b"e", b"first-one")], id),
        1 => check_pairs(query("e", &Unit::Odd), &vec![pair(b"e", b"a&b=c")], id),
        2 => check_pairs(query("e", &External::Plain), &vec![pair(b"e", b"Plain")], id),
        3 => check_pairs(query("e", &External::One(s)), &vec![pair(b"One", &b)], id),
        4 => check_pairs(query("e", &Internal::A { v: s }), &vec![pair(b"type", b"A"), pair(b"v", &b)], id),
        5 => check_pairs(query("e", &Internal::B), &vec![pair(b"type", b"B")], id),
        6 => check_pairs(query("e", &Adjacent::A(s)), &vec![pair(b"t", b"A"), pair(b"c", &b)], id),
        7 => check_pairs(query("e", &Adjacent::B), &vec![pair(b"t", b"B")], id),
        8 => check_pairs(query("e", &Untagged::S(s)), &vec![pair(b"e", &b)], id),
        9 => check_pairs(
            query("e", &Untagged::N(vec![s, "z".into()])),
            &vec![pair(b"e", &b), pair(b"e", b"z")],
            id,
        ),
        10 => check_pairs(query("e", &Untagged::O { k: s }), &vec![pair(b"k", &b)], id),
        11 => check_pairs(query("e", &Untagged::E), &vec![], id),
        12 => check_pairs(query("e", &vec![Unit::Odd, Unit::FirstOne]), &vec![pair(b"e", b"a&b=c"), pair(b"e", b"first-one")], id),
        13 => check_pairs(query("e", &Trans(s)), &vec![pair(b"e", &b)], "query: transparent newtype"),
        14 => check_pairs(query("e", &Plain(s)), &vec![pair(b"e", &b)], "query: newtype around a scalar"),
        15 => check_pairs(query("e", &Some(Unit::Odd)), &vec![pair(b"e", b"a&b=c")], id),
        _ => {
            let r = query("e", &External::Obj { a: 1 });
            // not representable: an error, never a request without the value
            match r {
                Ok(r) => rt::check(
                    pairs_of(&r).map(|p| p.iter().any(|(_, v)| v == b"1")).unwrap_or(false),
                    "query: unsupported enum value is never dropped",
                ),
                Err(_) => rt::check(true, "query: unsupported enum value is never dropped"),
            }
        }
    }
}

/// Objects with optional fields, and optional parameters; arg0 bytes payload.
pub fn opt() {
    let n = rt::arg(0) as usize;
    let s = rt::string(n);
    let b = s.as_bytes().to_vec();
    let x = rt::u8();
    let id = "query: object fields by name, absent ones omitted";
    let mut want = vec![pair(b"x y", x.to_string().as_bytes())];
    let mut o = Inner { x, t: None, u: None };
    if rt::choose(2) == 1 {
        o.t = Some(s.clone());
        want.push(pair(b"t", &b));
    }
    if rt::choose(2) == 1 {
        o.u = Some(x);
        want.push(pair(b"u", x.to_string().as_bytes()));
    }
    match rt::choose(5) {
        0 => check_pairs(query("o", &o), &want, id),
        1 => check_pairs(query("o", &Some(&o)), &want, id),
        2 => check_pairs(query("o", &None::<Inner>), &vec![], "query: absent sends nothing"),
        3 => check_pairs(query("o", &vec![Some(&s), None, Some(&s)]), &vec![pair(b"o", &b), pair(b"o", &b)], id),
        _ => check_pairs(query("o", &Some(Some(&s))), &vec![pair(b"o", &b)], "query: optional value as the value itself"),
    }
}

/// Several parameters on one request keep earlier pairs and the call order.
pub fn chain() {
    let n = rt::arg(0) as usize;
    let s = rt::string(n);
    let t = rt::string(n);
    let x = rt::u8();
    let b = client().get("http://h.example:8080/p/q?pre=1");
    let none: Option<u8> = None;
    let empty: Vec<String> = vec![];
    let mut want = vec![pair(b"pre", b"1")];
    let b = b.query(&QueryParam::new("a", &s));
    want.push(pair(b"a", s.as_bytes()));
    let b = match rt::choose(4) {
        0 => b.query(&QueryParam::new("m", &none)),
        1 => b.query(&QueryParam::new("m", &empty)),
        2 => {
            want.push(pair(b"m", t.as_bytes()));
            want.push(pair(b"m", s.as_bytes()));
            b.query(&QueryParam::new("m", &vec![&t, &s]))
        }
        _ => {
            want.push(pair(b"k", t.as_bytes()));
            b.query(&QueryParam::new("m", &Es(vec![("k".into(), t.clone())])))
        }
    };
    let b = b.query(&QueryParam::new("a", &x)).query(&QueryParam::new("z", &t));
    want.push(pair(b"a", x.to_string().as_bytes()));
    want.push(pair(b"z", t.as_bytes()));
    check_pairs(b.build(), &want, "query: parameters accumulate in call order");
}

/// Parameters under any names of arg0 bytes, scalar, list and absent.
pub fn chain_names() {
    let n = rt::arg(0) as usize;
    let (s, t) = (rt::string(n), rt::string(n));
    let x = rt::u8();
    let none: Option<u8> = None;
    let b = client().get("http://h.example:8080/p/q?pre=1").query(&QueryParam::new(&s, &x));
    let b = b.query(&QueryParam::new(&t, &none)).query(&QueryParam::new(&t, &vec!["v", "w"])).query(&QueryParam::new("a[b]", &true));
    let x = x.to_string();
    let want = vec![pair(b"pre", b"1"), pair(s.as_bytes(), x.as_bytes()), pair(t.as_bytes(), b"v"), pair(t.as_bytes(), b"w"), pair(b"a[b]", b"true")];
    check_pairs(b.build(), &want, "query: parameters accumulate in call order");
}

/// Form body with symbolic strings: arg0 value bytes, arg1 key bytes; with
/// arg2 the value is a repeated byte and so many free ones, or (9) constant
/// but for a word at its end.
pub fn form_str() {
    let n = rt::arg(0) as usize;
    let v = match rt::arg(2) as usize {
        0 => rt::string(n),
        9 => "x".repeat(n - 2) + &rt::word(2, 2),
        k => rt::pattern(n, k),
    };
    let k = rt::string(rt::arg(1) as usize);
    let x = rt::u8();
    let mut want = vec![pair(k.as_bytes(), v.as_bytes())];
    let r = match rt::choose(3) {
        0 => form(&Es(vec![(k, v)])),
        1 => {
            want.push(pair(v.as_bytes(), k.as_bytes()));
            form(&vec![(k.clone(), v.clone()), (v, k)])
        }
        _ => {
            want = vec![pair(b"x y", x.to_string().as_bytes()), pair(b"t", v.as_bytes())];
            form(&Inner { x, t: Some(v), u: None })
        }
    };
    match r {
        Ok(p) => rt::check(pairs_eq(&p, &want), "form: body decodes to the fields"),
        Err(_) => rt::check(false, "form: body decodes to the fields"),
    }
}

/// Builds a form request; checks the headers and returns the decoded body.
pub fn form<T: Serialize + ?Sized>(v: &T) -> Result<Pairs, progenitor_client::Error<()>> {
    use progenitor_client::RequestBuilderExt;
    let b = client().post(BASE).header("x-keep", "1");
    let b = match RequestBuilderExt::<()>::form_urlencoded(b, v) {
        Ok(b) => b,
        Err(e) => return Err(e),
    };
    let r = match b.build() {
        Ok(r) => r,
        Err(_) => {
            rt::check(false, "form: request builds");
            return Ok(vec![]);
        }
    };
    let mut ct = vec![];
    for h in r.headers().get_all("content-type") {
        ct.push(h.as_bytes().to_vec());
    }
    rt::check(
        ct.len() == 1 && ct[0] == b"application/x-www-form-urlencoded",
        "form: content type",
    );
    rt::check(
        r.headers().get("x-keep").map(|h| h.as_bytes() == b"1").unwrap_or(false)
            && r.url().as_str() == BASE
            && r.method() == http::Method::POST,
        "form: rest of the request intact",
    );
    let body = match r.body().and_then(|b| b.as_bytes()) {
        Some(b) => b.to_vec(),
        None => {
            rt::check(false, "form: body present");
            return Ok(vec![]);
        }
    };
    rt::out(&body);
    match parse_pairs(&body) {
        Some(p) => Ok(p),
        None => {
            rt::check(false, "form: body is well-formed");
            Ok(vec![])
        }
    }
}
