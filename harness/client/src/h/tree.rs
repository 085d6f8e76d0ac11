//! Arbitrary shapes: a value whose serializer calls are chosen
//! nondeterministically, against an independent model of what may be sent.
use super::query::form;
use super::util::*;
use crate::rt;
use serde::ser::*;

pub enum V {
    Bool(bool),
    Int(u8),
    Str(String),
    Bytes(Vec<u8>),
    Float,
    None,
    Some(Box<V>),
    Unit,
    UnitStruct,
    UnitVariant(usize),
    Newtype(Box<V>),
    NewtypeVariant(usize, Box<V>),
    Seq(Vec<V>),
    Tuple(Vec<V>),
    TupleStruct(Vec<V>),
    TupleVariant(Vec<V>),
    Map(Vec<(V, V)>),
    Struct(Vec<(usize, V)>),
    StructVariant(Vec<(usize, V)>),
    Fail,
}
const N: [&str; 3] = ["al", "b c", "&=%"];

impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            V::Bool(b) => s.serialize_bool(*b),
            V::Int(b) => s.serialize_u8(*b),
            V::Str(b) => s.serialize_str(b),
            V::Bytes(b) => s.serialize_bytes(b),
            V::Float => s.serialize_f64(2.5),
            V::None => s.serialize_none(),
            V::Some(v) => s.serialize_some(&**v),
            V::Unit => s.serialize_unit(),
            V::UnitStruct => s.serialize_unit_struct("US"),
            V::UnitVariant(i) => s.serialize_unit_variant("E", *i as u32, N[*i]),
            V::Newtype(v) => s.serialize_newtype_struct("NT", &**v),
            V::NewtypeVariant(i, v) => s.serialize_newtype_variant("E", *i as u32, N[*i], &**v),
            V::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            V::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            V::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("TS", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            V::TupleVariant(v) => {
                let mut q = s.serialize_tuple_variant("E", 0, N[0], v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            V::Map(v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    q.serialize_entry(k, x)?;
                }
                q.end()
            }
            V::Struct(v) => {
                let mut q = s.serialize_struct("ST", v.len())?;
                for (k, x) in v {
                    q.serialize_field(N[*k], x)?;
                }
                q.end()
            }
            V::StructVariant(v) => {
                let mut q = s.serialize_struct_variant("E", 0, N[0], v.len())?;
                for (k, x) in v {
                    q.serialize_field(N[*k], x)?;
                }
                q.end()
            }
            V::Fail => Err(S::Error::custom("cannot")),
        }
    }
}

fn list(d: u32, max: u32) -> Vec<V> {
    let n = rt::choose(max + 1);
    (0..n).map(|_| gen(d)).collect()
}
fn fields(d: u32, max: u32) -> Vec<(usize, V)> {
    let n = rt::choose(max + 1);
    (0..n).map(|i| (i as usize, gen(d))).collect()
}
/// Any shape of nesting depth at most d. arg2 restricts leaves below the top:
/// 0 all kinds, 1 a string, an absent value, a unit, a refusal.
fn gen(d: u32) -> V {
    let k = if d > 0 {
        rt::choose(20)
    } else if rt::arg(2) == 1 {
        [1, 2, 3, 5][rt::choose(4) as usize]
    } else {
        rt::choose(9)
    };
    shape(k, d)
}
fn shape(k: u32, d: u32) -> V {
    let w = rt::arg(1) as u32;
    match k {
        0 => V::Bool(rt::u8() & 1 == 1),
        1 => V::Str(rt::string(1)),
        2 => V::None,
        3 => V::Unit,
        4 => V::UnitVariant(rt::choose(3) as usize),
        5 => V::Fail,
        6 => V::UnitStruct,
        7 => V::Bytes(rt::bytes(1)),
        8 => V::Int(rt::u8()),
        9 => V::Float,
        10 => V::Some(Box::new(gen(d - 1))),
        11 => V::Newtype(Box::new(gen(d - 1))),
        12 => V::NewtypeVariant(1, Box::new(gen(d - 1))),
        13 => V::Seq(list(d - 1, w)),
        14 => V::Tuple(list(d - 1, w)),
        15 => V::TupleStruct(list(d - 1, w)),
        16 => V::TupleVariant(list(d - 1, w)),
        17 => {
            let n = rt::choose(w + 1);
            V::Map((0..n).map(|_| (gen(d - 1), gen(d - 1))).collect())
        }
        18 => V::Struct(fields(d - 1, w)),
        _ => V::StructVariant(fields(d - 1, w)),
    }
}
/// arg3: 0 any top-level shape, otherwise a set of them.
fn top() -> V {
    let d = rt::arg(0) as u32;
    let ks: &[u32] = match rt::arg(3) {
        0 => return gen(d),
        1 => &[13, 14, 15],         // sequences
        2 => &[17, 18],             // maps and structs
        3 => &[4, 12, 16, 19],      // enum variants
        4 => &[10, 2],              // options
        5 => &[0, 1, 8, 9, 11],     // scalars, newtypes
        _ => &[3, 5, 6, 7, 14, 15, 16, 19],
    };
    shape(ks[rt::choose(ks.len() as u32) as usize], d)
}

/// What one form value can be: Ok(None) = nothing to send.
fn leaf(v: &V) -> Result<Option<Vec<u8>>, ()> {
    match v {
        V::Bool(b) => Ok(Some(if *b { b"true".to_vec() } else { b"false".to_vec() })),
        V::Int(b) => Ok(Some(b.to_string().into_bytes())),
        V::Str(s) => Ok(Some(s.clone().into_bytes())),
        V::Bytes(b) => std::str::from_utf8(b).map(|_| Some(b.clone())).map_err(|_| ()),
        V::Float => Ok(Some(b"2.5".to_vec())),
        V::None => Ok(None),
        V::Some(v) | V::Newtype(v) => leaf(v),
        V::UnitStruct => Ok(Some(b"US".to_vec())),
        V::UnitVariant(i) => Ok(Some(N[*i].as_bytes().to_vec())),
        _ => Err(()),
    }
}
fn put(o: &mut Pairs, k: Vec<u8>, v: &V) -> Result<(), ()> {
    if let Some(l) = leaf(v)? {
        o.push((k, l));
    }
    Ok(())
}
fn key(v: &V) -> Result<Vec<u8>, ()> {
    match v {
        V::Some(_) => Err(()),
        V::Newtype(v) => key(v),
        _ => leaf(v)?.ok_or(()),
    }
}
/// A query parameter of this shape; Err = not representable.
fn param(name: &str, v: &V) -> Result<Pairs, ()> {
    let mut o = vec![];
    let nm = name.as_bytes().to_vec();
    match v {
        V::Bool(_) | V::Int(_) | V::Str(_) | V::Float | V::UnitVariant(_) => put(&mut o, nm, v)?,
        V::None | V::Unit | V::UnitStruct => {}
        V::Some(v) | V::Newtype(v) => return param(name, v),
        V::NewtypeVariant(i, v) => put(&mut o, N[*i].as_bytes().to_vec(), v)?,
        V::Seq(es) => {
            for e in es {
                put(&mut o, nm.clone(), e)?;
            }
        }
        // a tuple is its own list of pairs, anything else in it is refused
        V::Tuple(es) => {
            for e in es {
                if let Some(p) = pair_elem(e)? {
                    put(&mut o, key(&p[0])?, &p[1])?;
                }
            }
        }
        V::Map(es) => {
            for (k, e) in es {
                put(&mut o, key(k)?, e)?;
            }
        }
        V::Struct(es) => {
            for (k, e) in es {
                put(&mut o, N[*k].as_bytes().to_vec(), e)?;
            }
        }
        _ => return Err(()),
    }
    Ok(o)
}
/// A form body of this shape.
fn body(v: &V) -> Result<Pairs, ()> {
    let mut o = vec![];
    match v {
        V::None | V::Unit | V::UnitStruct => {}
        V::Some(v) | V::Newtype(v) => return body(v),
        V::Seq(es) | V::Tuple(es) => {
            for e in es {
                if let Some(p) = pair_elem(e)? {
                    put(&mut o, key(&p[0])?, &p[1])?;
                }
            }
        }
        V::Map(es) => {
            for (k, e) in es {
                put(&mut o, key(k)?, e)?;
            }
        }
        V::Struct(es) => {
            for (k, e) in es {
                put(&mut o, N[*k].as_bytes().to_vec(), e)?;
            }
        }
        _ => return Err(()),
    }
    Ok(o)
}
fn pair_elem(v: &V) -> Result<Option<&Vec<V>>, ()> {
    match v {
        V::None => Ok(None),
        V::Newtype(v) | V::Some(v) => pair_elem(v),
        V::Tuple(p) if p.len() == 2 => Ok(Some(p)),
        _ => Err(()),
    }
}

/// arg0: nesting depth, arg1: largest container, arg2: leaves, arg3: tops.
pub fn query_tree() {
    let v = top();
    let want = param("q[1]", &v);
    match (query("q[1]", &v), want) {
        (Ok(r), Ok(w)) => {
            rt::out(r.url().as_str().as_bytes());
            let ok = match pairs_of(&r) {
                Some(p) => pairs_eq(&p, &w),
                None => false,
            };
            rt::check(ok & rest_intact(&r), "query: every part of the value is sent");
        }
        (Ok(_), Err(_)) => rt::check(false, "query: a value that cannot be sent is an error"),
        (Err(_), Ok(_)) => rt::check(false, "query: a representable value is sent"),
        (Err(e), Err(_)) => rt::check(e.is_builder(), "query: a value that cannot be sent is an error"),
    }
}

/// arg0: nesting depth, arg1: largest container, arg2: leaves, arg3: tops.
pub fn form_tree() {
    let v = top();
    let want = body(&v);
    match (form(&v), want) {
        (Ok(p), Ok(w)) => rt::check(pairs_eq(&p, &w), "form: every part of the value is sent"),
        (Ok(_), Err(_)) => rt::check(false, "form: a value that cannot be sent is an error"),
        (Err(_), Ok(_)) => rt::check(false, "form: a representable value is sent"),
        (Err(e), Err(_)) => rt::check(
            matches!(e, progenitor_client::Error::InvalidRequest(_)),
            "form: a value that cannot be sent is an invalid-request error",
        ),
    }
}
