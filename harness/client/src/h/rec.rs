//! A serializer that records the key/value pairs a form serializer would be
//! given, with leaves kept at full width and unformatted.
use crate::rt;
use serde::ser::*;

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
}

#[derive(Clone)]
pub enum Leaf {
    Bool(bool),
    Int(i128),
    Wide(u128),
    F32(u32),
    F64(u64),
    Char(u32),
    Str(Vec<u8>),
    None,
}
impl Leaf {
    fn text(&self) -> Vec<u8> {
        match self {
            Leaf::Bool(b) => if *b { "true" } else { "false" }.into(),
            Leaf::Int(i) => i.to_string().into_bytes(),
            Leaf::Wide(i) => i.to_string().into_bytes(),
            Leaf::F32(f) => f32::from_bits(*f).to_string().into_bytes(),
            Leaf::F64(f) => f64::from_bits(*f).to_string().into_bytes(),
            Leaf::Char(c) => {
                let mut b = [0; 4];
                match char::from_u32(*c) {
                    Some(c) => c.encode_utf8(&mut b).as_bytes().to_vec(),
                    None => vec![],
                }
            }
            Leaf::Str(s) => s.clone(),
            Leaf::None => vec![],
        }
    }
}
/// Equal as transmitted. Same kind: bitwise; otherwise by text.
pub fn leaf_eq(a: &Leaf, b: &Leaf) -> bool {
    use Leaf::*;
    match (a, b) {
        (Bool(x), Bool(y)) => x == y,
        (Int(x), Int(y)) => x == y,
        (Wide(x), Wide(y)) => x == y,
        (Wide(x), Int(y)) | (Int(y), Wide(x)) => (*y >= 0) & (*x == *y as u128),
        (F32(x), F32(y)) => x == y,
        (F64(x), F64(y)) => x == y,
        (Char(x), Char(y)) => x == y,
        (Str(x), Str(y)) => rt::same(x, y),
        (None, None) => true,
        (F32(_), F64(_)) | (F64(_), F32(_)) => false,
        (None, _) | (_, None) => false,
        _ => rt::same(&a.text(), &b.text()),
    }
}
pub type Recd = Vec<(Leaf, Leaf)>;
pub fn rec_eq(a: &Recd, b: &Recd) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= leaf_eq(&a[i].0, &b[i].0);
        ok &= leaf_eq(&a[i].1, &b[i].1);
    }
    ok
}

/// Top level.
pub struct Top;
#[derive(Default)]
pub struct Acc {
    v: Recd,
    key: Option<Leaf>,
}
fn push(v: &mut Recd, k: Leaf, l: Leaf) {
    // an absent value is omitted, as form serializers do
    if !matches!(l, Leaf::None) {
        v.push((k, l));
    }
}
macro_rules! err {
    ($($f:ident($($t:ty),*)),*) => { $(fn $f(self $(, _: $t)*) -> Result<Self::Ok, E> { Err(E) })* };
}
impl Serializer for Top {
    type Ok = Recd;
    type Error = E;
    type SerializeSeq = Acc;
    type SerializeTuple = Acc;
    type SerializeTupleStruct = Impossible<Recd, E>;
    type SerializeTupleVariant = Impossible<Recd, E>;
    type SerializeMap = Acc;
    type SerializeStruct = Acc;
    type SerializeStructVariant = Impossible<Recd, E>;
    err!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64),
         serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32),
         serialize_f64(f64), serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]),
         serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_none(self) -> Result<Recd, E> {
        Ok(vec![])
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Recd, E> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Recd, E> {
        Ok(vec![])
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Recd, E> {
        Ok(vec![])
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Recd, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Recd, E> {
        Err(E)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Acc, E> {
        Ok(Acc::default())
    }
    fn serialize_tuple(self, _: usize) -> Result<Acc, E> {
        Ok(Acc::default())
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Acc, E> {
        Ok(Acc::default())
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Acc, E> {
        Ok(Acc::default())
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E)
    }
}
impl SerializeSeq for Acc {
    type Ok = Recd;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        let (k, l) = v.serialize(PairS)?;
        push(&mut self.v, k, l);
        Ok(())
    }
    fn end(self) -> Result<Recd, E> {
        Ok(self.v)
    }
}
impl SerializeTuple for Acc {
    type Ok = Recd;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Recd, E> {
        Ok(self.v)
    }
}
impl SerializeMap for Acc {
    type Ok = Recd;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> {
        self.key = Some(k.serialize(LeafS)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        let k = self.key.take().ok_or(E)?;
        let l = v.serialize(LeafS)?;
        push(&mut self.v, k, l);
        Ok(())
    }
    fn end(self) -> Result<Recd, E> {
        Ok(self.v)
    }
}
impl SerializeStruct for Acc {
    type Ok = Recd;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        let l = v.serialize(LeafS)?;
        push(&mut self.v, Leaf::Str(k.as_bytes().to_vec()), l);
        Ok(())
    }
    fn end(self) -> Result<Recd, E> {
        Ok(self.v)
    }
}

/// One `(key, value)` element.
struct PairS;
#[derive(Default)]
struct PairAcc(Vec<Leaf>);
impl SerializeTuple for PairAcc {
    type Ok = (Leaf, Leaf);
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.0.push(v.serialize(LeafS)?);
        Ok(())
    }
    fn end(mut self) -> Result<(Leaf, Leaf), E> {
        if self.0.len() != 2 {
            return Err(E);
        }
        let b = self.0.pop().ok_or(E)?;
        let a = self.0.pop().ok_or(E)?;
        Ok((a, b))
    }
}
impl SerializeSeq for PairAcc {
    type Ok = (Leaf, Leaf);
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        SerializeTuple::serialize_element(self, v)
    }
    fn end(self) -> Result<(Leaf, Leaf), E> {
        SerializeTuple::end(self)
    }
}
macro_rules! only_leaf_unsupported {
    () => {
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
            Err(E)
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
            Err(E)
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
            Err(E)
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
            Err(E)
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
            Err(E)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, E> {
            Err(E)
        }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Self::Ok, E> {
            v.serialize(self)
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Self::Ok, E> {
            v.serialize(self)
        }
    };
}
impl Serializer for PairS {
    type Ok = (Leaf, Leaf);
    type Error = E;
    type SerializeSeq = PairAcc;
    type SerializeTuple = PairAcc;
    type SerializeTupleStruct = Impossible<Self::Ok, E>;
    type SerializeTupleVariant = Impossible<Self::Ok, E>;
    type SerializeMap = Impossible<Self::Ok, E>;
    type SerializeStruct = Impossible<Self::Ok, E>;
    type SerializeStructVariant = Impossible<Self::Ok, E>;
    err!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64),
         serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32),
         serialize_f64(f64), serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]),
         serialize_none(), serialize_unit(), serialize_unit_struct(&'static str),
         serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_seq(self, _: Option<usize>) -> Result<PairAcc, E> {
        Err(E)
    }
    fn serialize_tuple(self, n: usize) -> Result<PairAcc, E> {
        if n == 2 {
            Ok(PairAcc::default())
        } else {
            Err(E)
        }
    }
    only_leaf_unsupported!();
}

/// One key or value.
struct LeafS;
impl Serializer for LeafS {
    type Ok = Leaf;
    type Error = E;
    type SerializeSeq = Impossible<Leaf, E>;
    type SerializeTuple = Impossible<Leaf, E>;
    type SerializeTupleStruct = Impossible<Leaf, E>;
    type SerializeTupleVariant = Impossible<Leaf, E>;
    type SerializeMap = Impossible<Leaf, E>;
    type SerializeStruct = Impossible<Leaf, E>;
    type SerializeStructVariant = Impossible<Leaf, E>;
    fn serialize_bool(self, v: bool) -> Result<Leaf, E> {
        Ok(Leaf::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Leaf, E> {
        Ok(Leaf::Int(v as i128))
    }
    fn serialize_i16(self, v: i16) -> Result<Leaf, E> {
        Ok(Leaf::Int(v as i128))
    }
    fn serialize_i32(self, v: i32) -> Result<Leaf, E> {
        Ok(Leaf::Int(v as i128))
    }
    fn serialize_i64(self, v: i64) -> Result<Leaf, E> {
        Ok(Leaf::Int(v as i128))
    }
    fn serialize_u8(self, v: u8) -> Result<Leaf, E> {
        Ok(Leaf::Int(v as i128))
    }
    fn serialize_u16(self, v: u16) -> Result<Leaf, E> {
        Ok(Leaf::Int(v as i128))
    }
    fn serialize_u32(self, v: u32) -> Result<Leaf, E> {
        Ok(Leaf::Int(v as i128))
    }
    fn serialize_u64(self, v: u64) -> Result<Leaf, E> {
        Ok(Leaf::Int(v as i128))
    }
    fn serialize_i128(self, v: i128) -> Result<Leaf, E> {
        Ok(Leaf::Int(v))
    }
    fn serialize_u128(self, v: u128) -> Result<Leaf, E> {
        Ok(Leaf::Wide(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Leaf, E> {
        Ok(Leaf::F32(v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<Leaf, E> {
        Ok(Leaf::F64(v.to_bits()))
    }
    fn serialize_char(self, v: char) -> Result<Leaf, E> {
        Ok(Leaf::Char(v as u32))
    }
    fn serialize_str(self, v: &str) -> Result<Leaf, E> {
        Ok(Leaf::Str(v.as_bytes().to_vec()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Leaf, E> {
        match std::str::from_utf8(v) {
            Ok(_) => Ok(Leaf::Str(v.to_vec())),
            Err(_) => Err(E),
        }
    }
    fn serialize_none(self) -> Result<Leaf, E> {
        Ok(Leaf::None)
    }
    fn serialize_unit(self) -> Result<Leaf, E> {
        Err(E)
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<Leaf, E> {
        Ok(Leaf::Str(n.as_bytes().to_vec()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Leaf, E> {
        Ok(Leaf::Str(v.as_bytes().to_vec()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E)
    }
    only_leaf_unsupported!();
}
