//! Stand-in for serde_tokenstream (not available offline): `key = value`
//! pairs, nested in braces, lists in brackets, literals, idents as unit
//! variants, and ParseWrapper for anything syn parses.
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use quote::ToTokens;
use serde::de::{self, DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use std::cell::RefCell;
use std::marker::PhantomData;

thread_local! {
    static WRAPPED: RefCell<Option<TokenStream>> = Default::default();
}

#[derive(Debug)]
struct E(syn::Error);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(syn::Error::new(Span::call_site(), m.to_string()))
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ParseWrapper<P>(P);
impl<P> ParseWrapper<P> {
    pub fn into_inner(self) -> P {
        self.0
    }
}
impl<P> std::ops::Deref for ParseWrapper<P> {
    type Target = P;
    fn deref(&self) -> &P {
        &self.0
    }
}
impl<P: ToTokens> ToTokens for ParseWrapper<P> {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t)
    }
}
impl<'de, P: syn::parse::Parse> Deserialize<'de> for ParseWrapper<P> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = TokenStream;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("tokens")
            }
            fn visit_bytes<E: de::Error>(self, _: &[u8]) -> Result<TokenStream, E> {
                Ok(WRAPPED.with(|w| w.borrow_mut().take()).unwrap_or_default())
            }
        }
        let t = d.deserialize_bytes(V)?;
        syn::parse2(t).map(ParseWrapper).map_err(de::Error::custom)
    }
}

pub struct OrderedMap<K, V>(Vec<(K, V)>);
impl<K, V> Default for OrderedMap<K, V> {
    fn default() -> Self {
        OrderedMap(vec![])
    }
}
impl<K, V> IntoIterator for OrderedMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<K, V> OrderedMap<K, V> {
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, (K, V)> {
        self.0.iter()
    }
}
impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for OrderedMap<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vi<K, V>(PhantomData<(K, V)>);
        impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Visitor<'de> for Vi<K, V> {
            type Value = OrderedMap<K, V>;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut out = vec![];
                while let Some(e) = a.next_entry()? {
                    out.push(e);
                }
                Ok(OrderedMap(out))
            }
        }
        d.deserialize_map(Vi(PhantomData))
    }
}

struct Value(Vec<TokenTree>);
struct List {
    items: std::vec::IntoIter<Vec<TokenTree>>,
    value: Option<Vec<TokenTree>>,
}
fn punct(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}
fn list(t: TokenStream) -> List {
    let mut items = vec![];
    let mut cur = vec![];
    for t in t {
        if punct(&t, ',') {
            items.push(std::mem::take(&mut cur));
        } else {
            cur.push(t);
        }
    }
    if !cur.is_empty() {
        items.push(cur);
    }
    List { items: items.into_iter(), value: None }
}
impl<'de> MapAccess<'de> for List {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        let Some(item) = self.items.next() else { return Ok(None) };
        let Some(eq) = item.iter().position(|t| punct(t, '=')) else {
            return Err(de::Error::custom("expected `=`"));
        };
        self.value = Some(item[eq + 1..].to_vec());
        s.deserialize(Value(item[..eq].to_vec())).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, E> {
        s.deserialize(Value(self.value.take().unwrap_or_default()))
    }
}
impl<'de> SeqAccess<'de> for List {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.items.next() {
            Some(i) => s.deserialize(Value(i)).map(Some),
            None => Ok(None),
        }
    }
}
impl Value {
    fn group(&self, d: Delimiter) -> Option<TokenStream> {
        match &self.0[..] {
            [TokenTree::Group(g)] if g.delimiter() == d => Some(g.stream()),
            _ => None,
        }
    }
}
impl<'de> Deserializer<'de> for Value {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if let Some(g) = self.group(Delimiter::Brace) {
            return v.visit_map(list(g));
        }
        if let Some(g) = self.group(Delimiter::Bracket) {
            return v.visit_seq(list(g));
        }
        match &self.0[..] {
            [TokenTree::Ident(i)] if *i == "true" => v.visit_bool(true),
            [TokenTree::Ident(i)] if *i == "false" => v.visit_bool(false),
            [TokenTree::Ident(i)] => v.visit_string(i.to_string()),
            [t @ TokenTree::Literal(_)] => match syn::parse2::<syn::Lit>(t.clone().into()).map_err(E)? {
                syn::Lit::Str(s) => v.visit_string(s.value()),
                syn::Lit::Int(i) => v.visit_u64(i.base10_parse().map_err(E)?),
                _ => Err(de::Error::custom("unexpected literal")),
            },
            _ => Err(de::Error::custom("unexpected value")),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_some(self)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let t: TokenStream = self.0.into_iter().collect();
        WRAPPED.with(|w| *w.borrow_mut() = Some(t));
        v.visit_bytes(&[])
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, E> {
        match &self.0[..] {
            [TokenTree::Ident(i)] => {
                let d: de::value::StringDeserializer<E> = i.to_string().into_deserializer();
                d.deserialize_enum("", &[], v)
            }
            _ => Err(de::Error::custom("expected a variant")),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string byte_buf
        unit unit_struct seq tuple tuple_struct map struct identifier
    }
}

pub fn from_tokenstream<'a, T: Deserialize<'a>>(t: &'a TokenStream) -> Result<T, syn::Error> {
    let g = proc_macro2::Group::new(Delimiter::Brace, t.clone());
    T::deserialize(Value(vec![g.into()])).map_err(|e| e.0)
}
