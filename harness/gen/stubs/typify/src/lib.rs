//! Stand-in for typify (not available offline): a small type space with the
//! API that progenitor-impl uses. It turns the common JSON-schema shapes into
//! plain Rust types with serde derives; anything else becomes
//! `serde_json::Value`.
use heck::{ToPascalCase, ToSnakeCase};
use proc_macro2::{Literal, TokenStream};
use quote::{format_ident, quote};
use schemars::schema::{InstanceType, Schema, SchemaObject, SingleOrVec};
use std::collections::{BTreeMap, HashMap};

#[derive(Debug, thiserror::Error)]
pub enum Error {
    #[error("invalid schema: {0}")]
    InvalidSchema(String),
    #[error("invalid TypeId")]
    InvalidTypeId,
}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TypeId(u64);

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum TypeSpaceImpl {
    FromStr,
    FromStringIrrefutable,
    Display,
    Default,
}
impl std::str::FromStr for TypeSpaceImpl {
    type Err = String;
    fn from_str(s: &str) -> std::result::Result<Self, String> {
        match s {
            "FromStr" => Ok(Self::FromStr),
            "Display" => Ok(Self::Display),
            "Default" => Ok(Self::Default),
            _ => Err(format!("{} is not a valid trait specifier", s)),
        }
    }
}
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, serde::Deserialize)]
pub enum UnknownPolicy {
    #[default]
    Generate,
    Allow,
    Deny,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum CrateVers {
    Version(semver::Version),
    Any,
    Never,
}
impl CrateVers {
    pub fn parse(s: &str) -> Option<Self> {
        match s {
            "!" => Some(Self::Never),
            "*" => Some(Self::Any),
            s => semver::Version::parse(s).ok().map(Self::Version),
        }
    }
}
#[derive(Debug, Clone, Default)]
pub struct TypeSpacePatch {
    pub rename: Option<String>,
    pub derives: Vec<String>,
}
impl TypeSpacePatch {
    pub fn with_rename<S: ToString>(&mut self, s: S) -> &mut Self {
        self.rename = Some(s.to_string());
        self
    }
    pub fn with_derive<S: ToString>(&mut self, s: S) -> &mut Self {
        self.derives.push(s.to_string());
        self
    }
}
#[derive(Default, Debug, Clone)]
pub struct TypeSpaceSettings {
    pub type_mod: Option<String>,
    pub struct_builder: bool,
    pub derives: Vec<String>,
    pub map_type: Option<String>,
    pub unknown_crates: UnknownPolicy,
    pub crates: BTreeMap<String, (CrateVers, Option<String>)>,
    pub patch: BTreeMap<String, TypeSpacePatch>,
    pub replace: BTreeMap<String, (String, Vec<TypeSpaceImpl>)>,
    pub convert: Vec<(SchemaObject, String, Vec<TypeSpaceImpl>)>,
}
thread_local! {
    static TOLD: std::cell::RefCell<Option<TypeSpaceSettings>> = Default::default();
}
/// What the last type space of this thread was told (for the harness).
pub fn told() -> Option<TypeSpaceSettings> {
    TOLD.with(|t| t.borrow_mut().take())
}
impl TypeSpaceSettings {
    pub fn with_type_mod<S: AsRef<str>>(&mut self, m: S) -> &mut Self {
        self.type_mod = Some(m.as_ref().to_string());
        self
    }
    pub fn with_struct_builder(&mut self, b: bool) -> &mut Self {
        self.struct_builder = b;
        self
    }
    pub fn with_derive(&mut self, d: String) -> &mut Self {
        self.derives.push(d);
        self
    }
    pub fn with_unknown_crates(&mut self, p: UnknownPolicy) -> &mut Self {
        self.unknown_crates = p;
        self
    }
    pub fn with_crate<S: ToString>(&mut self, n: S, v: CrateVers, r: Option<&String>) -> &mut Self {
        self.crates.insert(n.to_string(), (v, r.cloned()));
        self
    }
    pub fn with_patch<S: ToString>(&mut self, n: S, p: &TypeSpacePatch) -> &mut Self {
        self.patch.insert(n.to_string(), p.clone());
        self
    }
    pub fn with_replacement<T: ToString, R: ToString, I: Iterator<Item = TypeSpaceImpl>>(
        &mut self,
        t: T,
        r: R,
        i: I,
    ) -> &mut Self {
        self.replace.insert(t.to_string(), (r.to_string(), i.collect()));
        self
    }
    pub fn with_conversion<S: ToString, I: Iterator<Item = TypeSpaceImpl>>(
        &mut self,
        s: SchemaObject,
        t: S,
        i: I,
    ) -> &mut Self {
        self.convert.push((s, t.to_string(), i.collect()));
        self
    }
    pub fn with_map_type<S: ToString>(&mut self, m: S) -> &mut Self {
        self.map_type = Some(m.to_string());
        self
    }
}

#[derive(Debug, Clone, PartialEq)]
struct Prop {
    rust: String,
    json: String,
    typ: TypeId,
    required: bool,
    description: Option<String>,
}
#[derive(Debug, Clone, PartialEq)]
enum Kind {
    Pending,
    Struct { name: String, props: Vec<Prop> },
    /// (Rust name, JSON text)
    Enum { name: String, variants: Vec<(String, String)> },
    Untagged { name: String, variants: Vec<TypeId> },
    Newtype { name: String, inner: TypeId, min: Option<u32>, max: Option<u32>, checked: bool },
    Option(TypeId),
    Vec(TypeId),
    Map(TypeId),
    Native { path: String, copy: bool, impls: Vec<TypeSpaceImpl> },
    Unit,
    String,
    Json,
}

pub struct TypeSpace {
    settings: TypeSpaceSettings,
    types: Vec<Kind>,
    refs: HashMap<String, TypeId>,
    regress: bool,
}
pub struct Type<'a> {
    space: &'a TypeSpace,
    id: TypeId,
}
pub enum TypeDetails<'a> {
    Enum(TypeEnum<'a>),
    Struct(TypeStruct<'a>),
    Newtype(TypeNewtype<'a>),
    Option(TypeId),
    Vec(TypeId),
    Map(TypeId, TypeId),
    Set(TypeId),
    Box(TypeId),
    Tuple(Box<dyn Iterator<Item = TypeId> + 'a>),
    Array(TypeId, usize),
    Builtin(&'a str),
    Unit,
    String,
}
pub struct TypeEnum<'a> {
    variants: Vec<(&'a str, TypeEnumVariant<'a>)>,
}
pub enum TypeEnumVariant<'a> {
    Simple,
    Tuple(Vec<TypeId>),
    Struct(Vec<(&'a str, TypeId)>),
}
impl<'a> TypeEnum<'a> {
    pub fn variants(self) -> impl Iterator<Item = (&'a str, TypeEnumVariant<'a>)> {
        self.variants.into_iter()
    }
}
pub struct TypeStruct<'a> {
    props: &'a [Prop],
}
pub struct TypeStructPropInfo<'a> {
    pub name: &'a str,
    pub description: Option<&'a str>,
    pub required: bool,
    pub type_id: TypeId,
}
impl<'a> TypeStruct<'a> {
    pub fn properties(self) -> impl Iterator<Item = (&'a str, TypeId)> {
        self.props.iter().map(|p| (p.rust.as_str(), p.typ.clone()))
    }
    pub fn properties_info(self) -> impl Iterator<Item = TypeStructPropInfo<'a>> {
        self.props.iter().map(|p| TypeStructPropInfo {
            name: &p.rust,
            description: p.description.as_deref(),
            required: p.required,
            type_id: p.typ.clone(),
        })
    }
}
pub struct TypeNewtype<'a> {
    inner: &'a TypeId,
}
impl<'a> TypeNewtype<'a> {
    pub fn inner(&self) -> TypeId {
        self.inner.clone()
    }
    pub fn subtype(&self) -> TypeId {
        self.inner.clone()
    }
}

fn words(s: &str) -> String {
    match s {
        "+1" => "plus1".into(),
        "-1" => "minus1".into(),
        _ => s.replace('\'', "").replace(|c: char| !(c.is_alphanumeric() || c == '_'), "-"),
    }
}
fn legal(out: String) -> String {
    let out = match out.chars().next() {
        None => "X".into(),
        Some(c) if c.is_alphabetic() || c == '_' => out,
        _ => format!("_{}", out),
    };
    if syn::parse_str::<syn::Ident>(&out).is_ok() {
        out
    } else {
        format!("{}_", out)
    }
}
fn pascal(s: &str) -> String {
    legal(words(s).to_pascal_case())
}
fn snake(s: &str) -> String {
    legal(words(s).to_snake_case())
}
fn tokens(s: &str) -> TokenStream {
    s.parse().unwrap()
}

impl TypeSpace {
    pub fn new(settings: &TypeSpaceSettings) -> Self {
        TOLD.with(|t| *t.borrow_mut() = Some(settings.clone()));
        TypeSpace { settings: settings.clone(), types: vec![], refs: HashMap::new(), regress: false }
    }
    fn put(&mut self, k: Kind) -> TypeId {
        if let Some(i) = self.types.iter().position(|x| *x == k) {
            return TypeId(i as u64);
        }
        self.types.push(k);
        TypeId(self.types.len() as u64 - 1)
    }
    fn kind(&self, id: &TypeId) -> &Kind {
        &self.types[id.0 as usize]
    }
    pub fn uses_regress(&self) -> bool {
        self.regress
    }
    pub fn uses_uuid(&self) -> bool {
        self.native("::uuid")
    }
    pub fn uses_chrono(&self) -> bool {
        self.native("::chrono")
    }
    pub fn uses_serde_json(&self) -> bool {
        self.types.iter().any(|k| *k == Kind::Json)
    }
    fn native(&self, p: &str) -> bool {
        self.types.iter().any(|k| matches!(k, Kind::Native { path, .. } if path.starts_with(p)))
    }
    pub fn iter_types(&self) -> impl Iterator<Item = Type<'_>> {
        (0..self.types.len()).map(move |i| Type { space: self, id: TypeId(i as u64) })
    }
    pub fn get_type(&self, id: &TypeId) -> Result<Type<'_>> {
        if (id.0 as usize) < self.types.len() {
            Ok(Type { space: self, id: id.clone() })
        } else {
            Err(Error::InvalidTypeId)
        }
    }
    pub fn add_ref_types<I, S>(&mut self, defs: I) -> Result<()>
    where
        I: IntoIterator<Item = (S, Schema)>,
        S: AsRef<str>,
    {
        let defs: Vec<(String, Schema)> = defs.into_iter().map(|(n, s)| (n.as_ref().to_string(), s)).collect();
        for (n, _) in &defs {
            self.types.push(Kind::Pending);
            self.refs.insert(n.clone(), TypeId(self.types.len() as u64 - 1));
        }
        for (n, s) in defs {
            let id = self.refs[&n].clone();
            let k = if let Some((r, i)) = self.settings.replace.get(&n) {
                Kind::Native { path: r.clone(), copy: false, impls: i.clone() }
            } else {
                let k = self.convert(&s, Some(pascal(&n)), true)?;
                match k {
                    Kind::Struct { .. } | Kind::Enum { .. } | Kind::Untagged { .. } => k,
                    Kind::Newtype { ref name, .. } if *name == pascal(&n) => k,
                    k => {
                        let inner = self.put(k);
                        Kind::Newtype { name: pascal(&n), inner, min: None, max: None, checked: false }
                    }
                }
            };
            self.types[id.0 as usize] = k;
        }
        Ok(())
    }
    pub fn add_type(&mut self, s: &Schema) -> Result<TypeId> {
        self.id_for(s, None)
    }
    pub fn add_type_with_name(&mut self, s: &Schema, name: Option<String>) -> Result<TypeId> {
        self.id_for(s, name)
    }
    fn id_for(&mut self, s: &Schema, name: Option<String>) -> Result<TypeId> {
        if let Schema::Object(o) = s {
            if let Some(r) = &o.reference {
                let key = r.rsplit('/').next().unwrap();
                return self.refs.get(key).cloned().ok_or_else(|| Error::InvalidSchema(format!("no {}", r)));
            }
            let only_all_of = |n: usize| {
                o.subschemas.as_ref().is_some_and(|x| {
                    x.all_of.as_ref().is_some_and(|a| a.len() == n) && x.any_of.is_none() && x.one_of.is_none()
                })
            };
            if only_all_of(1) {
                let inner = o.subschemas.as_ref().unwrap().all_of.as_ref().unwrap()[0].clone();
                return self.id_for(&inner, name);
            }
        }
        let k = self.convert(s, name, false)?;
        Ok(self.put(k))
    }
    fn convert(&mut self, s: &Schema, name: Option<String>, top: bool) -> Result<Kind> {
        let o = match s {
            Schema::Bool(_) => return Ok(Kind::Json),
            Schema::Object(o) => o,
        };
        let title = o.metadata.as_ref().and_then(|m| m.title.clone());
        let name = if top { name } else { title.map(|t| pascal(&t)).or(name) };
        let bare = SchemaObject { metadata: None, ..o.clone() };
        for (c, t, i) in &self.settings.convert {
            if (SchemaObject { metadata: None, ..c.clone() }) == bare {
                return Ok(Kind::Native { path: t.clone(), copy: false, impls: i.clone() });
            }
        }
        if o.reference.is_some() {
            let id = self.id_for(s, None)?;
            return Ok(Kind::Newtype {
                name: name.unwrap_or_default(),
                inner: id,
                min: None,
                max: None,
                checked: false,
            });
        }
        if let Some(sub) = &o.subschemas {
            let list = sub.one_of.as_ref().or(sub.any_of.as_ref());
            if let Some(list) = list {
                let is_null = |s: &Schema| {
                    matches!(s, Schema::Object(o) if o.instance_type == Some(InstanceType::Null.into()))
                };
                let rest: Vec<_> = list.iter().filter(|s| !is_null(s)).cloned().collect();
                if rest.len() == 1 && list.len() == 2 {
                    let id = self.id_for(&rest[0], name)?;
                    return Ok(Kind::Option(id));
                }
                if let Some(name) = name {
                    let mut v = vec![];
                    for (i, s) in rest.iter().enumerate() {
                        v.push(self.id_for(s, Some(format!("{}Variant{}", name, i)))?);
                    }
                    return Ok(Kind::Untagged { name, variants: v });
                }
            }
            if let Some(all) = &sub.all_of {
                if all.len() == 1 {
                    return self.convert(&all[0], name, top);
                }
            }
            return Ok(Kind::Json);
        }
        let types = match &o.instance_type {
            None => {
                if o.object.is_some() {
                    vec![InstanceType::Object]
                } else if o.array.is_some() {
                    vec![InstanceType::Array]
                } else {
                    return Ok(Kind::Json);
                }
            }
            Some(SingleOrVec::Single(t)) => vec![**t],
            Some(SingleOrVec::Vec(v)) => v.clone(),
        };
        let nullable = types.len() == 2 && types.contains(&InstanceType::Null);
        let main: Vec<_> = types.iter().filter(|t| types.len() == 1 || **t != InstanceType::Null).collect();
        if main.len() != 1 {
            return Ok(Kind::Json);
        }
        if nullable {
            let mut inner = o.clone();
            inner.instance_type = Some((*main[0]).into());
            if let Some(e) = &mut inner.enum_values {
                e.retain(|v| !v.is_null());
            }
            let id = self.id_for(&Schema::Object(inner), name)?;
            return Ok(Kind::Option(id));
        }
        let native = |p: &str, copy: bool| Kind::Native {
            path: p.into(),
            copy,
            impls: vec![TypeSpaceImpl::FromStr, TypeSpaceImpl::Display],
        };
        Ok(match main[0] {
            InstanceType::Null => Kind::Unit,
            InstanceType::Boolean => native("bool", true),
            InstanceType::Number => native(
                match o.format.as_deref() {
                    Some("float") => "f32",
                    _ => "f64",
                },
                true,
            ),
            InstanceType::Integer => {
                let min = o.number.as_ref().and_then(|n| n.minimum);
                let one = min == Some(1.0);
                native(
                    match o.format.as_deref() {
                        Some("int8") => "i8",
                        Some("int16") => "i16",
                        Some("int32") => "i32",
                        Some("uint8") if one => "::std::num::NonZeroU8",
                        Some("uint8") => "u8",
                        Some("uint16") if one => "::std::num::NonZeroU16",
                        Some("uint16") => "u16",
                        Some("uint32") | Some("uint") if one => "::std::num::NonZeroU32",
                        Some("uint32") | Some("uint") => "u32",
                        Some("uint64") if one => "::std::num::NonZeroU64",
                        Some("uint64") => "u64",
                        None if one => "::std::num::NonZeroU64",
                        None if min == Some(0.0) => "u64",
                        _ => "i64",
                    },
                    true,
                )
            }
            InstanceType::String => {
                if let (Some(e), Some(name)) = (&o.enum_values, &name) {
                    let mut variants = vec![];
                    for v in e {
                        let t = v.as_str().ok_or_else(|| Error::InvalidSchema("enum".into()))?;
                        variants.push((pascal(t), t.to_string()));
                    }
                    return Ok(Kind::Enum { name: name.clone(), variants });
                }
                match o.format.as_deref() {
                    Some("uuid") => return Ok(native("::uuid::Uuid", false)),
                    Some("date-time") => return Ok(native("::chrono::DateTime<::chrono::offset::Utc>", false)),
                    Some("date") => return Ok(native("::chrono::naive::NaiveDate", false)),
                    Some("ip") => return Ok(native("::std::net::IpAddr", false)),
                    Some("ipv4") => return Ok(native("::std::net::Ipv4Addr", false)),
                    Some("ipv6") => return Ok(native("::std::net::Ipv6Addr", false)),
                    _ => {}
                }
                if o.string.as_ref().map_or(false, |v| v.pattern.is_some()) {
                    self.regress = true;
                }
                match (&o.string, name) {
                    (Some(v), Some(name)) => {
                        let inner = self.put(Kind::String);
                        Kind::Newtype { name, inner, min: v.min_length, max: v.max_length, checked: true }
                    }
                    _ => Kind::String,
                }
            }
            InstanceType::Array => {
                let item = match o.array.as_ref().and_then(|a| a.items.as_ref()) {
                    Some(SingleOrVec::Single(s)) => self.id_for(s, name.map(|n| format!("{}Item", n)))?,
                    _ => self.put(Kind::Json),
                };
                Kind::Vec(item)
            }
            InstanceType::Object => {
                let obj = o.object.clone().unwrap_or_default();
                if obj.properties.is_empty() {
                    let v = match &obj.additional_properties {
                        Some(s) if **s != Schema::Bool(true) && **s != Schema::Bool(false) => {
                            self.id_for(s, name.map(|n| format!("{}Value", n)))?
                        }
                        _ => self.put(Kind::Json),
                    };
                    return Ok(Kind::Map(v));
                }
                let name = name.ok_or_else(|| Error::InvalidSchema("no name".into()))?;
                let mut props = vec![];
                for (k, s) in &obj.properties {
                    let required = obj.required.contains(k);
                    let mut typ = self.id_for(s, Some(pascal(&format!("{}-{}", name, k))))?;
                    if !required && !matches!(self.kind(&typ), Kind::Option(_) | Kind::Vec(_) | Kind::Map(_)) {
                        typ = self.put(Kind::Option(typ));
                    }
                    let description = match s {
                        Schema::Object(o) => o.metadata.as_ref().and_then(|m| m.description.clone()),
                        _ => None,
                    };
                    props.push(Prop { rust: snake(k), json: k.clone(), typ, required, description });
                }
                Kind::Struct { name, props }
            }
        })
    }

    fn path(&self, id: &TypeId, m: &Option<TokenStream>) -> TokenStream {
        let q = |n: &str| {
            let i = format_ident!("{}", n);
            match m {
                Some(m) => quote! { #m :: #i },
                None => quote! { #i },
            }
        };
        match self.kind(id) {
            Kind::Pending => unreachable!(),
            Kind::Struct { name, .. }
            | Kind::Enum { name, .. }
            | Kind::Untagged { name, .. }
            | Kind::Newtype { name, .. } => q(name),
            Kind::Option(t) => {
                let t = self.path(t, m);
                quote! { ::std::option::Option<#t> }
            }
            Kind::Vec(t) => {
                let t = self.path(t, m);
                quote! { ::std::vec::Vec<#t> }
            }
            Kind::Map(t) => {
                let t = self.path(t, m);
                let map = tokens(self.settings.map_type.as_deref().unwrap_or("::std::collections::HashMap"));
                quote! { #map<::std::string::String, #t> }
            }
            Kind::Native { path, .. } => tokens(path),
            Kind::Unit => quote! { () },
            Kind::String => quote! { ::std::string::String },
            Kind::Json => quote! { ::serde_json::Value },
        }
    }
    fn is_display(&self, id: &TypeId) -> bool {
        match self.kind(id) {
            Kind::String | Kind::Enum { .. } => true,
            Kind::Native { .. } => true,
            Kind::Newtype { inner, .. } => self.is_display(inner),
            _ => false,
        }
    }

    pub fn to_stream(&self) -> TokenStream {
        let derives: Vec<TokenStream> = self.settings.derives.iter().map(|d| tokens(d)).collect();
        let mut by_name: BTreeMap<String, TokenStream> = BTreeMap::new();
        let mut builders: BTreeMap<String, TokenStream> = BTreeMap::new();
        for k in &self.types {
            match k {
                Kind::Struct { name, props } => {
                    let id = format_ident!("{}", name);
                    let fields = props.iter().map(|p| {
                        let f = format_ident!("{}", p.rust);
                        let t = self.path(&p.typ, &None);
                        let ren = (p.rust != p.json).then(|| {
                            let j = &p.json;
                            quote! { #[serde(rename = #j)] }
                        });
                        let opt = if p.required && !matches!(self.kind(&p.typ), Kind::Option(_)) {
                            None
                        } else {
                            match self.kind(&p.typ) {
                                Kind::Option(_) => Some(
                                    quote! { #[serde(default, skip_serializing_if = "::std::option::Option::is_none")] },
                                ),
                                Kind::Vec(_) => Some(
                                    quote! { #[serde(default, skip_serializing_if = "::std::vec::Vec::is_empty")] },
                                ),
                                _ => Some(quote! { #[serde(default)] }),
                            }
                        };
                        quote! { #ren #opt pub #f: #t }
                    });
                    let b = self.settings.struct_builder.then(|| {
                        quote! {
                            impl #id {
                                pub fn builder() -> builder::#id { Default::default() }
                            }
                        }
                    });
                    by_name.insert(
                        name.clone(),
                        quote! {
                            #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug #(, #derives)*)]
                            pub struct #id { #(#fields,)* }
                            impl ::std::convert::From<&#id> for #id {
                                fn from(value: &#id) -> Self { value.clone() }
                            }
                            #b
                        },
                    );
                    if self.settings.struct_builder {
                        builders.insert(name.clone(), self.builder(name, props));
                    }
                }
                Kind::Enum { name, variants } => {
                    let id = format_ident!("{}", name);
                    let vs: Vec<_> = variants.iter().map(|(r, _)| format_ident!("{}", r)).collect();
                    let js: Vec<_> = variants.iter().map(|(_, j)| j).collect();
                    by_name.insert(
                        name.clone(),
                        quote! {
                            #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd #(, #derives)*)]
                            pub enum #id { #(#[serde(rename = #js)] #vs,)* }
                            impl ::std::convert::From<&Self> for #id {
                                fn from(value: &#id) -> Self { value.clone() }
                            }
                            impl ::std::fmt::Display for #id {
                                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                                    match *self { #(Self::#vs => f.write_str(#js),)* }
                                }
                            }
                            impl ::std::str::FromStr for #id {
                                type Err = self::error::ConversionError;
                                fn from_str(value: &str) -> ::std::result::Result<Self, self::error::ConversionError> {
                                    match value { #(#js => Ok(Self::#vs),)* _ => Err("invalid value".into()) }
                                }
                            }
                            impl ::std::convert::TryFrom<&str> for #id {
                                type Error = self::error::ConversionError;
                                fn try_from(value: &str) -> ::std::result::Result<Self, self::error::ConversionError> { value.parse() }
                            }
                            impl ::std::convert::TryFrom<::std::string::String> for #id {
                                type Error = self::error::ConversionError;
                                fn try_from(value: ::std::string::String) -> ::std::result::Result<Self, self::error::ConversionError> { value.parse() }
                            }
                        },
                    );
                }
                Kind::Untagged { name, variants } => {
                    let id = format_ident!("{}", name);
                    let vs: Vec<_> = (0..variants.len()).map(|i| format_ident!("Variant{}", i)).collect();
                    let ts: Vec<_> = variants.iter().map(|t| self.path(t, &None)).collect();
                    by_name.insert(
                        name.clone(),
                        quote! {
                            #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug #(, #derives)*)]
                            #[serde(untagged)]
                            pub enum #id { #(#vs(#ts),)* }
                            impl ::std::convert::From<&Self> for #id {
                                fn from(value: &#id) -> Self { value.clone() }
                            }
                        },
                    );
                }
                Kind::Newtype { name, inner, min, max, checked } => {
                    let id = format_ident!("{}", name);
                    let t = self.path(inner, &None);
                    let display = self.is_display(inner).then(|| {
                        quote! {
                            impl ::std::fmt::Display for #id {
                                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) }
                            }
                        }
                    });
                    let conv = if *checked {
                        let lo = min.map(|m| {
                            let m = Literal::usize_unsuffixed(m as usize);
                            quote! { if value.chars().count() < #m { return Err("shorter than allowed".into()); } }
                        });
                        let hi = max.map(|m| {
                            let m = Literal::usize_unsuffixed(m as usize);
                            quote! { if value.chars().count() > #m { return Err("longer than allowed".into()); } }
                        });
                        quote! {
                            #[derive(::serde::Serialize, Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd #(, #derives)*)]
                            #[serde(transparent)]
                            pub struct #id(#t);
                            impl ::std::str::FromStr for #id {
                                type Err = self::error::ConversionError;
                                fn from_str(value: &str) -> ::std::result::Result<Self, self::error::ConversionError> {
                                    #lo #hi
                                    Ok(Self(value.to_string()))
                                }
                            }
                            impl ::std::convert::TryFrom<&str> for #id {
                                type Error = self::error::ConversionError;
                                fn try_from(value: &str) -> ::std::result::Result<Self, self::error::ConversionError> { value.parse() }
                            }
                            impl ::std::convert::TryFrom<::std::string::String> for #id {
                                type Error = self::error::ConversionError;
                                fn try_from(value: ::std::string::String) -> ::std::result::Result<Self, self::error::ConversionError> { value.parse() }
                            }
                            impl<'de> ::serde::Deserialize<'de> for #id {
                                fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> ::std::result::Result<Self, D::Error> {
                                    ::std::string::String::deserialize(d)?.parse().map_err(|e: self::error::ConversionError| <D::Error as ::serde::de::Error>::custom(e.to_string()))
                                }
                            }
                        }
                    } else {
                        quote! {
                            #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug #(, #derives)*)]
                            #[serde(transparent)]
                            pub struct #id(pub #t);
                            impl ::std::convert::From<#t> for #id {
                                fn from(value: #t) -> Self { Self(value) }
                            }
                        }
                    };
                    by_name.insert(
                        name.clone(),
                        quote! {
                            #conv
                            #display
                            impl ::std::ops::Deref for #id {
                                type Target = #t;
                                fn deref(&self) -> &#t { &self.0 }
                            }
                            impl ::std::convert::From<#id> for #t {
                                fn from(value: #id) -> Self { value.0 }
                            }
                            impl ::std::convert::From<&#id> for #id {
                                fn from(value: &#id) -> Self { value.clone() }
                            }
                        },
                    );
                }
                _ => {}
            }
        }
        let items = by_name.values();
        let b = (!builders.is_empty()).then(|| {
            let b = builders.values();
            quote! { pub mod builder { #(#b)* } }
        });
        quote! {
            /// Error types.
            pub mod error {
                /// Error from a `TryFrom` or `FromStr` implementation.
                pub struct ConversionError(::std::borrow::Cow<'static, str>);
                impl ::std::error::Error for ConversionError {}
                impl ::std::fmt::Display for ConversionError {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> Result<(), ::std::fmt::Error> {
                        ::std::fmt::Display::fmt(&self.0, f)
                    }
                }
                impl ::std::fmt::Debug for ConversionError {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> Result<(), ::std::fmt::Error> {
                        ::std::fmt::Debug::fmt(&self.0, f)
                    }
                }
                impl From<&'static str> for ConversionError {
                    fn from(value: &'static str) -> Self { Self(value.into()) }
                }
                impl From<String> for ConversionError {
                    fn from(value: String) -> Self { Self(value.into()) }
                }
            }
            #(#items)*
            #b
        }
    }
    fn builder(&self, name: &str, props: &[Prop]) -> TokenStream {
        let id = format_ident!("{}", name);
        let sup = Some(quote! { super });
        let fs: Vec<_> = props.iter().map(|p| format_ident!("{}", p.rust)).collect();
        let ts: Vec<_> = props.iter().map(|p| self.path(&p.typ, &sup)).collect();
        let ds = props.iter().map(|p| {
            if p.required && !matches!(self.kind(&p.typ), Kind::Option(_)) {
                let m = format!("no value supplied for {}", p.rust);
                quote! { Err(#m.to_string()) }
            } else {
                quote! { Ok(Default::default()) }
            }
        });
        let ms = props.iter().map(|p| format!("error converting supplied value for {}: {{}}", p.rust));
        quote! {
            #[derive(Clone, Debug)]
            pub struct #id { #(#fs: ::std::result::Result<#ts, ::std::string::String>,)* }
            impl ::std::default::Default for #id {
                fn default() -> Self { Self { #(#fs: #ds,)* } }
            }
            impl #id {
                #(
                    pub fn #fs<T>(mut self, value: T) -> Self
                    where T: ::std::convert::TryInto<#ts>, T::Error: ::std::fmt::Display,
                    {
                        self.#fs = value.try_into().map_err(|e| format!(#ms, e));
                        self
                    }
                )*
            }
            impl ::std::convert::TryFrom<#id> for super::#id {
                type Error = super::error::ConversionError;
                fn try_from(value: #id) -> ::std::result::Result<Self, super::error::ConversionError> {
                    Ok(Self { #(#fs: value.#fs?,)* })
                }
            }
            impl ::std::convert::From<super::#id> for #id {
                fn from(value: super::#id) -> Self { Self { #(#fs: Ok(value.#fs),)* } }
            }
        }
    }
}

impl<'a> Type<'a> {
    fn module(&self) -> Option<TokenStream> {
        self.space.settings.type_mod.as_deref().map(tokens)
    }
    pub fn describe(&self) -> String {
        self.name()
    }
    pub fn name(&self) -> String {
        let t = self.space.path(&self.id, &None).to_string();
        t.replace(' ', "")
    }
    pub fn ident(&self) -> TokenStream {
        self.space.path(&self.id, &self.module())
    }
    pub fn parameter_ident(&self) -> TokenStream {
        self.param(None)
    }
    pub fn parameter_ident_with_lifetime(&self, l: &str) -> TokenStream {
        self.param(Some(l))
    }
    fn param(&self, l: Option<&str>) -> TokenStream {
        let lt = l.map(|l| {
            let l = syn::Lifetime::new(&format!("'{}", l), proc_macro2::Span::call_site());
            quote! { #l }
        });
        let p = self.ident();
        match self.space.kind(&self.id) {
            Kind::Enum { .. } | Kind::Unit => p,
            Kind::Native { copy: true, .. } => p,
            Kind::String => quote! { & #lt str },
            Kind::Option(t) => {
                let t = Type { space: self.space, id: t.clone() }.param(l);
                quote! { Option<#t> }
            }
            _ => quote! { & #lt #p },
        }
    }
    pub fn builder(&self) -> Option<TokenStream> {
        if !self.space.settings.struct_builder {
            return None;
        }
        match self.space.kind(&self.id) {
            Kind::Struct { name, .. } => {
                let i = format_ident!("{}", name);
                Some(match self.module() {
                    Some(m) => quote! { #m :: builder :: #i },
                    None => quote! { builder :: #i },
                })
            }
            _ => None,
        }
    }
    pub fn has_impl(&self, i: TypeSpaceImpl) -> bool {
        match self.space.kind(&self.id) {
            Kind::String | Kind::Enum { .. } => matches!(i, TypeSpaceImpl::FromStr | TypeSpaceImpl::Display),
            Kind::Native { impls, .. } => impls.contains(&i),
            Kind::Newtype { inner, .. } => Type { space: self.space, id: inner.clone() }.has_impl(i),
            _ => false,
        }
    }
    pub fn details(&self) -> TypeDetails<'a> {
        match self.space.kind(&self.id) {
            Kind::Pending => unreachable!(),
            Kind::Struct { props, .. } => TypeDetails::Struct(TypeStruct { props }),
            Kind::Enum { variants, .. } => TypeDetails::Enum(TypeEnum {
                variants: variants.iter().map(|(r, _)| (r.as_str(), TypeEnumVariant::Simple)).collect(),
            }),
            Kind::Untagged { variants, .. } => TypeDetails::Enum(TypeEnum {
                variants: variants.iter().map(|t| ("Variant", TypeEnumVariant::Tuple(vec![t.clone()]))).collect(),
            }),
            Kind::Newtype { inner, .. } => TypeDetails::Newtype(TypeNewtype { inner }),
            Kind::Option(t) => TypeDetails::Option(t.clone()),
            Kind::Vec(t) => TypeDetails::Vec(t.clone()),
            Kind::Map(t) => TypeDetails::Map(TypeId(0), t.clone()),
            Kind::Native { path, .. } => TypeDetails::Builtin(path),
            Kind::Unit => TypeDetails::Unit,
            Kind::String => TypeDetails::String,
            Kind::Json => TypeDetails::Builtin("::serde_json::Value"),
        }
    }
}
