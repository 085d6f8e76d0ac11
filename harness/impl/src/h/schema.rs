//! What a schema says survives its translation for the type generator.
use crate::sx_rt as rt;
use crate::to_schema::ToSchema;
use openapiv3 as o;
use openapiv3::ReferenceOr;
use schemars::schema as j;
use schemars::schema::InstanceType as I;
use serde_json::Value;

#[derive(Clone)]
enum Child {
    Ref(String),
    /// Text of a least length, or null.
    Text(u32, bool),
    Any(bool),
}
#[derive(Clone, Default)]
struct Want {
    /// Empty: not restricted.
    types: Vec<I>,
    format: Option<String>,
    pattern: Option<String>,
    len: [Option<u32>; 2],
    /// Bits of multipleOf, minimum, exclusive minimum, maximum, exclusive
    /// maximum.
    num: [Option<u64>; 5],
    sizes: [Option<u32>; 4],
    unique: bool,
    required: Vec<String>,
    props: Vec<(String, Child)>,
    addl: Option<Child>,
    items: Option<Child>,
    one: Option<Vec<Child>>,
    all: Option<Vec<Child>>,
    any: Option<Vec<Child>>,
    not: Option<Child>,
    values: Vec<Value>,
    data: o::SchemaData,
    /// Null or the rest.
    or_null: bool,
}

fn yes() -> bool {
    rt::choose(2) == 1
}
fn maybe<T>(f: impl FnOnce() -> T) -> Option<T> {
    if yes() {
        Some(f())
    } else {
        None
    }
}
fn text() -> String {
    let b = rt::u8();
    rt::assume((b >= 32) & (b < 127));
    String::from_utf8(vec![b]).unwrap_or_default()
}
fn float() -> f64 {
    let f = f64::from_bits(rt::u64());
    rt::assume(f.is_finite());
    f
}
fn boxed(c: &Child) -> ReferenceOr<Box<o::Schema>> {
    match plain(c) {
        ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference },
        ReferenceOr::Item(s) => ReferenceOr::Item(Box::new(s)),
    }
}
fn plain(c: &Child) -> ReferenceOr<o::Schema> {
    match c {
        Child::Ref(r) => ReferenceOr::Reference { reference: r.clone() },
        Child::Text(n, nullable) => ReferenceOr::Item(o::Schema {
            schema_data: o::SchemaData { nullable: *nullable, ..Default::default() },
            schema_kind: o::SchemaKind::Type(o::Type::String(o::StringType {
                min_length: Some(*n as usize),
                ..Default::default()
            })),
        }),
        Child::Any(_) => unreachable!(),
    }
}
fn child() -> Child {
    if yes() {
        Child::Ref(format!("#/components/schemas/{}", text()))
    } else {
        Child::Text(rt::u32(), yes())
    }
}
fn data(full: bool) -> o::SchemaData {
    let mut d = o::SchemaData { nullable: yes(), ..Default::default() };
    if full {
        d.title = maybe(text);
        d.description = maybe(text);
        d.default = maybe(|| Value::String(text()));
        d.example = maybe(|| Value::Bool(rt::u8() & 1 == 1));
        d.deprecated = rt::u8() & 1 == 1;
        d.read_only = rt::u8() & 1 == 1;
        d.write_only = rt::u8() & 1 == 1;
        if yes() {
            d.extensions.insert("x-a".into(), Value::String(text()));
        }
    }
    d
}

fn same_opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => rt::same(a.as_bytes(), b.as_bytes()),
        (None, None) => true,
        _ => false,
    }
}
fn same_num<T: Copy + PartialEq>(a: &[Option<T>], b: &[Option<T>]) -> bool {
    let mut ok = true;
    for (a, b) in a.iter().zip(b) {
        ok &= match (a, b) {
            (Some(a), Some(b)) => a == b,
            (None, None) => true,
            _ => false,
        };
    }
    ok
}
fn same_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::String(a), Value::String(b)) => rt::same(a.as_bytes(), b.as_bytes()),
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::Null, Value::Null) => true,
        (Value::Number(a), Value::Number(b)) => {
            (a.is_f64() == b.is_f64())
                && a.as_f64().map(f64::to_bits) == b.as_f64().map(f64::to_bits)
                && a.as_i64() == b.as_i64()
        }
        _ => false,
    }
}
fn same_child(s: &j::Schema, c: &Child) -> bool {
    match (s, c) {
        (j::Schema::Bool(b), Child::Any(w)) => b == w,
        (j::Schema::Object(s), Child::Ref(r)) => {
            same_opt(&s.reference, &Some(r.clone())) && s.instance_type.is_none() && s.subschemas.is_none()
        }
        (j::Schema::Object(s), Child::Text(n, nullable)) => {
            s.reference.is_none()
                && types(s) == with_null(I::String, *nullable)
                && s.string.as_ref().is_some_and(|v| v.min_length == Some(*n) && v.max_length.is_none())
        }
        // {} and true are the same schema
        (j::Schema::Object(s), Child::Any(true)) => *s == Default::default(),
        _ => false,
    }
}
fn same_list(s: Option<&Vec<j::Schema>>, w: &Option<Vec<Child>>) -> bool {
    match (s, w) {
        (Some(s), Some(w)) => {
            let mut ok = s.len() == w.len();
            for (a, b) in s.iter().zip(w) {
                ok &= same_child(a, b);
            }
            ok
        }
        (None, None) => true,
        (Some(s), None) => s.is_empty(),
        _ => false,
    }
}
fn same_one(s: Option<&j::Schema>, w: &Option<Child>) -> bool {
    match (s, w) {
        (Some(s), Some(w)) => same_child(s, w),
        (None, None) => true,
        _ => false,
    }
}
fn types(s: &j::SchemaObject) -> Vec<I> {
    let mut v = match &s.instance_type {
        None => vec![],
        Some(j::SingleOrVec::Single(t)) => vec![**t],
        Some(j::SingleOrVec::Vec(v)) => v.clone(),
    };
    v.sort();
    v
}

fn decide(schema: o::Schema, mut w: Want) {
    w.data = schema.schema_data.clone();
    let got = match if yes() { schema.to_schema() } else { ReferenceOr::Item(schema).to_schema() } {
        j::Schema::Object(s) => s,
        j::Schema::Bool(_) => {
            rt::check(false, "schema: type and null");
            return;
        }
    };
    // notes
    let m = got.metadata.clone().map(|m| *m).unwrap_or_default();
    let d = &w.data;
    let mut ok = same_opt(&m.title, &d.title) & same_opt(&m.description, &d.description);
    ok &= (m.deprecated == d.deprecated) & (m.read_only == d.read_only) & (m.write_only == d.write_only);
    ok &= match (&m.default, &d.default) {
        (Some(a), Some(b)) => same_value(a, b),
        (None, None) => true,
        _ => false,
    };
    ok &= match (m.examples.first(), &d.example) {
        (Some(a), Some(b)) => same_value(a, b),
        (None, None) => true,
        _ => false,
    };
    ok &= got.extensions.len() == d.extensions.len();
    for (k, v) in &d.extensions {
        ok &= match got.extensions.get(k) {
            Some(x) => same_value(x, v),
            None => false,
        };
    }
    rt::check(ok, "schema: title, description, default, example, flags and extensions are kept");

    // null or the rest
    let body = if w.or_null {
        let sub = got.subschemas.clone().map(|s| *s).unwrap_or_default();
        let l = sub.one_of.or(sub.any_of).unwrap_or_default();
        let null = |s: &j::Schema| matches!(s, j::Schema::Object(o) if types(o) == vec![I::Null]);
        let rest: Vec<_> = l.iter().filter(|s| !null(s)).cloned().collect();
        let one = l.len() == 2 && rest.len() == 1 && got.instance_type.is_none() && sub.all_of.is_none();
        rt::check(one, "schema: nullable alternatives allow null beside the rest");
        match rest.into_iter().next() {
            Some(j::Schema::Object(s)) => s,
            _ => return,
        }
    } else {
        got
    };
    let mut want = w.types.clone();
    want.sort();
    rt::check(types(&body) == want, "schema: type and null");
    rt::check(same_opt(&body.format, &w.format), "schema: format is kept");
    let e = body.enum_values.clone().unwrap_or_default();
    let mut ok = e.len() == w.values.len();
    for (a, b) in e.iter().zip(&w.values) {
        ok &= same_value(a, b);
    }
    rt::check(ok, "schema: enumerated values are kept in order");
    let s = body.string.clone().map(|s| *s).unwrap_or_default();
    rt::check(
        same_opt(&s.pattern, &w.pattern) & same_num(&[s.min_length, s.max_length], &w.len),
        "schema: text limits are kept",
    );
    let n = body.number.clone().map(|s| *s).unwrap_or_default();
    let n: Vec<_> = [n.multiple_of, n.minimum, n.exclusive_minimum, n.maximum, n.exclusive_maximum]
        .iter()
        .map(|x| x.map(f64::to_bits))
        .collect();
    rt::check(same_num(&n, &w.num), "schema: number limits are kept, exclusive or not");
    let b = body.object.clone().map(|s| *s).unwrap_or_default();
    let a = body.array.clone().map(|s| *s).unwrap_or_default();
    let sizes = [b.min_properties, b.max_properties, a.min_items, a.max_items];
    rt::check(same_num(&sizes, &w.sizes), "schema: size limits are kept");
    let mut ok = b.required.len() == w.required.len();
    for r in &w.required {
        ok &= b.required.contains(r);
    }
    rt::check(ok, "schema: required properties are kept");
    let mut ok = b.properties.len() == w.props.len();
    for (k, c) in &w.props {
        ok &= match b.properties.get(k) {
            Some(s) => same_child(s, c),
            None => false,
        };
    }
    ok &= b.pattern_properties.is_empty() & b.property_names.is_none();
    ok &= match (&b.additional_properties, &w.addl) {
        // additional properties are allowed when nothing is said
        (None, Some(Child::Any(true))) => true,
        (a, w) => same_one(a.as_deref(), w),
    };
    rt::check(ok, "schema: properties are kept under their names");
    let items = match &a.items {
        None => None,
        Some(j::SingleOrVec::Single(s)) => Some(&**s),
        Some(j::SingleOrVec::Vec(_)) => {
            rt::check(false, "schema: items are kept");
            None
        }
    };
    rt::check(
        same_one(items, &w.items) & (a.unique_items.unwrap_or(false) == w.unique) & a.contains.is_none(),
        "schema: items are kept",
    );
    let s = body.subschemas.clone().map(|s| *s).unwrap_or_default();
    let ok = same_list(s.one_of.as_ref(), &w.one)
        & same_list(s.all_of.as_ref(), &w.all)
        & same_list(s.any_of.as_ref(), &w.any)
        & same_one(s.not.as_deref(), &w.not)
        & s.if_schema.is_none();
    rt::check(ok, "schema: alternatives are kept in order");
    rt::check(body.reference.is_none(), "schema: no reference is invented");
}
fn with_null(t: I, nullable: bool) -> Vec<I> {
    if nullable {
        let mut v = vec![t, I::Null];
        v.sort();
        v
    } else {
        vec![t]
    }
}

/// Args: 1 to vary the notes too.
pub fn string() {
    let schema_data = data(rt::arg(0) == 1);
    let mut w = Want { types: with_null(I::String, schema_data.nullable), ..Default::default() };
    let mut t = o::StringType::default();
    if rt::arg(0) != 1 {
        let f = rt::choose(7);
        t.format = match f {
            0 => o::VariantOrUnknownOrEmpty::Empty,
            1 => o::VariantOrUnknownOrEmpty::Item(o::StringFormat::Date),
            2 => o::VariantOrUnknownOrEmpty::Item(o::StringFormat::DateTime),
            3 => o::VariantOrUnknownOrEmpty::Item(o::StringFormat::Password),
            4 => o::VariantOrUnknownOrEmpty::Item(o::StringFormat::Byte),
            5 => o::VariantOrUnknownOrEmpty::Item(o::StringFormat::Binary),
            _ => o::VariantOrUnknownOrEmpty::Unknown(text()),
        };
        w.format = match &t.format {
            o::VariantOrUnknownOrEmpty::Unknown(s) => Some(s.clone()),
            _ => [None, Some("date"), Some("date-time"), Some("password"), Some("byte"), Some("binary")][f as usize]
                .map(String::from),
        };
        t.pattern = maybe(text);
        w.pattern = t.pattern.clone();
        w.len = [maybe(rt::u32), maybe(rt::u32)];
        t.min_length = w.len[0].map(|v| v as usize);
        t.max_length = w.len[1].map(|v| v as usize);
        for _ in 0..rt::choose(3) {
            let v = maybe(text);
            w.values.push(v.clone().map(Value::String).unwrap_or(Value::Null));
            t.enumeration.push(v);
        }
    }
    decide(o::Schema { schema_data, schema_kind: o::SchemaKind::Type(o::Type::String(t)) }, w)
}

fn limits<T: Copy>(draw: fn() -> T, bits: fn(T) -> u64, num: &mut [Option<u64>; 5]) -> (Option<T>, Option<T>, bool, Option<T>, bool) {
    let m = maybe(draw);
    let (lo, elo) = (maybe(draw), yes());
    let (hi, ehi) = (maybe(draw), yes());
    *num = [
        m.map(bits),
        lo.filter(|_| !elo).map(bits),
        lo.filter(|_| elo).map(bits),
        hi.filter(|_| !ehi).map(bits),
        hi.filter(|_| ehi).map(bits),
    ];
    (m, lo, elo, hi, ehi)
}
pub fn number() {
    let schema_data = data(false);
    let mut w = Want { types: with_null(I::Number, schema_data.nullable), ..Default::default() };
    let mut t = o::NumberType::default();
    let f = rt::choose(4);
    t.format = match f {
        0 => o::VariantOrUnknownOrEmpty::Empty,
        1 => o::VariantOrUnknownOrEmpty::Item(o::NumberFormat::Float),
        2 => o::VariantOrUnknownOrEmpty::Item(o::NumberFormat::Double),
        _ => o::VariantOrUnknownOrEmpty::Unknown("odd".into()),
    };
    w.format = [None, Some("float"), Some("double"), Some("odd")][f as usize].map(String::from);
    let (m, lo, elo, hi, ehi) = limits(float, f64::to_bits, &mut w.num);
    t.multiple_of = m;
    t.minimum = lo;
    t.exclusive_minimum = elo;
    t.maximum = hi;
    t.exclusive_maximum = ehi;
    for _ in 0..rt::choose(3) {
        let v = maybe(float);
        w.values.push(v.map(|v| serde_json::Number::from_f64(v).unwrap().into()).unwrap_or(Value::Null));
        t.enumeration.push(v);
    }
    decide(o::Schema { schema_data, schema_kind: o::SchemaKind::Type(o::Type::Number(t)) }, w)
}
pub fn integer() {
    let schema_data = data(false);
    let mut w = Want { types: with_null(I::Integer, schema_data.nullable), ..Default::default() };
    let mut t = o::IntegerType::default();
    let f = rt::choose(4);
    t.format = match f {
        0 => o::VariantOrUnknownOrEmpty::Empty,
        1 => o::VariantOrUnknownOrEmpty::Item(o::IntegerFormat::Int32),
        2 => o::VariantOrUnknownOrEmpty::Item(o::IntegerFormat::Int64),
        _ => o::VariantOrUnknownOrEmpty::Unknown("uint8".into()),
    };
    w.format = [None, Some("int32"), Some("int64"), Some("uint8")][f as usize].map(String::from);
    let (m, lo, elo, hi, ehi) = limits(|| rt::u64() as i64, |v| (v as f64).to_bits(), &mut w.num);
    t.multiple_of = m;
    t.minimum = lo;
    t.exclusive_minimum = elo;
    t.maximum = hi;
    t.exclusive_maximum = ehi;
    for _ in 0..rt::choose(3) {
        let v = maybe(|| rt::u64() as i64);
        w.values.push(v.map(Value::from).unwrap_or(Value::Null));
        t.enumeration.push(v);
    }
    decide(o::Schema { schema_data, schema_kind: o::SchemaKind::Type(o::Type::Integer(t)) }, w)
}
pub fn boolean() {
    let schema_data = data(false);
    let mut w = Want { types: with_null(I::Boolean, schema_data.nullable), ..Default::default() };
    let mut t = o::BooleanType::default();
    for _ in 0..rt::choose(4) {
        let v = maybe(|| rt::u8() & 1 == 1);
        w.values.push(v.map(Value::Bool).unwrap_or(Value::Null));
        t.enumeration.push(v);
    }
    decide(o::Schema { schema_data, schema_kind: o::SchemaKind::Type(o::Type::Boolean(t)) }, w)
}
fn props(w: &mut Want, n: u32) -> indexmap::IndexMap<String, ReferenceOr<Box<o::Schema>>> {
    let mut m = indexmap::IndexMap::new();
    for k in ["b", "a", "c"].iter().take(n as usize) {
        let c = child();
        m.insert(k.to_string(), boxed(&c));
        w.props.push((k.to_string(), c));
        if yes() {
            w.required.push(k.to_string());
        }
    }
    m
}
fn additional(w: &mut Want) -> Option<o::AdditionalProperties> {
    w.addl = match rt::choose(3) {
        0 => None,
        1 => Some(Child::Any(yes())),
        _ => Some(child()),
    };
    w.addl.as_ref().map(|c| match c {
        Child::Any(b) => o::AdditionalProperties::Any(*b),
        c => o::AdditionalProperties::Schema(Box::new(plain(c))),
    })
}
/// Args: properties at most.
pub fn object() {
    let schema_data = data(false);
    let mut w = Want { types: with_null(I::Object, schema_data.nullable), ..Default::default() };
    let mut t = o::ObjectType::default();
    let n = rt::choose(rt::arg(0) as u32 + 1);
    t.properties = props(&mut w, n);
    t.required = w.required.clone();
    t.additional_properties = additional(&mut w);
    w.sizes = [maybe(rt::u32), maybe(rt::u32), None, None];
    t.min_properties = w.sizes[0].map(|v| v as usize);
    t.max_properties = w.sizes[1].map(|v| v as usize);
    decide(o::Schema { schema_data, schema_kind: o::SchemaKind::Type(o::Type::Object(t)) }, w)
}
pub fn array() {
    let schema_data = data(false);
    let mut w = Want { types: with_null(I::Array, schema_data.nullable), ..Default::default() };
    let mut t = o::ArrayType::default();
    w.items = maybe(child);
    t.items = w.items.as_ref().map(boxed);
    w.sizes = [None, None, maybe(rt::u32), maybe(rt::u32)];
    t.min_items = w.sizes[2].map(|v| v as usize);
    t.max_items = w.sizes[3].map(|v| v as usize);
    w.unique = yes();
    t.unique_items = w.unique;
    decide(o::Schema { schema_data, schema_kind: o::SchemaKind::Type(o::Type::Array(t)) }, w)
}
/// Args: alternatives.
pub fn alternatives() {
    let schema_data = data(rt::arg(0) == 1);
    let mut w = Want { or_null: schema_data.nullable, ..Default::default() };
    let l: Vec<Child> = (0..rt::arg(0)).map(|_| child()).collect();
    let p: Vec<_> = l.iter().map(plain).collect();
    let schema_kind = match rt::choose(4) {
        0 => {
            w.one = Some(l);
            o::SchemaKind::OneOf { one_of: p }
        }
        1 => {
            w.all = Some(l);
            o::SchemaKind::AllOf { all_of: p }
        }
        2 => {
            w.any = Some(l);
            o::SchemaKind::AnyOf { any_of: p }
        }
        _ => {
            w.not = Some(l[0].clone());
            o::SchemaKind::Not { not: Box::new(plain(&l[0])) }
        }
    };
    decide(o::Schema { schema_data, schema_kind }, w)
}
/// Args: how many different keywords at most.
pub fn loose() {
    let schema_data = data(false);
    let mut w = Want::default();
    let mut t = o::AnySchema::default();
    let typ = [None, Some("boolean"), Some("object"), Some("array"), Some("number"), Some("string"), Some("integer")]
        [rt::choose(7) as usize];
    t.typ = typ.map(String::from);
    let mut k = 0;
    for _ in 0..rt::arg(0) {
        k += rt::choose(19 - k);
        keyword(k, &mut t, &mut w);
        if k < 18 {
            k += 1;
        }
    }
    let nullable = schema_data.nullable;
    let (st, nu, ob, ar) = (
        t.pattern.is_some() | t.min_length.is_some() | t.max_length.is_some(),
        t.multiple_of.is_some() | t.minimum.is_some() | t.maximum.is_some(),
        !t.properties.is_empty() | !t.required.is_empty() | t.additional_properties.is_some() | t.min_properties.is_some() | t.max_properties.is_some(),
        t.items.is_some() | t.min_items.is_some() | t.max_items.is_some() | t.unique_items.is_some(),
    );
    let sub = !t.one_of.is_empty() | !t.all_of.is_empty() | !t.any_of.is_empty() | t.not.is_some();
    w.types = match typ {
        Some("boolean") => with_null(I::Boolean, nullable),
        Some("object") => with_null(I::Object, nullable),
        Some("array") => with_null(I::Array, nullable),
        Some("number") => with_null(I::Number, nullable),
        Some("string") => with_null(I::String, nullable),
        Some(_) => with_null(I::Integer, nullable),
        None => {
            let mut v = vec![];
            if nullable {
                for (c, t) in [(ob, I::Object), (ar, I::Array), (nu, I::Number), (st, I::String)] {
                    if c {
                        v.push(t);
                    }
                }
                for x in &w.values {
                    let t = match x {
                        Value::Null => I::Null,
                        Value::Bool(_) => I::Boolean,
                        Value::Number(_) => I::Number,
                        Value::String(_) => I::String,
                        Value::Array(_) => I::Array,
                        Value::Object(_) => I::Object,
                    };
                    if !v.contains(&t) {
                        v.push(t);
                    }
                }
                if v.iter().all(|t| *t == I::Null) && sub {
                    w.or_null = true;
                    v.clear();
                } else if !v.is_empty() && !v.contains(&I::Null) {
                    v.push(I::Null);
                }
            }
            v
        }
    };
    decide(o::Schema { schema_data, schema_kind: o::SchemaKind::Any(t) }, w)
}
fn keyword(k: u32, t: &mut o::AnySchema, w: &mut Want) {
    match k {
        0 => {}
        1 => {
            t.pattern = Some(text());
            w.pattern = t.pattern.clone();
        }
        2 => {
            w.len[0] = Some(rt::u32());
            t.min_length = w.len[0].map(|v| v as usize);
        }
        3 => {
            w.len[1] = Some(rt::u32());
            t.max_length = w.len[1].map(|v| v as usize);
        }
        4 => {
            t.format = Some(text());
            w.format = t.format.clone();
        }
        5 => {
            t.multiple_of = Some(float());
            w.num[0] = t.multiple_of.map(f64::to_bits);
        }
        6 => {
            t.minimum = Some(float());
            t.exclusive_minimum = maybe(yes);
            let e = t.exclusive_minimum == Some(true);
            w.num[1] = t.minimum.filter(|_| !e).map(f64::to_bits);
            w.num[2] = t.minimum.filter(|_| e).map(f64::to_bits);
        }
        7 => {
            t.maximum = Some(float());
            t.exclusive_maximum = maybe(yes);
            let e = t.exclusive_maximum == Some(true);
            w.num[3] = t.maximum.filter(|_| !e).map(f64::to_bits);
            w.num[4] = t.maximum.filter(|_| e).map(f64::to_bits);
        }
        8 => {
            w.props.clear();
            w.required.clear();
            t.properties = props(w, 1);
            t.required = w.required.clone();
        }
        9 => t.additional_properties = additional(w),
        10 => {
            w.sizes[0] = Some(rt::u32());
            t.min_properties = w.sizes[0].map(|v| v as usize);
        }
        11 => {
            w.sizes[1] = Some(rt::u32());
            t.max_properties = w.sizes[1].map(|v| v as usize);
        }
        12 => {
            w.items = Some(child());
            t.items = w.items.as_ref().map(boxed);
        }
        13 => {
            w.sizes[2] = Some(rt::u32());
            t.min_items = w.sizes[2].map(|v| v as usize);
        }
        14 => {
            w.sizes[3] = Some(rt::u32());
            t.max_items = w.sizes[3].map(|v| v as usize);
        }
        15 => {
            w.unique = yes();
            t.unique_items = Some(w.unique);
        }
        16 => {
            w.values = match rt::choose(4) {
                0 => vec![Value::String(text())],
                1 => vec![Value::Null, Value::String(text())],
                2 => vec![Value::from(rt::u64() as i64), Value::Bool(rt::u8() & 1 == 1)],
                _ => vec![Value::Null, Value::Null],
            };
            t.enumeration = w.values.clone();
        }
        17 => {
            let l: Vec<Child> = vec![child()];
            let p = l.iter().map(plain).collect();
            match rt::choose(3) {
                0 => {
                    w.one = Some(l);
                    t.one_of = p;
                }
                1 => {
                    w.all = Some(l);
                    t.all_of = p;
                }
                _ => {
                    w.any = Some(l);
                    t.any_of = p;
                }
            }
        }
        _ => {
            w.not = Some(child());
            t.not = w.not.as_ref().map(|c| Box::new(plain(c)));
        }
    }
}
/// A reference stays one.
pub fn reference() {
    let r = format!("#/components/schemas/{}", text());
    let s: ReferenceOr<o::Schema> = ReferenceOr::Reference { reference: r.clone() };
    rt::check(same_child(&s.to_schema(), &Child::Ref(r)), "schema: a reference stays that reference");
}

/// Args: how many, what of: properties, values, alternatives. One of the first,
/// middle or last is of any kind.
pub fn many() {
    let n = rt::arg(0) as usize;
    let schema_data = data(false);
    let at = [0, n / 2, n - 1][rt::choose(3) as usize];
    let mut w = Want::default();
    let some = |i: usize| match i {
        i if i == at => child(),
        i if i % 3 == 0 => Child::Ref(format!("#/components/schemas/S{}", i)),
        i => Child::Text(i as u32, i % 2 == 0),
    };
    let schema_kind = match rt::arg(1) {
        0 => {
            w.types = with_null(I::Object, schema_data.nullable);
            let mut t = o::ObjectType::default();
            for i in 0..n {
                let (k, c) = (format!("p{}", (i * 7) % n), some(i));
                t.properties.insert(k.clone(), boxed(&c));
                if if i == at { yes() } else { i % 2 == 0 } {
                    w.required.push(k.clone());
                }
                w.props.retain(|p| p.0 != k);
                w.props.push((k, c));
            }
            t.required = w.required.clone();
            o::SchemaKind::Type(o::Type::Object(t))
        }
        1 => {
            w.types = with_null(I::String, schema_data.nullable);
            let mut t = o::StringType::default();
            for i in 0..n {
                let v = if i == at { maybe(text) } else { Some(format!("v{}", (i * 7) % n)) };
                w.values.push(v.clone().map(Value::String).unwrap_or(Value::Null));
                t.enumeration.push(v);
            }
            o::SchemaKind::Type(o::Type::String(t))
        }
        2 => {
            w.types = with_null(I::Integer, schema_data.nullable);
            let mut t = o::IntegerType::default();
            for i in 0..n {
                let v = if i == at { maybe(|| rt::u64() as i64) } else { Some(((i * 7) % n) as i64) };
                w.values.push(v.map(Value::from).unwrap_or(Value::Null));
                t.enumeration.push(v);
            }
            o::SchemaKind::Type(o::Type::Integer(t))
        }
        k => {
            w.or_null = schema_data.nullable;
            let l: Vec<Child> = (0..n).map(some).collect();
            let p: Vec<_> = l.iter().map(plain).collect();
            match k {
                3 => {
                    w.one = Some(l);
                    o::SchemaKind::OneOf { one_of: p }
                }
                4 => {
                    w.all = Some(l);
                    o::SchemaKind::AllOf { all_of: p }
                }
                _ => {
                    w.any = Some(l);
                    o::SchemaKind::AnyOf { any_of: p }
                }
            }
        }
    };
    decide(o::Schema { schema_data, schema_kind }, w)
}

entries! {
    i_s_many => many,
    i_s_string => string,
    i_s_number => number,
    i_s_integer => integer,
    i_s_boolean => boolean,
    i_s_object => object,
    i_s_array => array,
    i_s_alternatives => alternatives,
    i_s_loose => loose,
    i_s_reference => reference,
}
