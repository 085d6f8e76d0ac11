//! Stand-in for openapiv3 2.0 (not available offline): the same public data
//! types and serde shapes, as far as progenitor uses them.
use indexmap::IndexMap;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::Value;

pub type Extensions = IndexMap<String, Value>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ReferenceOr<T> {
    Reference {
        #[serde(rename = "$ref")]
        reference: String,
    },
    Item(T),
}
impl<T> ReferenceOr<T> {
    pub fn ref_(r: &str) -> Self {
        ReferenceOr::Reference { reference: r.to_owned() }
    }
    pub fn boxed_item(item: T) -> ReferenceOr<Box<T>> {
        ReferenceOr::Item(Box::new(item))
    }
    pub fn into_item(self) -> Option<T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_item(&self) -> Option<&T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn to_item_ref(&self) -> ReferenceOr<&T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference: reference.clone() },
            ReferenceOr::Item(i) => ReferenceOr::Item(i),
        }
    }
}
impl<T> ReferenceOr<Box<T>> {
    pub fn unbox(self) -> ReferenceOr<T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference },
            ReferenceOr::Item(b) => ReferenceOr::Item(*b),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Info {
    pub title: String,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(rename = "termsOfService", default)]
    pub terms_of_service: Option<String>,
    #[serde(default)]
    pub contact: Option<Value>,
    #[serde(default)]
    pub license: Option<Value>,
    pub version: String,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}

fn extensions<'de, D: Deserializer<'de>>(d: D) -> Result<Extensions, D::Error> {
    let m = IndexMap::<String, Value>::deserialize(d)?;
    Ok(m.into_iter().filter(|(k, _)| k.starts_with("x-")).collect())
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Tag {
    pub name: String,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(rename = "externalDocs", default)]
    pub external_docs: Option<Value>,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct OpenAPI {
    pub openapi: String,
    pub info: Info,
    #[serde(default)]
    pub servers: Vec<Value>,
    pub paths: Paths,
    #[serde(default)]
    pub components: Option<Components>,
    #[serde(default)]
    pub security: Option<Vec<Value>>,
    #[serde(default)]
    pub tags: Vec<Tag>,
    #[serde(rename = "externalDocs", default)]
    pub external_docs: Option<Value>,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Paths {
    pub paths: IndexMap<String, ReferenceOr<PathItem>>,
    pub extensions: Extensions,
}
impl Paths {
    pub fn iter(&self) -> indexmap::map::Iter<'_, String, ReferenceOr<PathItem>> {
        self.paths.iter()
    }
}
impl Serialize for Paths {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.paths.serialize(s)
    }
}
impl<'de> Deserialize<'de> for Paths {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let m = IndexMap::<String, Value>::deserialize(d)?;
        let mut p = Paths::default();
        for (k, v) in m {
            if k.starts_with("x-") {
                p.extensions.insert(k, v);
            } else if k.starts_with('/') {
                p.paths.insert(k, ReferenceOr::<PathItem>::deserialize(v).map_err(serde::de::Error::custom)?);
            }
        }
        Ok(p)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct PathItem {
    #[serde(default)]
    pub summary: Option<String>,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(default)]
    pub get: Option<Operation>,
    #[serde(default)]
    pub put: Option<Operation>,
    #[serde(default)]
    pub post: Option<Operation>,
    #[serde(default)]
    pub delete: Option<Operation>,
    #[serde(default)]
    pub options: Option<Operation>,
    #[serde(default)]
    pub head: Option<Operation>,
    #[serde(default)]
    pub patch: Option<Operation>,
    #[serde(default)]
    pub trace: Option<Operation>,
    #[serde(default)]
    pub servers: Vec<Value>,
    #[serde(default)]
    pub parameters: Vec<ReferenceOr<Parameter>>,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}
impl PathItem {
    pub fn iter(&self) -> impl Iterator<Item = (&str, &Operation)> {
        vec![
            ("get", &self.get),
            ("put", &self.put),
            ("post", &self.post),
            ("delete", &self.delete),
            ("options", &self.options),
            ("head", &self.head),
            ("patch", &self.patch),
            ("trace", &self.trace),
        ]
        .into_iter()
        .filter_map(|(m, o)| o.as_ref().map(|o| (m, o)))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Operation {
    #[serde(default)]
    pub tags: Vec<String>,
    #[serde(default)]
    pub summary: Option<String>,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(rename = "externalDocs", default)]
    pub external_docs: Option<Value>,
    #[serde(rename = "operationId", default)]
    pub operation_id: Option<String>,
    #[serde(default)]
    pub parameters: Vec<ReferenceOr<Parameter>>,
    #[serde(rename = "requestBody", default)]
    pub request_body: Option<ReferenceOr<RequestBody>>,
    pub responses: Responses,
    #[serde(default)]
    pub callbacks: IndexMap<String, Value>,
    #[serde(default)]
    pub deprecated: bool,
    #[serde(default)]
    pub security: Option<Vec<Value>>,
    #[serde(default)]
    pub servers: Vec<Value>,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Responses {
    pub default: Option<ReferenceOr<Response>>,
    pub responses: IndexMap<StatusCode, ReferenceOr<Response>>,
    pub extensions: Extensions,
}
impl Serialize for Responses {
    fn serialize<S: Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> {
        unimplemented!()
    }
}
impl<'de> Deserialize<'de> for Responses {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let m = IndexMap::<String, Value>::deserialize(d)?;
        let mut r = Responses::default();
        for (k, v) in m {
            if k.starts_with("x-") {
                r.extensions.insert(k, v);
            } else if k == "default" {
                r.default = Some(ReferenceOr::<Response>::deserialize(v).map_err(D::Error::custom)?);
            } else {
                let code = StatusCode::deserialize(Value::String(k)).map_err(D::Error::custom)?;
                r.responses.insert(code, ReferenceOr::<Response>::deserialize(v).map_err(D::Error::custom)?);
            }
        }
        Ok(r)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum StatusCode {
    Code(u16),
    Range(u16),
}
impl<'de> Deserialize<'de> for StatusCode {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let v = Value::deserialize(d)?;
        let s = match v {
            Value::String(s) => s,
            Value::Number(n) => n.to_string(),
            _ => return Err(D::Error::custom("status code")),
        };
        if s.len() != 3 {
            return Err(D::Error::custom("status code length"));
        }
        if let Ok(n) = s.parse::<u16>() {
            return Ok(StatusCode::Code(n));
        }
        match (s.is_ascii(), s.to_ascii_uppercase()) {
            (true, u) if u.ends_with("XX") && u.as_bytes()[0].is_ascii_digit() => {
                Ok(StatusCode::Range((u.as_bytes()[0] - b'0') as u16))
            }
            _ => Err(D::Error::custom("status code range")),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Response {
    #[serde(default)]
    pub description: String,
    #[serde(default)]
    pub headers: IndexMap<String, Value>,
    #[serde(default)]
    pub content: IndexMap<String, MediaType>,
    #[serde(default)]
    pub links: IndexMap<String, Value>,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct RequestBody {
    #[serde(default)]
    pub description: Option<String>,
    #[serde(default)]
    pub content: IndexMap<String, MediaType>,
    #[serde(default)]
    pub required: bool,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct MediaType {
    #[serde(default)]
    pub schema: Option<ReferenceOr<Schema>>,
    #[serde(default)]
    pub example: Option<Value>,
    #[serde(default)]
    pub examples: IndexMap<String, Value>,
    #[serde(default)]
    pub encoding: IndexMap<String, Value>,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Components {
    #[serde(default)]
    pub responses: IndexMap<String, ReferenceOr<Response>>,
    #[serde(default)]
    pub parameters: IndexMap<String, ReferenceOr<Parameter>>,
    #[serde(rename = "requestBodies", default)]
    pub request_bodies: IndexMap<String, ReferenceOr<RequestBody>>,
    #[serde(default)]
    pub schemas: IndexMap<String, ReferenceOr<Schema>>,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ParameterData {
    pub name: String,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(default)]
    pub required: bool,
    #[serde(default)]
    pub deprecated: Option<bool>,
    #[serde(flatten)]
    pub format: ParameterSchemaOrContent,
    #[serde(default)]
    pub example: Option<Value>,
    #[serde(default)]
    pub examples: IndexMap<String, Value>,
    #[serde(default)]
    pub explode: Option<bool>,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub enum ParameterSchemaOrContent {
    Schema(ReferenceOr<Schema>),
    Content(IndexMap<String, MediaType>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "in", rename_all = "camelCase")]
pub enum Parameter {
    Query {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(rename = "allowReserved", default)]
        allow_reserved: bool,
        #[serde(default)]
        style: QueryStyle,
        #[serde(rename = "allowEmptyValue", default)]
        allow_empty_value: Option<bool>,
    },
    Header {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: HeaderStyle,
    },
    Path {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: PathStyle,
    },
    Cookie {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: CookieStyle,
    },
}
impl Parameter {
    pub fn parameter_data(self) -> ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
    pub fn parameter_data_ref(&self) -> &ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "camelCase")]
pub enum PathStyle {
    Matrix,
    Label,
    #[default]
    Simple,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "camelCase")]
pub enum QueryStyle {
    #[default]
    Form,
    SpaceDelimited,
    PipeDelimited,
    DeepObject,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "camelCase")]
pub enum CookieStyle {
    #[default]
    Form,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "camelCase")]
pub enum HeaderStyle {
    #[default]
    Simple,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Discriminator {
    #[serde(rename = "propertyName")]
    pub property_name: String,
    #[serde(default)]
    pub mapping: IndexMap<String, String>,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ExternalDocumentation {
    #[serde(default)]
    pub description: Option<String>,
    pub url: String,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct SchemaData {
    #[serde(default)]
    pub nullable: bool,
    #[serde(default)]
    pub read_only: bool,
    #[serde(default)]
    pub write_only: bool,
    #[serde(default)]
    pub deprecated: bool,
    #[serde(default)]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(default)]
    pub example: Option<Value>,
    #[serde(default)]
    pub title: Option<String>,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(default)]
    pub discriminator: Option<Discriminator>,
    #[serde(default)]
    pub default: Option<Value>,
    #[serde(flatten, deserialize_with = "extensions")]
    pub extensions: Extensions,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Schema {
    pub schema_data: SchemaData,
    pub schema_kind: SchemaKind,
}
impl Serialize for Schema {
    fn serialize<S: Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> {
        unimplemented!()
    }
}
impl<'de> Deserialize<'de> for Schema {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let v = Value::deserialize(d)?;
        let schema_data = SchemaData::deserialize(v.clone()).map_err(D::Error::custom)?;
        let schema_kind = SchemaKind::from_value(v).map_err(D::Error::custom)?;
        Ok(Schema { schema_data, schema_kind })
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum SchemaKind {
    Type(Type),
    OneOf { one_of: Vec<ReferenceOr<Schema>> },
    AllOf { all_of: Vec<ReferenceOr<Schema>> },
    AnyOf { any_of: Vec<ReferenceOr<Schema>> },
    Not { not: Box<ReferenceOr<Schema>> },
    Any(AnySchema),
}
const DATA: &[&str] = &[
    "nullable", "readOnly", "writeOnly", "deprecated", "externalDocs", "example", "title", "description",
    "discriminator", "default",
];
impl SchemaKind {
    fn from_value(v: Value) -> Result<Self, serde_json::Error> {
        let Value::Object(mut m) = v else { return Err(serde::de::Error::custom("schema")) };
        m.retain(|k, _| !k.starts_with("x-") && !DATA.contains(&k.as_str()));
        let only = |k: &str| m.len() == 1 && m.contains_key(k);
        if only("oneOf") {
            return Ok(SchemaKind::OneOf { one_of: Vec::deserialize(m["oneOf"].clone())? });
        }
        if only("allOf") {
            return Ok(SchemaKind::AllOf { all_of: Vec::deserialize(m["allOf"].clone())? });
        }
        if only("anyOf") {
            return Ok(SchemaKind::AnyOf { any_of: Vec::deserialize(m["anyOf"].clone())? });
        }
        if only("not") {
            return Ok(SchemaKind::Not { not: Box::new(ReferenceOr::deserialize(m["not"].clone())?) });
        }
        if let Some(Value::String(t)) = m.get("type") {
            let ok: &[&str] = match t.as_str() {
                "string" => &["format", "pattern", "enum", "minLength", "maxLength"],
                "number" | "integer" => {
                    &["format", "multipleOf", "exclusiveMinimum", "exclusiveMaximum", "minimum", "maximum", "enum"]
                }
                "object" => &["properties", "required", "additionalProperties", "minProperties", "maxProperties"],
                "array" => &["items", "minItems", "maxItems", "uniqueItems"],
                "boolean" => &["enum"],
                _ => &[],
            };
            if !ok.is_empty() && m.keys().all(|k| k == "type" || ok.contains(&k.as_str())) {
                if let Ok(t) = Type::deserialize(Value::Object(m.clone())) {
                    return Ok(SchemaKind::Type(t));
                }
            }
        }
        Ok(SchemaKind::Any(AnySchema::deserialize(Value::Object(m))?))
    }
}

#[derive(Clone, Debug, Deserialize, PartialEq)]
#[serde(tag = "type", rename_all = "lowercase")]
pub enum Type {
    String(StringType),
    Number(NumberType),
    Integer(IntegerType),
    Object(ObjectType),
    Array(ArrayType),
    Boolean(BooleanType),
}
#[derive(Clone, Debug, Default, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct AnySchema {
    #[serde(rename = "type", default)]
    pub typ: Option<String>,
    #[serde(default)]
    pub pattern: Option<String>,
    #[serde(default)]
    pub multiple_of: Option<f64>,
    #[serde(default)]
    pub exclusive_minimum: Option<bool>,
    #[serde(default)]
    pub exclusive_maximum: Option<bool>,
    #[serde(default)]
    pub minimum: Option<f64>,
    #[serde(default)]
    pub maximum: Option<f64>,
    #[serde(default)]
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    #[serde(default)]
    pub required: Vec<String>,
    #[serde(default)]
    pub additional_properties: Option<AdditionalProperties>,
    #[serde(default)]
    pub min_properties: Option<usize>,
    #[serde(default)]
    pub max_properties: Option<usize>,
    #[serde(default)]
    pub items: Option<ReferenceOr<Box<Schema>>>,
    #[serde(default)]
    pub min_items: Option<usize>,
    #[serde(default)]
    pub max_items: Option<usize>,
    #[serde(default)]
    pub unique_items: Option<bool>,
    #[serde(rename = "enum", default)]
    pub enumeration: Vec<Value>,
    #[serde(default)]
    pub format: Option<String>,
    #[serde(default)]
    pub min_length: Option<usize>,
    #[serde(default)]
    pub max_length: Option<usize>,
    #[serde(default)]
    pub one_of: Vec<ReferenceOr<Schema>>,
    #[serde(default)]
    pub all_of: Vec<ReferenceOr<Schema>>,
    #[serde(default)]
    pub any_of: Vec<ReferenceOr<Schema>>,
    #[serde(default)]
    pub not: Option<Box<ReferenceOr<Schema>>>,
}
#[derive(Clone, Debug, Deserialize, PartialEq)]
#[serde(untagged)]
pub enum AdditionalProperties {
    Any(bool),
    Schema(Box<ReferenceOr<Schema>>),
}
#[derive(Clone, Debug, Default, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct StringType {
    #[serde(default)]
    pub format: VariantOrUnknownOrEmpty<StringFormat>,
    #[serde(default)]
    pub pattern: Option<String>,
    #[serde(rename = "enum", default)]
    pub enumeration: Vec<Option<String>>,
    #[serde(default)]
    pub min_length: Option<usize>,
    #[serde(default)]
    pub max_length: Option<usize>,
}
#[derive(Clone, Debug, Default, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct NumberType {
    #[serde(default)]
    pub format: VariantOrUnknownOrEmpty<NumberFormat>,
    #[serde(default)]
    pub multiple_of: Option<f64>,
    #[serde(default)]
    pub exclusive_minimum: bool,
    #[serde(default)]
    pub exclusive_maximum: bool,
    #[serde(default)]
    pub minimum: Option<f64>,
    #[serde(default)]
    pub maximum: Option<f64>,
    #[serde(rename = "enum", default)]
    pub enumeration: Vec<Option<f64>>,
}
#[derive(Clone, Debug, Default, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct IntegerType {
    #[serde(default)]
    pub format: VariantOrUnknownOrEmpty<IntegerFormat>,
    #[serde(default)]
    pub multiple_of: Option<i64>,
    #[serde(default)]
    pub exclusive_minimum: bool,
    #[serde(default)]
    pub exclusive_maximum: bool,
    #[serde(default)]
    pub minimum: Option<i64>,
    #[serde(default)]
    pub maximum: Option<i64>,
    #[serde(rename = "enum", default)]
    pub enumeration: Vec<Option<i64>>,
}
#[derive(Clone, Debug, Default, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct ObjectType {
    #[serde(default)]
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    #[serde(default)]
    pub required: Vec<String>,
    #[serde(default)]
    pub additional_properties: Option<AdditionalProperties>,
    #[serde(default)]
    pub min_properties: Option<usize>,
    #[serde(default)]
    pub max_properties: Option<usize>,
}
#[derive(Clone, Debug, Default, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct ArrayType {
    #[serde(default)]
    pub items: Option<ReferenceOr<Box<Schema>>>,
    #[serde(default)]
    pub min_items: Option<usize>,
    #[serde(default)]
    pub max_items: Option<usize>,
    #[serde(default)]
    pub unique_items: bool,
}
#[derive(Clone, Debug, Default, Deserialize, PartialEq)]
pub struct BooleanType {
    #[serde(rename = "enum", default)]
    pub enumeration: Vec<Option<bool>>,
}
#[derive(Clone, Debug, Deserialize, PartialEq, Copy)]
#[serde(rename_all = "kebab-case")]
pub enum StringFormat {
    Date,
    DateTime,
    Password,
    Byte,
    Binary,
}
#[derive(Clone, Debug, Deserialize, PartialEq, Copy)]
#[serde(rename_all = "lowercase")]
pub enum NumberFormat {
    Float,
    Double,
}
#[derive(Clone, Debug, Deserialize, PartialEq, Copy)]
#[serde(rename_all = "lowercase")]
pub enum IntegerFormat {
    Int32,
    Int64,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub enum VariantOrUnknownOrEmpty<T> {
    Item(T),
    Unknown(String),
    #[default]
    Empty,
}
impl<T> VariantOrUnknownOrEmpty<T> {
    pub fn is_empty(&self) -> bool {
        matches!(self, Self::Empty)
    }
}
impl<'de, T: for<'a> Deserialize<'a>> Deserialize<'de> for VariantOrUnknownOrEmpty<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(match Option::<String>::deserialize(d)? {
            None => Self::Empty,
            Some(s) => match T::deserialize(Value::String(s.clone())) {
                Ok(t) => Self::Item(t),
                Err(_) => Self::Unknown(s),
            },
        })
    }
}
