//! Pieces of documents.
use openapiv3::*;

pub fn string_schema() -> ReferenceOr<Schema> {
    ReferenceOr::Item(Schema {
        schema_data: Default::default(),
        schema_kind: SchemaKind::Type(Type::String(Default::default())),
    })
}
pub fn data(name: String, required: bool) -> ParameterData {
    ParameterData {
        name,
        description: None,
        required,
        deprecated: None,
        format: ParameterSchemaOrContent::Schema(string_schema()),
        example: None,
        examples: Default::default(),
        explode: None,
        extensions: Default::default(),
    }
}
/// 0 path, 1 query, 2 header.
pub fn param(kind: u32, name: String, required: bool) -> Parameter {
    let parameter_data = data(name, required);
    match kind {
        0 => Parameter::Path { parameter_data, style: PathStyle::Simple },
        1 => Parameter::Query {
            parameter_data,
            allow_reserved: false,
            style: QueryStyle::Form,
            allow_empty_value: None,
        },
        _ => Parameter::Header { parameter_data, style: HeaderStyle::Simple },
    }
}
pub fn response() -> Response {
    Response { description: String::new(), ..Default::default() }
}
pub fn json(schema: ReferenceOr<Schema>) -> indexmap::IndexMap<String, MediaType> {
    let mut m = indexmap::IndexMap::new();
    m.insert("application/json".to_string(), MediaType { schema: Some(schema), ..Default::default() });
    m
}
pub fn operation(id: &str) -> Operation {
    Operation { operation_id: Some(id.to_string()), ..Default::default() }
}
pub fn generator() -> crate::Generator {
    crate::Generator::new(&crate::GenerationSettings::default())
}
