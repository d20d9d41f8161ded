//! Stand-in for the openapiv3 crate (not available offline): the same data model, read with serde.
use indexmap::IndexMap;
use serde::de::{Deserializer, Error as _};
use serde::{Deserialize, Serialize};
use serde_json::Value;

fn is_false(b: &bool) -> bool {
    !*b
}
type Ext = IndexMap<String, Value>;
fn ext<'de, D: Deserializer<'de>>(d: D) -> Result<Ext, D::Error> {
    let m = IndexMap::<String, Value>::deserialize(d)?;
    Ok(m.into_iter().filter(|(k, _)| k.starts_with("x-")).collect())
}

#[derive(Debug, Clone, Serialize, PartialEq)]
#[serde(untagged)]
pub enum ReferenceOr<T> {
    Reference {
        #[serde(rename = "$ref")]
        reference: String,
    },
    Item(T),
}
impl<'de, T: serde::de::DeserializeOwned> Deserialize<'de> for ReferenceOr<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Value::deserialize(d)?;
        if let Some(Value::String(s)) = v.get("$ref") {
            return Ok(ReferenceOr::Reference { reference: s.clone() });
        }
        serde_json::from_value(v).map(ReferenceOr::Item).map_err(D::Error::custom)
    }
}
impl<T> ReferenceOr<T> {
    pub fn ref_(r: &str) -> Self {
        ReferenceOr::Reference { reference: r.to_owned() }
    }
    pub fn boxed_item(item: T) -> ReferenceOr<Box<T>> {
        ReferenceOr::Item(Box::new(item))
    }
    pub fn into_item(self) -> Option<T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_item(&self) -> Option<&T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_mut(&mut self) -> Option<&mut T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn to_item_ref(&self) -> &T {
        self.as_item().unwrap()
    }
    pub fn as_ref(&self) -> ReferenceOr<&T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference: reference.clone() },
            ReferenceOr::Item(i) => ReferenceOr::Item(i),
        }
    }
}
impl<T> ReferenceOr<Box<T>> {
    pub fn unbox(self) -> ReferenceOr<T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference },
            ReferenceOr::Item(b) => ReferenceOr::Item(*b),
        }
    }
}
impl<T> From<T> for ReferenceOr<T> {
    fn from(t: T) -> Self {
        ReferenceOr::Item(t)
    }
}

#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Contact {
    pub name: Option<String>,
    pub url: Option<String>,
    pub email: Option<String>,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct License {
    pub name: String,
    pub url: Option<String>,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
pub struct Info {
    #[serde(default)]
    pub title: String,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(default, rename = "termsOfService")]
    pub terms_of_service: Option<String>,
    #[serde(default)]
    pub contact: Option<Contact>,
    #[serde(default)]
    pub license: Option<License>,
    #[serde(default)]
    pub version: String,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Server {
    pub url: String,
    pub description: Option<String>,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
pub struct ExternalDocumentation {
    #[serde(default)]
    pub description: Option<String>,
    pub url: String,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
pub struct Tag {
    pub name: String,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(default, rename = "externalDocs")]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
pub type SecurityRequirement = IndexMap<String, Vec<String>>;

#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
pub struct OpenAPI {
    pub openapi: String,
    #[serde(default)]
    pub info: Info,
    #[serde(default)]
    pub servers: Vec<Server>,
    #[serde(default)]
    pub paths: Paths,
    #[serde(default)]
    pub components: Option<Components>,
    #[serde(default)]
    pub security: Option<Vec<SecurityRequirement>>,
    #[serde(default)]
    pub tags: Vec<Tag>,
    #[serde(default, rename = "externalDocs")]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
impl OpenAPI {
    pub fn operations(&self) -> impl Iterator<Item = (&str, &str, &Operation)> {
        self.paths
            .iter()
            .filter_map(|(p, i)| i.as_item().map(|i| (p, i)))
            .flat_map(|(p, i)| i.iter().map(move |(m, o)| (p.as_str(), m, o)))
    }
}
#[derive(Debug, Clone, Default, Serialize, PartialEq)]
pub struct Paths {
    #[serde(flatten)]
    pub paths: IndexMap<String, ReferenceOr<PathItem>>,
    #[serde(flatten)]
    pub extensions: Ext,
}
impl<'de> Deserialize<'de> for Paths {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let m = IndexMap::<String, Value>::deserialize(d)?;
        let mut p = Paths::default();
        for (k, v) in m {
            if k.starts_with("x-") {
                p.extensions.insert(k, v);
            } else {
                let x = serde_json::from_value(v).map_err(|e| D::Error::custom(format!("{k}: {e}")))?;
                p.paths.insert(k, x);
            }
        }
        Ok(p)
    }
}
impl Paths {
    pub fn iter(&self) -> indexmap::map::Iter<'_, String, ReferenceOr<PathItem>> {
        self.paths.iter()
    }
}
impl IntoIterator for Paths {
    type Item = (String, ReferenceOr<PathItem>);
    type IntoIter = indexmap::map::IntoIter<String, ReferenceOr<PathItem>>;
    fn into_iter(self) -> Self::IntoIter {
        self.paths.into_iter()
    }
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct PathItem {
    pub summary: Option<String>,
    pub description: Option<String>,
    pub get: Option<Operation>,
    pub put: Option<Operation>,
    pub post: Option<Operation>,
    pub delete: Option<Operation>,
    pub options: Option<Operation>,
    pub head: Option<Operation>,
    pub patch: Option<Operation>,
    pub trace: Option<Operation>,
    pub servers: Vec<Server>,
    pub parameters: Vec<ReferenceOr<Parameter>>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
impl PathItem {
    pub fn iter(&self) -> impl Iterator<Item = (&str, &Operation)> {
        vec![
            ("get", &self.get),
            ("put", &self.put),
            ("post", &self.post),
            ("delete", &self.delete),
            ("options", &self.options),
            ("head", &self.head),
            ("patch", &self.patch),
            ("trace", &self.trace),
        ]
        .into_iter()
        .filter_map(|(m, o)| o.as_ref().map(|o| (m, o)))
    }
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default, rename_all = "camelCase")]
pub struct Operation {
    pub tags: Vec<String>,
    pub summary: Option<String>,
    pub description: Option<String>,
    pub external_docs: Option<ExternalDocumentation>,
    pub operation_id: Option<String>,
    pub parameters: Vec<ReferenceOr<Parameter>>,
    pub request_body: Option<ReferenceOr<RequestBody>>,
    pub responses: Responses,
    pub callbacks: IndexMap<String, Value>,
    pub deprecated: bool,
    pub security: Option<Vec<SecurityRequirement>>,
    pub servers: Vec<Server>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum StatusCode {
    Code(u16),
    Range(u16),
}
impl std::fmt::Display for StatusCode {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            StatusCode::Code(c) => write!(f, "{c}"),
            StatusCode::Range(r) => write!(f, "{r}XX"),
        }
    }
}
impl Serialize for StatusCode {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_string())
    }
}
#[derive(Debug, Clone, Default, Serialize, PartialEq)]
pub struct Responses {
    pub default: Option<ReferenceOr<Response>>,
    #[serde(flatten)]
    pub responses: IndexMap<StatusCode, ReferenceOr<Response>>,
    #[serde(flatten)]
    pub extensions: Ext,
}
impl<'de> Deserialize<'de> for Responses {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let m = IndexMap::<String, Value>::deserialize(d)?;
        let mut p = Responses::default();
        for (k, v) in m {
            if k.starts_with("x-") {
                p.extensions.insert(k, v);
                continue;
            }
            let x = serde_json::from_value(v).map_err(|e| D::Error::custom(format!("{k}: {e}")))?;
            if k == "default" {
                p.default = Some(x);
            } else if k.len() == 3 && k[1..].eq_ignore_ascii_case("xx") {
                p.responses.insert(StatusCode::Range(k[..1].parse().map_err(D::Error::custom)?), x);
            } else {
                p.responses.insert(StatusCode::Code(k.parse().map_err(D::Error::custom)?), x);
            }
        }
        Ok(p)
    }
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Response {
    pub description: String,
    pub headers: IndexMap<String, Value>,
    pub content: IndexMap<String, MediaType>,
    pub links: IndexMap<String, Value>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
pub type Content = IndexMap<String, MediaType>;
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct MediaType {
    pub schema: Option<ReferenceOr<Schema>>,
    pub example: Option<Value>,
    pub examples: IndexMap<String, Value>,
    pub encoding: IndexMap<String, Encoding>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default, rename_all = "camelCase")]
pub struct Encoding {
    pub content_type: Option<String>,
    pub explode: bool,
    pub allow_reserved: bool,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct RequestBody {
    pub description: Option<String>,
    pub content: Content,
    pub required: bool,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct ParameterData {
    pub name: String,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(default)]
    pub required: bool,
    #[serde(default)]
    pub deprecated: Option<bool>,
    #[serde(flatten)]
    pub format: ParameterSchemaOrContent,
    #[serde(default)]
    pub example: Option<Value>,
    #[serde(default)]
    pub examples: IndexMap<String, Value>,
    #[serde(default)]
    pub explode: Option<bool>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub enum ParameterSchemaOrContent {
    Schema(ReferenceOr<Schema>),
    Content(Content),
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(tag = "in", rename_all = "camelCase")]
pub enum Parameter {
    Query {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default, rename = "allowReserved", skip_serializing_if = "is_false")]
        allow_reserved: bool,
        #[serde(default)]
        style: QueryStyle,
        #[serde(default, rename = "allowEmptyValue")]
        allow_empty_value: Option<bool>,
    },
    Header {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: HeaderStyle,
    },
    Path {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: PathStyle,
    },
    Cookie {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: CookieStyle,
    },
}
impl Parameter {
    pub fn parameter_data(self) -> ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
    pub fn parameter_data_ref(&self) -> &ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
}
macro_rules! style {
    ($n:ident, $d:ident, $($v:ident),*) => {
        #[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
        #[serde(rename_all = "camelCase")]
        pub enum $n { $($v),* }
        impl Default for $n { fn default() -> Self { $n::$d } }
    };
}
style!(PathStyle, Simple, Matrix, Label, Simple);
style!(QueryStyle, Form, Form, SpaceDelimited, PipeDelimited, DeepObject);
style!(CookieStyle, Form, Form);
style!(HeaderStyle, Simple, Simple);

#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default, rename_all = "camelCase")]
pub struct Components {
    pub security_schemes: IndexMap<String, Value>,
    pub responses: IndexMap<String, ReferenceOr<Response>>,
    pub parameters: IndexMap<String, ReferenceOr<Parameter>>,
    pub examples: IndexMap<String, Value>,
    pub request_bodies: IndexMap<String, ReferenceOr<RequestBody>>,
    pub headers: IndexMap<String, Value>,
    pub schemas: IndexMap<String, ReferenceOr<Schema>>,
    pub links: IndexMap<String, Value>,
    pub callbacks: IndexMap<String, Value>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default, rename_all = "camelCase")]
pub struct Discriminator {
    pub property_name: String,
    pub mapping: IndexMap<String, String>,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default, rename_all = "camelCase")]
pub struct SchemaData {
    pub nullable: bool,
    pub read_only: bool,
    pub write_only: bool,
    pub deprecated: bool,
    pub external_docs: Option<ExternalDocumentation>,
    pub example: Option<Value>,
    pub title: Option<String>,
    pub description: Option<String>,
    pub discriminator: Option<Discriminator>,
    pub default: Option<Value>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Ext,
}
#[derive(Debug, Clone, Serialize, PartialEq)]
pub struct Schema {
    #[serde(flatten)]
    pub schema_data: SchemaData,
    #[serde(flatten)]
    pub schema_kind: SchemaKind,
}
#[derive(Debug, Clone, Serialize, PartialEq)]
#[serde(untagged)]
pub enum SchemaKind {
    Type(Type),
    #[serde(rename_all = "camelCase")]
    OneOf {
        one_of: Vec<ReferenceOr<Schema>>,
    },
    #[serde(rename_all = "camelCase")]
    AllOf {
        all_of: Vec<ReferenceOr<Schema>>,
    },
    #[serde(rename_all = "camelCase")]
    AnyOf {
        any_of: Vec<ReferenceOr<Schema>>,
    },
    Not {
        not: Box<ReferenceOr<Schema>>,
    },
    Any(AnySchema),
}
#[derive(Debug, Clone, Serialize, PartialEq)]
#[serde(tag = "type", rename_all = "lowercase")]
pub enum Type {
    String(StringType),
    Number(NumberType),
    Integer(IntegerType),
    Object(ObjectType),
    Array(ArrayType),
    Boolean(BooleanType),
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(untagged)]
pub enum AdditionalProperties {
    Any(bool),
    Schema(Box<ReferenceOr<Schema>>),
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default, rename_all = "camelCase")]
pub struct AnySchema {
    #[serde(rename = "type")]
    pub typ: Option<String>,
    pub pattern: Option<String>,
    pub multiple_of: Option<f64>,
    pub exclusive_minimum: Option<bool>,
    pub exclusive_maximum: Option<bool>,
    pub minimum: Option<f64>,
    pub maximum: Option<f64>,
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    pub required: Vec<String>,
    pub additional_properties: Option<AdditionalProperties>,
    pub min_properties: Option<usize>,
    pub max_properties: Option<usize>,
    pub items: Option<ReferenceOr<Box<Schema>>>,
    pub min_items: Option<usize>,
    pub max_items: Option<usize>,
    pub unique_items: Option<bool>,
    #[serde(rename = "enum")]
    pub enumeration: Vec<Value>,
    pub format: Option<String>,
    pub min_length: Option<usize>,
    pub max_length: Option<usize>,
    pub one_of: Vec<ReferenceOr<Schema>>,
    pub all_of: Vec<ReferenceOr<Schema>>,
    pub any_of: Vec<ReferenceOr<Schema>>,
    pub not: Option<Box<ReferenceOr<Schema>>>,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub enum VariantOrUnknownOrEmpty<T> {
    Item(T),
    Unknown(String),
    #[default]
    Empty,
}
impl<T> VariantOrUnknownOrEmpty<T> {
    pub fn is_empty(&self) -> bool {
        matches!(self, VariantOrUnknownOrEmpty::Empty)
    }
}
impl<T: Serialize> Serialize for VariantOrUnknownOrEmpty<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            VariantOrUnknownOrEmpty::Item(t) => t.serialize(s),
            VariantOrUnknownOrEmpty::Unknown(u) => s.serialize_str(u),
            VariantOrUnknownOrEmpty::Empty => s.serialize_none(),
        }
    }
}
impl<'de, T: serde::de::DeserializeOwned> Deserialize<'de> for VariantOrUnknownOrEmpty<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(match Option::<String>::deserialize(d)? {
            None => VariantOrUnknownOrEmpty::Empty,
            Some(s) if s.is_empty() => VariantOrUnknownOrEmpty::Empty,
            Some(s) => match serde_json::from_value(Value::String(s.clone())) {
                Ok(t) => VariantOrUnknownOrEmpty::Item(t),
                Err(_) => VariantOrUnknownOrEmpty::Unknown(s),
            },
        })
    }
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
#[serde(rename_all = "kebab-case")]
pub enum StringFormat {
    Date,
    DateTime,
    Password,
    Byte,
    Binary,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
#[serde(rename_all = "lowercase")]
pub enum NumberFormat {
    Float,
    Double,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
#[serde(rename_all = "lowercase")]
pub enum IntegerFormat {
    Int32,
    Int64,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default, rename_all = "camelCase")]
pub struct StringType {
    pub format: VariantOrUnknownOrEmpty<StringFormat>,
    pub pattern: Option<String>,
    #[serde(rename = "enum")]
    pub enumeration: Vec<Option<String>>,
    pub min_length: Option<usize>,
    pub max_length: Option<usize>,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default, rename_all = "camelCase")]
pub struct NumberType {
    pub format: VariantOrUnknownOrEmpty<NumberFormat>,
    pub multiple_of: Option<f64>,
    pub exclusive_minimum: bool,
    pub exclusive_maximum: bool,
    pub minimum: Option<f64>,
    pub maximum: Option<f64>,
    #[serde(rename = "enum")]
    pub enumeration: Vec<Option<f64>>,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default, rename_all = "camelCase")]
pub struct IntegerType {
    pub format: VariantOrUnknownOrEmpty<IntegerFormat>,
    pub multiple_of: Option<i64>,
    pub exclusive_minimum: bool,
    pub exclusive_maximum: bool,
    pub minimum: Option<i64>,
    pub maximum: Option<i64>,
    #[serde(rename = "enum")]
    pub enumeration: Vec<Option<i64>>,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default, rename_all = "camelCase")]
pub struct ObjectType {
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    pub required: Vec<String>,
    pub additional_properties: Option<AdditionalProperties>,
    pub min_properties: Option<usize>,
    pub max_properties: Option<usize>,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default, rename_all = "camelCase")]
pub struct ArrayType {
    pub items: Option<ReferenceOr<Box<Schema>>>,
    pub min_items: Option<usize>,
    pub max_items: Option<usize>,
    pub unique_items: bool,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct BooleanType {
    #[serde(rename = "enum")]
    pub enumeration: Vec<Option<bool>>,
}

const STRING: &[&str] = &["type", "format", "pattern", "enum", "minLength", "maxLength"];
const NUMBER: &[&str] = &["type", "format", "multipleOf", "exclusiveMinimum", "exclusiveMaximum", "minimum", "maximum", "enum"];
const OBJECT: &[&str] = &["type", "properties", "required", "additionalProperties", "minProperties", "maxProperties"];
const ARRAY: &[&str] = &["type", "items", "minItems", "maxItems", "uniqueItems"];
const BOOLEAN: &[&str] = &["type", "enum"];
const DATA: &[&str] = &["nullable", "readOnly", "writeOnly", "deprecated", "externalDocs", "example", "title", "description", "discriminator", "default"];

impl<'de> Deserialize<'de> for Schema {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Value::deserialize(d)?;
        let o = v.as_object().ok_or_else(|| D::Error::custom("a schema is an object"))?;
        let schema_data: SchemaData = serde_json::from_value(v.clone()).map_err(D::Error::custom)?;
        let keys: Vec<&str> = o.keys().map(|k| k.as_str()).filter(|k| !DATA.contains(k) && !k.starts_with("x-")).collect();
        let only = |l: &[&str]| keys.iter().all(|k| l.contains(k));
        fn get<T: serde::de::DeserializeOwned, E: serde::de::Error>(v: &Value) -> Result<T, E> {
            serde_json::from_value(v.clone()).map_err(E::custom)
        }
        #[derive(Deserialize)]
        #[serde(rename_all = "camelCase")]
        struct Subs {
            #[serde(default)]
            one_of: Vec<ReferenceOr<Schema>>,
            #[serde(default)]
            all_of: Vec<ReferenceOr<Schema>>,
            #[serde(default)]
            any_of: Vec<ReferenceOr<Schema>>,
        }
        let kind = match o.get("type").and_then(|t| t.as_str()) {
            Some("string") if only(STRING) => get::<_, D::Error>(&v).map(Type::String).map(SchemaKind::Type).ok(),
            Some("number") if only(NUMBER) => get::<_, D::Error>(&v).map(Type::Number).map(SchemaKind::Type).ok(),
            Some("integer") if only(NUMBER) => get::<_, D::Error>(&v).map(Type::Integer).map(SchemaKind::Type).ok(),
            Some("object") if only(OBJECT) => get::<_, D::Error>(&v).map(Type::Object).map(SchemaKind::Type).ok(),
            Some("array") if only(ARRAY) => get::<_, D::Error>(&v).map(Type::Array).map(SchemaKind::Type).ok(),
            Some("boolean") if only(BOOLEAN) => get::<_, D::Error>(&v).map(Type::Boolean).map(SchemaKind::Type).ok(),
            _ if keys == ["oneOf"] => Some(SchemaKind::OneOf { one_of: get::<Subs, D::Error>(&v)?.one_of }),
            _ if keys == ["allOf"] => Some(SchemaKind::AllOf { all_of: get::<Subs, D::Error>(&v)?.all_of }),
            _ if keys == ["anyOf"] => Some(SchemaKind::AnyOf { any_of: get::<Subs, D::Error>(&v)?.any_of }),
            _ if keys == ["not"] => Some(SchemaKind::Not { not: Box::new(get(&o["not"])?) }),
            _ => None,
        };
        let schema_kind = match kind {
            Some(k) => k,
            None => SchemaKind::Any(get(&v)?),
        };
        Ok(Schema { schema_data, schema_kind })
    }
}
