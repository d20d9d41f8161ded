//! Stand-in for the schema data model of the schemars crate (not available offline).
pub type Map<K, V> = std::collections::BTreeMap<K, V>;
pub type Set<T> = std::collections::BTreeSet<T>;
pub use std::collections::btree_map::Entry as MapEntry;

pub mod schema {
    use super::{Map, Set};
    use serde::{Deserialize, Serialize};
    use serde_json::Value;

    fn is_false(b: &bool) -> bool {
        !*b
    }
    fn skip<T: Default + PartialEq>(o: &Option<Box<T>>) -> bool {
        o.as_ref().map_or(true, |x| **x == T::default())
    }
    fn opt<'de, D: serde::Deserializer<'de>, T: Default + PartialEq + Deserialize<'de>>(d: D) -> Result<Option<Box<T>>, D::Error> {
        let t = T::deserialize(d)?;
        Ok(if t == T::default() { None } else { Some(Box::new(t)) })
    }
    fn nullv<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<Value>, D::Error> {
        Value::deserialize(d).map(Some)
    }

    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum Schema {
        Bool(bool),
        Object(SchemaObject),
    }
    impl Schema {
        pub fn new_ref(reference: String) -> Self {
            SchemaObject::new_ref(reference).into()
        }
        pub fn is_ref(&self) -> bool {
            matches!(self, Schema::Object(o) if o.is_ref())
        }
        pub fn into_object(self) -> SchemaObject {
            match self {
                Schema::Object(o) => o,
                Schema::Bool(true) => SchemaObject::default(),
                Schema::Bool(false) => SchemaObject {
                    subschemas: Some(Box::new(SubschemaValidation { not: Some(Schema::Object(Default::default()).into()), ..Default::default() })),
                    ..Default::default()
                },
            }
        }
    }
    impl From<SchemaObject> for Schema {
        fn from(o: SchemaObject) -> Self {
            Schema::Object(o)
        }
    }
    impl From<bool> for Schema {
        fn from(b: bool) -> Self {
            Schema::Bool(b)
        }
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct SchemaObject {
        #[serde(flatten, deserialize_with = "opt", skip_serializing_if = "skip")]
        pub metadata: Option<Box<Metadata>>,
        #[serde(rename = "type", skip_serializing_if = "Option::is_none")]
        pub instance_type: Option<SingleOrVec<InstanceType>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub format: Option<String>,
        #[serde(rename = "enum", skip_serializing_if = "Option::is_none")]
        pub enum_values: Option<Vec<Value>>,
        #[serde(rename = "const", skip_serializing_if = "Option::is_none", deserialize_with = "nullv")]
        pub const_value: Option<Value>,
        #[serde(flatten, deserialize_with = "opt", skip_serializing_if = "skip")]
        pub subschemas: Option<Box<SubschemaValidation>>,
        #[serde(flatten, deserialize_with = "opt", skip_serializing_if = "skip")]
        pub number: Option<Box<NumberValidation>>,
        #[serde(flatten, deserialize_with = "opt", skip_serializing_if = "skip")]
        pub string: Option<Box<StringValidation>>,
        #[serde(flatten, deserialize_with = "opt", skip_serializing_if = "skip")]
        pub array: Option<Box<ArrayValidation>>,
        #[serde(flatten, deserialize_with = "opt", skip_serializing_if = "skip")]
        pub object: Option<Box<ObjectValidation>>,
        #[serde(rename = "$ref", skip_serializing_if = "Option::is_none")]
        pub reference: Option<String>,
        #[serde(flatten)]
        pub extensions: Map<String, Value>,
    }
    macro_rules! get_or_insert {
        ($($f:ident: $t:ty),*) => { $( pub fn $f(&mut self) -> &mut $t { self.$f.get_or_insert_with(Default::default) } )* };
    }
    impl SchemaObject {
        pub fn new_ref(reference: String) -> Self {
            SchemaObject { reference: Some(reference), ..Default::default() }
        }
        pub fn is_ref(&self) -> bool {
            self.reference.is_some()
        }
        pub fn has_type(&self, ty: InstanceType) -> bool {
            self.instance_type.as_ref().map_or(true, |x| x.contains(&ty))
        }
        get_or_insert!(metadata: Metadata, subschemas: SubschemaValidation, number: NumberValidation, string: StringValidation, array: ArrayValidation, object: ObjectValidation);
    }
    impl From<Schema> for SchemaObject {
        fn from(s: Schema) -> Self {
            s.into_object()
        }
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct Metadata {
        #[serde(rename = "$id", skip_serializing_if = "Option::is_none")]
        pub id: Option<String>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub title: Option<String>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub description: Option<String>,
        #[serde(skip_serializing_if = "Option::is_none", deserialize_with = "nullv")]
        pub default: Option<Value>,
        #[serde(skip_serializing_if = "is_false")]
        pub deprecated: bool,
        #[serde(skip_serializing_if = "is_false")]
        pub read_only: bool,
        #[serde(skip_serializing_if = "is_false")]
        pub write_only: bool,
        #[serde(skip_serializing_if = "Vec::is_empty")]
        pub examples: Vec<Value>,
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct SubschemaValidation {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub all_of: Option<Vec<Schema>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub any_of: Option<Vec<Schema>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub one_of: Option<Vec<Schema>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub not: Option<Box<Schema>>,
        #[serde(rename = "if", skip_serializing_if = "Option::is_none")]
        pub if_schema: Option<Box<Schema>>,
        #[serde(rename = "then", skip_serializing_if = "Option::is_none")]
        pub then_schema: Option<Box<Schema>>,
        #[serde(rename = "else", skip_serializing_if = "Option::is_none")]
        pub else_schema: Option<Box<Schema>>,
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct NumberValidation {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub multiple_of: Option<f64>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub maximum: Option<f64>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub exclusive_maximum: Option<f64>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub minimum: Option<f64>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub exclusive_minimum: Option<f64>,
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct StringValidation {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub max_length: Option<u32>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub min_length: Option<u32>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub pattern: Option<String>,
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct ArrayValidation {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub items: Option<SingleOrVec<Schema>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub additional_items: Option<Box<Schema>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub max_items: Option<u32>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub min_items: Option<u32>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub unique_items: Option<bool>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub contains: Option<Box<Schema>>,
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct ObjectValidation {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub max_properties: Option<u32>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub min_properties: Option<u32>,
        #[serde(skip_serializing_if = "Set::is_empty")]
        pub required: Set<String>,
        #[serde(skip_serializing_if = "Map::is_empty")]
        pub properties: Map<String, Schema>,
        #[serde(skip_serializing_if = "Map::is_empty")]
        pub pattern_properties: Map<String, Schema>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub additional_properties: Option<Box<Schema>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub property_names: Option<Box<Schema>>,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub enum InstanceType {
        Null,
        Boolean,
        Object,
        Array,
        Number,
        String,
        Integer,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum SingleOrVec<T> {
        Single(Box<T>),
        Vec(Vec<T>),
    }
    impl<T> From<T> for SingleOrVec<T> {
        fn from(t: T) -> Self {
            SingleOrVec::Single(Box::new(t))
        }
    }
    impl<T> From<Vec<T>> for SingleOrVec<T> {
        fn from(v: Vec<T>) -> Self {
            SingleOrVec::Vec(v)
        }
    }
    impl<T: PartialEq> SingleOrVec<T> {
        pub fn contains(&self, t: &T) -> bool {
            match self {
                SingleOrVec::Single(s) => **s == *t,
                SingleOrVec::Vec(v) => v.contains(t),
            }
        }
    }
}
