//! Stand-in for the typify crate (a git dependency, not available offline): a type space that keeps the
//! schemas it is given and answers the questions the generator asks about them.
use heck::{ToPascalCase, ToSnakeCase};
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use schemars::schema::{InstanceType, Schema, SchemaObject, SingleOrVec};
use std::collections::BTreeMap;

#[derive(thiserror::Error, Debug)]
pub enum Error {
    #[error("unexpected value type")]
    BadValue(String, serde_json::Value),
    #[error("invalid TypeId")]
    InvalidTypeId,
    #[error("value does not conform to the given schema")]
    InvalidValue,
    #[error("invalid schema: {0}")]
    InvalidSchema(String),
}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, PartialEq, PartialOrd, Ord, Eq, Clone, Hash)]
pub struct TypeId(pub u64);

#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Deserialize)]
pub enum UnknownPolicy {
    Generate,
    Allow,
    Deny,
}
impl Default for UnknownPolicy {
    fn default() -> Self {
        Self::Generate
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CrateVers {
    Any,
    Version(semver::Version),
    Never,
}
impl CrateVers {
    pub fn parse(s: &str) -> Option<Self> {
        if s == "!" {
            Some(Self::Never)
        } else if s == "*" {
            Some(Self::Any)
        } else {
            Some(Self::Version(semver::Version::parse(s).ok()?))
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[non_exhaustive]
pub enum TypeSpaceImpl {
    FromStr,
    FromStringIrrefutable,
    Display,
    Default,
}
impl std::str::FromStr for TypeSpaceImpl {
    type Err = String;
    fn from_str(s: &str) -> std::result::Result<Self, String> {
        match s {
            "FromStr" => Ok(Self::FromStr),
            "Display" => Ok(Self::Display),
            "Default" => Ok(Self::Default),
            _ => Err(format!("{s} is not a valid trait specifier")),
        }
    }
}
#[derive(Debug, Default, Clone, PartialEq, Eq)]
pub struct TypeSpacePatch {
    pub rename: Option<String>,
    pub derives: Vec<String>,
}
impl TypeSpacePatch {
    pub fn with_rename<S: ToString>(&mut self, r: S) -> &mut Self {
        self.rename = Some(r.to_string());
        self
    }
    pub fn with_derive<S: ToString>(&mut self, d: S) -> &mut Self {
        self.derives.push(d.to_string());
        self
    }
}
/// everything it is told, in order, for inspection
#[derive(Default, Debug, Clone)]
pub struct TypeSpaceSettings {
    pub type_mod: Option<String>,
    pub struct_builder: bool,
    pub derives: Vec<String>,
    pub unknown: UnknownPolicy,
    pub crates: Vec<(String, CrateVers, Option<String>)>,
    pub patches: Vec<(String, TypeSpacePatch)>,
    pub replace: Vec<(String, String, Vec<TypeSpaceImpl>)>,
    pub convert: Vec<(SchemaObject, String, Vec<TypeSpaceImpl>)>,
    pub map_type: Option<String>,
}
impl TypeSpaceSettings {
    pub fn with_type_mod<S: AsRef<str>>(&mut self, t: S) -> &mut Self {
        self.type_mod = Some(t.as_ref().to_string());
        self
    }
    pub fn with_struct_builder(&mut self, b: bool) -> &mut Self {
        self.struct_builder = b;
        self
    }
    pub fn with_derive(&mut self, d: String) -> &mut Self {
        self.derives.push(d);
        self
    }
    pub fn with_unknown_crates(&mut self, p: UnknownPolicy) -> &mut Self {
        self.unknown = p;
        self
    }
    pub fn with_crate<S: ToString>(&mut self, n: S, v: CrateVers, r: Option<&String>) -> &mut Self {
        self.crates.push((n.to_string(), v, r.cloned()));
        self
    }
    pub fn with_patch<S: ToString>(&mut self, n: S, p: &TypeSpacePatch) -> &mut Self {
        self.patches.push((n.to_string(), p.clone()));
        self
    }
    pub fn with_replacement<A: ToString, B: ToString, I: Iterator<Item = TypeSpaceImpl>>(&mut self, t: A, r: B, i: I) -> &mut Self {
        self.replace.push((t.to_string(), r.to_string(), i.collect()));
        self
    }
    pub fn with_conversion<S: ToString, I: Iterator<Item = TypeSpaceImpl>>(&mut self, s: SchemaObject, t: S, i: I) -> &mut Self {
        self.convert.push((s, t.to_string(), i.collect()));
        self
    }
    pub fn with_map_type<S: ToString>(&mut self, t: S) -> &mut Self {
        self.map_type = Some(t.to_string());
        self
    }
}

#[derive(Debug, Clone)]
struct Prop {
    api: String,
    name: String,
    description: Option<String>,
    required: bool,
    id: TypeId,
}
#[derive(Debug, Clone)]
enum Kind {
    Struct(Vec<Prop>),
    Enum(Vec<String>, Vec<String>),
    OneOf,
    Option(TypeId),
    Vec(TypeId),
    Map(TypeId),
    Builtin(&'static str),
    Unit,
    String,
    Ref(String),
    Value,
}
#[derive(Debug, Clone)]
struct Entry {
    name: Option<String>,
    kind: Kind,
}
#[derive(Debug, Clone, Default)]
pub struct TypeSpace {
    entries: Vec<Entry>,
    named: BTreeMap<String, TypeId>,
    pub settings: TypeSpaceSettings,
    pub refs: Vec<(String, Schema)>,
}
impl TypeSpace {
    pub fn new(s: &TypeSpaceSettings) -> Self {
        TypeSpace { settings: s.clone(), ..Default::default() }
    }
    pub fn add_ref_types<I, S>(&mut self, defs: I) -> Result<()>
    where
        I: IntoIterator<Item = (S, Schema)>,
        S: AsRef<str>,
    {
        for (n, s) in defs {
            self.refs.push((n.as_ref().to_string(), s.clone()));
            let id = self.convert(&s, n.as_ref())?;
            self.named.insert(n.as_ref().to_string(), id);
        }
        Ok(())
    }
    pub fn add_type(&mut self, s: &Schema) -> Result<TypeId> {
        self.add_type_with_name(s, None)
    }
    pub fn add_type_with_name(&mut self, s: &Schema, hint: Option<String>) -> Result<TypeId> {
        self.convert(s, hint.as_deref().unwrap_or("Anon"))
    }
    fn add(&mut self, name: Option<String>, kind: Kind) -> TypeId {
        // unnamed types are shared
        if name.is_none() {
            let want = format!("{kind:?}");
            if let Some(i) = self.entries.iter().position(|e| e.name.is_none() && format!("{:?}", e.kind) == want) {
                return TypeId(i as u64);
            }
        }
        self.entries.push(Entry { name, kind });
        TypeId(self.entries.len() as u64 - 1)
    }
    fn convert(&mut self, s: &Schema, name: &str) -> Result<TypeId> {
        let o = match s {
            Schema::Bool(_) => return Ok(self.add(None, Kind::Value)),
            Schema::Object(o) => o,
        };
        if let Some(r) = &o.reference {
            let n = r.rsplit('/').next().unwrap().to_string();
            return Ok(self.add(None, Kind::Ref(n)));
        }
        let name = name.to_pascal_case();
        let (ty, null) = match &o.instance_type {
            None => (None, false),
            Some(SingleOrVec::Single(t)) => (Some(**t), false),
            Some(SingleOrVec::Vec(v)) => {
                let rest: Vec<_> = v.iter().filter(|t| **t != InstanceType::Null).collect();
                (if rest.len() == 1 { Some(*rest[0]) } else { None }, rest.len() < v.len())
            }
        };
        if null {
            let mut inner = o.clone();
            inner.instance_type = ty.map(|t| t.into());
            let id = self.convert(&inner.into(), &name)?;
            return Ok(self.add(None, Kind::Option(id)));
        }
        if let Some(sub) = &o.subschemas {
            if let Some(v) = &sub.one_of {
                let is_null = |s: &Schema| matches!(s, Schema::Object(o) if o.instance_type == Some(InstanceType::Null.into()));
                if v.len() == 2 && is_null(&v[0]) {
                    let id = self.convert(&v[1], &name)?;
                    return Ok(self.add(None, Kind::Option(id)));
                }
                return Ok(self.add(Some(name), Kind::OneOf));
            }
            if let Some(v) = &sub.all_of {
                if v.len() == 1 {
                    return self.convert(&v[0], &name);
                }
            }
            return Ok(self.add(None, Kind::Value));
        }
        Ok(match ty {
            Some(InstanceType::Null) => self.add(None, Kind::Unit),
            Some(InstanceType::Boolean) => self.add(None, Kind::Builtin("bool")),
            Some(InstanceType::Integer) => self.add(
                None,
                Kind::Builtin(match o.format.as_deref() {
                    Some("uint32") if o.number.as_ref().and_then(|n| n.minimum) == Some(1.0) => "::std::num::NonZeroU32",
                    Some("uint8") => "u8",
                    Some("int32") => "i32",
                    Some("uint32") => "u32",
                    Some("uint64") => "u64",
                    _ => "i64",
                }),
            ),
            Some(InstanceType::Number) => self.add(None, Kind::Builtin("f64")),
            Some(InstanceType::String) => match &o.enum_values {
                Some(v) => {
                    let raw: Vec<String> = v.iter().filter_map(|x| x.as_str()).map(|x| x.to_string()).collect();
                    let v = raw.iter().map(|x| x.to_pascal_case()).collect();
                    self.add(Some(name), Kind::Enum(v, raw))
                }
                None => self.add(None, Kind::String),
            },
            Some(InstanceType::Array) => {
                let item = match o.array.as_ref().and_then(|a| a.items.clone()) {
                    Some(SingleOrVec::Single(s)) => self.convert(&s, &format!("{name}Item"))?,
                    _ => self.add(None, Kind::Value),
                };
                self.add(None, Kind::Vec(item))
            }
            Some(InstanceType::Object) => {
                let v = o.object.clone().unwrap_or_default();
                if v.properties.is_empty() {
                    let item = match &v.additional_properties {
                        Some(s) => self.convert(s, &format!("{name}Value"))?,
                        None => self.add(None, Kind::Value),
                    };
                    self.add(None, Kind::Map(item))
                } else {
                    let mut props = vec![];
                    for (k, s) in &v.properties {
                        let required = v.required.contains(k);
                        let mut id = self.convert(s, &format!("{name}-{k}"))?;
                        if !required && !matches!(self.entries[id.0 as usize].kind, Kind::Option(_)) {
                            id = self.add(None, Kind::Option(id));
                        }
                        let description = match s {
                            Schema::Object(o) => o.metadata.as_ref().and_then(|m| m.description.clone()),
                            _ => None,
                        };
                        props.push(Prop { api: k.clone(), name: field_name(k), description, required, id });
                    }
                    self.add(Some(name), Kind::Struct(props))
                }
            }
            None => self.add(None, Kind::Value),
        })
    }
    pub fn get_type(&self, id: &TypeId) -> Result<Type<'_>> {
        self.entries.get(id.0 as usize).ok_or(Error::InvalidTypeId)?;
        Ok(Type { space: self, id: id.clone() })
    }
    pub fn iter_types(&self) -> impl Iterator<Item = Type<'_>> {
        (0..self.entries.len()).map(move |i| Type { space: self, id: TypeId(i as u64) })
    }
    pub fn uses_chrono(&self) -> bool {
        told("chrono", false)
    }
    pub fn uses_regress(&self) -> bool {
        told("regress", false)
    }
    pub fn uses_serde_json(&self) -> bool {
        told("serde_json", true)
    }
    pub fn uses_uuid(&self) -> bool {
        told("uuid", false)
    }
    /// the named types, with what generated clients and the types' own tests use of them
    pub fn to_stream(&self) -> TokenStream {
        let mut seen = std::collections::BTreeSet::new();
        let mut items = vec![];
        let mut builders = vec![];
        let all = |id: &TypeId| Type { space: self, id: id.clone() }.ident();
        for e in &self.entries {
            let Some(n) = &e.name else { continue };
            if !seen.insert(n.clone()) {
                continue;
            }
            let n = format_ident!("{}", n);
            match &e.kind {
                Kind::Struct(props) => {
                    let f: Vec<_> = props.iter().map(|p| format_ident!("{}", p.name)).collect();
                    let t: Vec<_> = props.iter().map(|p| all(&p.id)).collect();
                    let a: Vec<_> = props
                        .iter()
                        .map(|p| {
                            let k = &p.api;
                            match p.required {
                                true => quote! { #[serde(rename = #k)] },
                                false => quote! { #[serde(rename = #k, default, skip_serializing_if = "Option::is_none")] },
                            }
                        })
                        .collect();
                    items.push(quote! {
                        #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug, PartialEq)]
                        pub struct #n { #(#a pub #f: #t,)* }
                        impl ::std::convert::From<&#n> for #n { fn from(v: &#n) -> Self { v.clone() } }
                    });
                    if self.settings.struct_builder {
                        let init: Vec<_> = props
                            .iter()
                            .map(|p| match p.required {
                                true => {
                                    let m = format!("no value supplied for {}", p.name);
                                    quote! { Err(#m.to_string()) }
                                }
                                false => quote! { Ok(::std::default::Default::default()) },
                            })
                            .collect();
                        let m: Vec<_> = props.iter().map(|p| format!("error converting supplied value for {}", p.name)).collect();
                        items.push(quote! { impl #n { pub fn builder() -> builder::#n { ::std::default::Default::default() } } });
                        builders.push(quote! {
                            #[derive(Clone, Debug)]
                            pub struct #n { #(#f: ::std::result::Result<#t, ::std::string::String>,)* }
                            impl ::std::default::Default for #n { fn default() -> Self { Self { #(#f: #init,)* } } }
                            impl #n { #(
                                pub fn #f<T>(mut self, value: T) -> Self where T: ::std::convert::TryInto<#t> {
                                    self.#f = value.try_into().map_err(|_| #m.to_string());
                                    self
                                }
                            )* }
                            impl ::std::convert::TryFrom<#n> for super::#n {
                                type Error = ::std::string::String;
                                fn try_from(value: #n) -> ::std::result::Result<Self, ::std::string::String> { Ok(Self { #(#f: value.#f?,)* }) }
                            }
                            impl ::std::convert::From<super::#n> for #n { fn from(value: super::#n) -> Self { Self { #(#f: Ok(value.#f),)* } } }
                        });
                    }
                }
                Kind::Enum(v, raw) => {
                    let v: Vec<_> = v.iter().map(|x| format_ident!("{}", x)).collect();
                    items.push(quote! {
                        #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
                        pub enum #n { #(#[serde(rename = #raw)] #v,)* }
                        impl ::std::fmt::Display for #n { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str(match self { #(Self::#v => #raw,)* }) } }
                        impl ::std::str::FromStr for #n { type Err = ::std::string::String; fn from_str(s: &str) -> ::std::result::Result<Self, ::std::string::String> { match s { #(#raw => Ok(Self::#v),)* _ => Err("invalid value".to_string()) } } }
                        impl ::std::convert::TryFrom<&str> for #n { type Error = ::std::string::String; fn try_from(s: &str) -> ::std::result::Result<Self, ::std::string::String> { s.parse() } }
                        impl ::std::convert::TryFrom<::std::string::String> for #n { type Error = ::std::string::String; fn try_from(s: ::std::string::String) -> ::std::result::Result<Self, ::std::string::String> { s.parse() } }
                    });
                }
                _ => items.push(quote! { pub type #n = ::serde_json::Value; }),
            }
        }
        let b = match builders.is_empty() {
            true => quote! {},
            false => quote! { pub mod builder { use super::super::types; #(#builders)* } },
        };
        quote! { use super::types; #(#items)* #b }
    }
}
pub struct Type<'a> {
    space: &'a TypeSpace,
    id: TypeId,
}
#[non_exhaustive]
pub enum TypeDetails<'a> {
    Enum(TypeEnum<'a>),
    Struct(TypeStruct<'a>),
    Newtype(TypeNewtype<'a>),
    Option(TypeId),
    Vec(TypeId),
    Map(TypeId, TypeId),
    Set(TypeId),
    Box(TypeId),
    Tuple(Box<dyn Iterator<Item = TypeId> + 'a>),
    Array(TypeId, usize),
    Builtin(&'a str),
    Unit,
    String,
}
pub struct TypeEnum<'a>(&'a [String]);
pub struct TypeNewtype<'a>(pub &'a TypeId);
pub struct TypeStruct<'a>(&'a [Prop]);
pub struct TypeStructPropInfo<'a> {
    pub name: &'a str,
    pub description: Option<&'a str>,
    pub required: bool,
    pub type_id: TypeId,
}
pub enum TypeEnumVariant<'a> {
    Simple,
    Tuple(Vec<TypeId>),
    Struct(Vec<(&'a str, TypeId)>),
}
impl<'a> TypeEnum<'a> {
    pub fn variants(&'a self) -> impl Iterator<Item = (&'a str, TypeEnumVariant<'a>)> {
        self.0.iter().map(|n| (n.as_str(), TypeEnumVariant::Simple))
    }
}
impl<'a> TypeStruct<'a> {
    pub fn properties(&'a self) -> impl Iterator<Item = (&'a str, TypeId)> {
        self.0.iter().map(|p| (p.name.as_str(), p.id.clone()))
    }
    pub fn properties_info(&'a self) -> impl Iterator<Item = TypeStructPropInfo<'a>> {
        self.0.iter().map(|p| TypeStructPropInfo { name: p.name.as_str(), description: p.description.as_deref(), required: p.required, type_id: p.id.clone() })
    }
}
impl<'a> Type<'a> {
    fn entry(&self) -> &'a Entry {
        let mut e = &self.space.entries[self.id.0 as usize];
        for _ in 0..20 {
            match &e.kind {
                Kind::Ref(n) => match self.space.named.get(n) {
                    Some(i) => e = &self.space.entries[i.0 as usize],
                    None => break,
                },
                _ => break,
            }
        }
        e
    }
    fn of(&self, id: &TypeId) -> Type<'a> {
        Type { space: self.space, id: id.clone() }
    }
    pub fn name(&self) -> String {
        self.ident().to_string()
    }
    pub fn ident(&self) -> TokenStream {
        let e = self.entry();
        if let Some(n) = &e.name {
            let n = format_ident!("{}", n);
            return quote! { types::#n };
        }
        match &e.kind {
            Kind::Option(i) => {
                let t = self.of(i).ident();
                quote! { ::std::option::Option<#t> }
            }
            Kind::Vec(i) => {
                let t = self.of(i).ident();
                quote! { ::std::vec::Vec<#t> }
            }
            Kind::Map(i) => {
                let t = self.of(i).ident();
                quote! { ::std::collections::HashMap<::std::string::String, #t> }
            }
            Kind::Builtin(b) => {
                b.parse().unwrap()
            }
            Kind::Unit => quote! { () },
            Kind::String => quote! { ::std::string::String },
            _ => quote! { ::serde_json::Value },
        }
    }
    pub fn parameter_ident(&self) -> TokenStream {
        match &self.entry().kind {
            Kind::Builtin(_) | Kind::Unit => self.ident(),
            Kind::String => quote! { &str },
            Kind::Option(i) => {
                let t = self.of(i).parameter_ident();
                quote! { Option<#t> }
            }
            _ => {
                let t = self.ident();
                quote! { &#t }
            }
        }
    }
    pub fn parameter_ident_with_lifetime(&self, l: &str) -> TokenStream {
        let l = syn_lifetime(l);
        match &self.entry().kind {
            Kind::Builtin(_) | Kind::Unit => self.ident(),
            Kind::String => quote! { &#l str },
            Kind::Option(i) => {
                let t = self.of(i).parameter_ident();
                quote! { Option<#t> }
            }
            _ => {
                let t = self.ident();
                quote! { &#l #t }
            }
        }
    }
    pub fn describe(&self) -> String {
        format!("{:?}", self.entry())
    }
    pub fn details(&self) -> TypeDetails<'a> {
        match &self.entry().kind {
            Kind::Struct(p) => TypeDetails::Struct(TypeStruct(p)),
            Kind::Enum(v, _) => TypeDetails::Enum(TypeEnum(v)),
            Kind::OneOf => TypeDetails::Builtin("OneOf"),
            Kind::Option(i) => TypeDetails::Option(i.clone()),
            Kind::Vec(i) => TypeDetails::Vec(i.clone()),
            Kind::Map(i) => TypeDetails::Map(i.clone(), i.clone()),
            Kind::Builtin(b) => TypeDetails::Builtin(b),
            Kind::Unit => TypeDetails::Unit,
            Kind::String => TypeDetails::String,
            Kind::Ref(_) | Kind::Value => TypeDetails::Builtin("::serde_json::Value"),
        }
    }
    pub fn has_impl(&self, i: TypeSpaceImpl) -> bool {
        matches!(i, TypeSpaceImpl::FromStr | TypeSpaceImpl::Display) && matches!(&self.entry().kind, Kind::Builtin(_) | Kind::String | Kind::Enum(..))
    }
    pub fn builder(&self) -> Option<TokenStream> {
        match (&self.entry().kind, self.space.settings.struct_builder) {
            (Kind::Struct(_), true) => {
                let n = format_ident!("{}", self.entry().name.as_ref().unwrap());
                Some(quote! { types::builder::#n })
            }
            _ => None,
        }
    }
}
fn field_name(k: &str) -> String {
    let n = k.to_snake_case();
    match n.as_str() {
        "type" | "ref" | "self" | "match" | "use" | "in" | "for" | "fn" | "mod" | "loop" => format!("{n}_"),
        _ => n,
    }
}
fn syn_lifetime(l: &str) -> TokenStream {
    format!("'{l}").parse().unwrap()
}

/// what the type generator says it uses: told by the companion of G28
fn told(name: &str, otherwise: bool) -> bool {
    std::env::var("VP_USES").map_or(otherwise, |u| u.split(',').any(|x| x == name))
}
