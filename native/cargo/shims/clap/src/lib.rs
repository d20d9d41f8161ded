//! arguments as a JSON value in VP_ARGS; what the attributes say is not part of this stand-in
pub use clap_derive::{Args, Parser, Subcommand, ValueEnum};
pub use serde_json::Value;
pub trait Given: Sized { fn given(v: &Value) -> Self; }
impl Given for String { fn given(v: &Value) -> Self { v.as_str().unwrap().to_string() } }
impl Given for std::path::PathBuf { fn given(v: &Value) -> Self { v.as_str().unwrap().into() } }
impl Given for bool { fn given(v: &Value) -> Self { v.as_bool().unwrap() } }
impl<T: Given> Given for Option<T> { fn given(v: &Value) -> Self { if v.is_null() { None } else { Some(T::given(v)) } } }
impl<T: Given> Given for Vec<T> { fn given(v: &Value) -> Self { v.as_array().into_iter().flatten().map(T::given).collect() } }
pub trait Parser: Given { fn parse() -> Self { Self::given(&serde_json::from_str(&std::env::var("VP_ARGS").unwrap()).unwrap()) } }
pub trait ValueEnum {}
pub trait Args {}
pub trait Subcommand {}
pub enum ArgAction { Set, Append, SetTrue, SetFalse, Count }
