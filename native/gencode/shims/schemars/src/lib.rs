//! stands for schemars: every type has a schema
pub trait JsonSchema {}
impl<T: ?Sized> JsonSchema for T {}
