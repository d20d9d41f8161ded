"""G16: conversion of document schemas to the internal ones."""
import re
from vp.weave import Weave, C
from vp.rustlex import Src, Lost, norm, lex, match_delims
from specs.gen6 import respace

FILES = dict(G16='progenitor-impl/src/to_schema.rs')
NOTE = {'G16': 'Every conversion impl is verified on its own against one layer of the schema, the conversions of nested schemas being the relation the same contracts define (partial correctness of the recursion). '
               'The data model of openapiv3 and schemars is restated in the contract file; numbers read from a document are taken to be finite, and an integer bound becomes the f64 nearest to it. '
               'Documents the generator refuses with todo! (an exclusive bound without a bound, an unknown type name) are outside the precondition.'}

HEAD = '''#![feature(allocator_api, sized_hierarchy, const_destruct)]
#![allow(unused, unstable_name_collisions)]
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
broadcast use {vx::ax_string, vx::ax_str, vx::flat_few, lx::no_props, lx::no_reqs};
'''

OPENAPI = r'''
pub mod vx {
use vstd::prelude::*;
/// a String is its text
pub broadcast axiom fn ax_string(a: String, b: String) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
/// a text is its characters
pub broadcast axiom fn ax_str(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
pub trait VClone: Sized { fn vp_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VText { fn vp_string(&self) -> (r: String) ensures r@ == self.txt(); spec fn txt(&self) -> Seq<char>; }
impl VText for str { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn fl(v: i64) -> f64;
#[verifier::external_body] pub fn vp_f64(v: i64) -> (r: f64) ensures r == fl(v) { v as f64 }
#[verifier::external_body] pub fn vp_todo() requires false { unimplemented!() }
#[verifier::external_body] pub fn vp_try_u32(n: usize) -> (r: core::result::Result<u32, ()>) ensures r is Ok == (n <= u32::MAX), r is Ok ==> r->Ok_0 == n { unimplemented!() }
pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or] (r: core::result::Result<T, E>, d: T) -> (o: T) where E: core::marker::Destruct, T: core::marker::Destruct, ensures o == (match r { Ok(x) => x, Err(_) => d });
pub assume_specification<T: core::marker::MetaSized + ?Sized, A: core::alloc::Allocator> [<std::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref] (b: &std::boxed::Box<T, A>) -> (r: &T) ensures r == &**b;
pub open spec fn sat(n: usize) -> u32 { if n <= u32::MAX { n as u32 } else { u32::MAX } }
pub open spec fn osat(n: Option<usize>) -> Option<u32> { match n { Some(n) => Some(sat(n)), None => None } }
pub trait VDeref { fn vp_deref(&self) -> (r: Option<&str>) ensures r is Some == self.vd() is Some, r is Some ==> r->Some_0@ == self.vd()->Some_0; spec fn vd(&self) -> Option<Seq<char>>; }
impl VDeref for Option<String> { open spec fn vd(&self) -> Option<Seq<char>> { match self { Some(s) => Some(s@), None => None } } #[verifier::external_body] fn vp_deref(&self) -> Option<&str> { unimplemented!() } }
pub open spec fn flat<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { Some(x) => flat(s.drop_last()).push(x), None => flat(s.drop_last()) } } }
pub proof fn flat_in<T>(s: Seq<Option<T>>, x: T) ensures #[trigger] flat(s).contains(x) <==> s.contains(Some(x)) decreases s.len() {
  if s.len() > 0 { let p = s.drop_last(); flat_in(p, x); assert(s =~= p.push(s.last()));
    if flat(s).contains(x) { let k = choose|k: int| 0 <= k < flat(s).len() && flat(s)[k] == x; if k < flat(p).len() { assert(flat(p)[k] == x); let j = choose|j: int| 0 <= j < p.len() && p[j] == Some(x); assert(s[j] == Some(x)); } else { assert(s[s.len() - 1] == Some(x)); } }
    if s.contains(Some(x)) { let j = choose|j: int| 0 <= j < s.len() && s[j] == Some(x); if j < p.len() { assert(p[j] == Some(x)); let k = choose|k: int| 0 <= k < flat(p).len() && flat(p)[k] == x; assert(flat(s)[k] == x); } else { assert(flat(s)[flat(p).len() as int] == x); } } } }
pub open spec fn at<T>(s: Seq<Option<T>>, k: int) -> Option<T> { if k < s.len() { s[k] } else { None } }
pub open spec fn one<T>(s: Seq<Option<T>>, k: int) -> nat { if at(s, k) is Some { 1 } else { 0 } }
/// the flattened form of up to seven options
pub broadcast proof fn flat_few<T>(s: Seq<Option<T>>) requires s.len() <= 7
  ensures #![trigger flat(s)] flat(s).len() == one(s, 0) + one(s, 1) + one(s, 2) + one(s, 3) + one(s, 4) + one(s, 5) + one(s, 6), forall|x: T| #[trigger] flat(s).contains(x) <==> at(s, 0) == Some(x) || at(s, 1) == Some(x) || at(s, 2) == Some(x) || at(s, 3) == Some(x) || at(s, 4) == Some(x) || at(s, 5) == Some(x) || at(s, 6) == Some(x), flat(s).len() == 1 ==> (at(s, 0) is Some ==> flat(s)[0] == at(s, 0)->Some_0) && (at(s, 1) is Some ==> flat(s)[0] == at(s, 1)->Some_0) && (at(s, 2) is Some ==> flat(s)[0] == at(s, 2)->Some_0) && (at(s, 3) is Some ==> flat(s)[0] == at(s, 3)->Some_0) && (at(s, 4) is Some ==> flat(s)[0] == at(s, 4)->Some_0) && (at(s, 5) is Some ==> flat(s)[0] == at(s, 5)->Some_0) && (at(s, 6) is Some ==> flat(s)[0] == at(s, 6)->Some_0)
{
  flat_len(s);
  assert forall|x: T| #[trigger] flat(s).contains(x) <==> (at(s, 0) == Some(x) || at(s, 1) == Some(x) || at(s, 2) == Some(x) || at(s, 3) == Some(x) || at(s, 4) == Some(x) || at(s, 5) == Some(x) || at(s, 6) == Some(x)) by { flat_in(s, x); if s.contains(Some(x)) { let k = choose|k: int| 0 <= k < s.len() && s[k] == Some(x); assert(at(s, k) == Some(x)); } if at(s, 0) == Some(x) { assert(s[0] == Some(x)); } if at(s, 1) == Some(x) { assert(s[1] == Some(x)); } if at(s, 2) == Some(x) { assert(s[2] == Some(x)); } if at(s, 3) == Some(x) { assert(s[3] == Some(x)); } if at(s, 4) == Some(x) { assert(s[4] == Some(x)); } if at(s, 5) == Some(x) { assert(s[5] == Some(x)); } if at(s, 6) == Some(x) { assert(s[6] == Some(x)); } }
  if flat(s).len() == 1 { if at(s, 0) is Some { let x = at(s, 0)->Some_0; assert(flat(s).contains(x)); let j = choose|j: int| 0 <= j < flat(s).len() && flat(s)[j] == x; assert(j == 0); } if at(s, 1) is Some { let x = at(s, 1)->Some_0; assert(flat(s).contains(x)); let j = choose|j: int| 0 <= j < flat(s).len() && flat(s)[j] == x; assert(j == 0); } if at(s, 2) is Some { let x = at(s, 2)->Some_0; assert(flat(s).contains(x)); let j = choose|j: int| 0 <= j < flat(s).len() && flat(s)[j] == x; assert(j == 0); } if at(s, 3) is Some { let x = at(s, 3)->Some_0; assert(flat(s).contains(x)); let j = choose|j: int| 0 <= j < flat(s).len() && flat(s)[j] == x; assert(j == 0); } if at(s, 4) is Some { let x = at(s, 4)->Some_0; assert(flat(s).contains(x)); let j = choose|j: int| 0 <= j < flat(s).len() && flat(s)[j] == x; assert(j == 0); } if at(s, 5) is Some { let x = at(s, 5)->Some_0; assert(flat(s).contains(x)); let j = choose|j: int| 0 <= j < flat(s).len() && flat(s)[j] == x; assert(j == 0); } if at(s, 6) is Some { let x = at(s, 6)->Some_0; assert(flat(s).contains(x)); let j = choose|j: int| 0 <= j < flat(s).len() && flat(s)[j] == x; assert(j == 0); } }
}
pub proof fn flat_len<T>(s: Seq<Option<T>>) requires s.len() <= 7 ensures flat(s).len() == one(s, 0) + one(s, 1) + one(s, 2) + one(s, 3) + one(s, 4) + one(s, 5) + one(s, 6) decreases s.len()
{ if s.len() > 0 { let p = s.drop_last(); flat_len(p); } }
pub trait VBool { fn vp_then_some<T>(self, t: T) -> (r: Option<T>) ensures r == if self.bl() { Some(t) } else { None }; spec fn bl(self) -> bool; }
impl VBool for bool { open spec fn bl(self) -> bool { self } #[verifier::external_body] fn vp_then_some<T>(self, t: T) -> (r: Option<T>) { unimplemented!() } }
pub trait VInto<T>: Sized { fn vp_into(self) -> (r: T) ensures self.becomes(r); spec fn becomes(self, r: T) -> bool; }
/// iteration over the elements
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VIter<T>(T);
impl<T> VIter<T> { pub uninterp spec fn all(&self) -> Seq<T>;
  #[verifier::external_body] pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>) requires forall|i: int| 0 <= i < self.all().len() ==> #[trigger] f.requires((self.all()[i],)),
    ensures r.all().len() == self.all().len(), forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> f.ensures((self.all()[i],), r.all()[i]) { unimplemented!() }
  #[verifier::external_body] pub fn collect<C: VFrom<T>>(self) -> (r: C) ensures C::made(self.all(), r) { unimplemented!() }
}
impl<T> VIter<Option<T>> { #[verifier::external_body] pub fn flatten(self) -> (r: VIter<T>) ensures r.all() == flat(self.all()) { unimplemented!() } }
pub trait VIntoIter<T>: Sized { spec fn got(self, s: Seq<T>) -> bool; fn vp_into_iter(self) -> (r: VIter<T>) ensures self.got(r.all()); }
impl<T> VIntoIter<T> for Option<T> { open spec fn got(self, s: Seq<T>) -> bool { s == match self { Some(x) => seq![x], None => Seq::<T>::empty() } } #[verifier::external_body] fn vp_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<T> VIntoIter<T> for Vec<T> { open spec fn got(self, s: Seq<T>) -> bool { s == self@ } #[verifier::external_body] fn vp_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<T, const N: usize> VIntoIter<T> for [T; N] { open spec fn got(self, s: Seq<T>) -> bool { s == self@ && s.len() == N && '''+' && '.join(f'(N > {k} ==> s[{k}] == self[{k}])' for k in range(7))+r''' } #[verifier::external_body] fn vp_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<'a, T> VIter<&'a T> { #[verifier::external_body] pub fn cloned(self) -> (r: VIter<T>) ensures r.all().len() == self.all().len(), forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == *self.all()[i] { unimplemented!() } }
pub trait VFrom<T>: Sized { spec fn made(s: Seq<T>, r: Self) -> bool; }
impl<T> VFrom<T> for Vec<T> { open spec fn made(s: Seq<T>, r: Self) -> bool { r@ == s } }
pub trait VIterate<'a, T> { fn vp_iter(&'a self) -> (r: VIter<T>) ensures self.each(r.all()); spec fn each(&'a self, s: Seq<T>) -> bool; }
impl<'a, T> VIterate<'a, &'a T> for Vec<T> { open spec fn each(&'a self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| #![trigger s[i]] #![trigger self@[i]] 0 <= i < s.len() ==> *s[i] == self@[i] } #[verifier::external_body] fn vp_iter(&'a self) -> (r: VIter<&'a T>) { unimplemented!() } }
}
pub use vx::*;
pub mod serde_json { use vstd::prelude::*;
  #[verifier::external_body] pub struct Number { n: u8 }
  pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(u64) }
  pub uninterp spec fn num_i(v: i64) -> Number;
  pub uninterp spec fn num_f(v: f64) -> Number;
  impl Number {
    #[verifier::external_body] pub fn from(v: i64) -> (r: Number) ensures r == num_i(v) { unimplemented!() }
    #[verifier::external_body] pub fn from_f64(v: f64) -> (r: Option<Number>) ensures r == Some(num_f(v)) { unimplemented!() }
  }
  #[verifier::external_body] pub fn vp_is_null(v: &Value) -> (r: bool) ensures r == (v is Null) { unimplemented!() }
}
pub use serde_json::Value;
/// the map of the document model
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct IndexMap<K, V>(K, V);
impl<V> IndexMap<String, V> { pub uninterp spec fn ents(&self) -> Seq<(String, V)>;
  pub open spec fn distinct(&self) -> bool { all_distinct(self.ents()) }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.ents().len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn vp_iter<'a>(&'a self) -> (r: VIter<(&'a String, &'a V)>) ensures r.all().len() == self.ents().len(), self.distinct(), forall|i: int| #![trigger r.all()[i]] #![trigger self.ents()[i]] 0 <= i < r.all().len() ==> *r.all()[i].0 == self.ents()[i].0 && *r.all()[i].1 == self.ents()[i].1 { unimplemented!() }
}
#[verifier::opaque] pub open spec fn all_distinct<V>(s: Seq<(String, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].0@ != #[trigger] s[j].0@ }
/// the map of the internal model has exactly these entries
#[verifier::opaque] pub open spec fn entries<V>(s: Seq<(String, V)>, r: schemars::Map<String, V>) -> bool {
  (forall|k: Seq<char>| #[trigger] r.m().contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k) && (forall|i: int| 0 <= i < s.len() ==> r.m().contains_key((#[trigger] s[i]).0@) && r.m()[s[i].0@] == s[i].1) }
impl<V> VIntoIter<(String, V)> for IndexMap<String, V> { open spec fn got(self, s: Seq<(String, V)>) -> bool { s == self.ents() && self.distinct() } #[verifier::external_body] fn vp_into_iter(self) -> (r: VIter<(String, V)>) { unimplemented!() } }
impl<V> VFrom<(String, V)> for schemars::Map<String, V> { open spec fn made(s: Seq<(String, V)>, r: Self) -> bool { all_distinct(s) ==> entries(s, r) } }
impl VFrom<String> for schemars::Set<String> { open spec fn made(s: Seq<String>, r: Self) -> bool { forall|k: Seq<char>| #[trigger] r.m().contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k } }
pub mod openapiv3 { use vstd::prelude::*; use super::{IndexMap, Value, VClone};
  pub enum ReferenceOr<T> { Reference { reference: String }, Item(T) }
  impl<T> ReferenceOr<Box<T>> { pub open spec fn s_unbox(self) -> ReferenceOr<T> { match self { ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference }, ReferenceOr::Item(b) => ReferenceOr::Item(*b) } }
    #[verifier::external_body] pub fn unbox(self) -> (r: ReferenceOr<T>) ensures r == self.s_unbox() { unimplemented!() } }
  pub struct Discriminator { pub n: u8 } pub struct ExternalDocumentation { pub n: u8 }
  pub struct SchemaData { pub nullable: bool, pub read_only: bool, pub write_only: bool, pub deprecated: bool, pub external_docs: Option<ExternalDocumentation>, pub example: Option<Value>, pub title: Option<String>, pub description: Option<String>, pub discriminator: Option<Discriminator>, pub default: Option<Value>, pub extensions: IndexMap<String, Value> }
  pub struct Schema { pub schema_data: SchemaData, pub schema_kind: SchemaKind }
  impl Clone for Schema { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
  pub enum SchemaKind { Type(Type), OneOf { one_of: Vec<ReferenceOr<Schema>> }, AllOf { all_of: Vec<ReferenceOr<Schema>> }, AnyOf { any_of: Vec<ReferenceOr<Schema>> }, Not { not: Box<ReferenceOr<Schema>> }, Any(AnySchema) }
  pub enum Type { String(StringType), Number(NumberType), Integer(IntegerType), Object(ObjectType), Array(ArrayType), Boolean(BooleanType) }
  pub enum AdditionalProperties { Any(bool), Schema(Box<ReferenceOr<Schema>>) }
  pub struct AnySchema { pub typ: Option<String>, pub pattern: Option<String>, pub multiple_of: Option<f64>, pub exclusive_minimum: Option<bool>, pub exclusive_maximum: Option<bool>, pub minimum: Option<f64>, pub maximum: Option<f64>, pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>, pub required: Vec<String>, pub additional_properties: Option<AdditionalProperties>, pub min_properties: Option<usize>, pub max_properties: Option<usize>, pub items: Option<ReferenceOr<Box<Schema>>>, pub min_items: Option<usize>, pub max_items: Option<usize>, pub unique_items: Option<bool>, pub enumeration: Vec<Value>, pub format: Option<String>, pub min_length: Option<usize>, pub max_length: Option<usize>, pub one_of: Vec<ReferenceOr<Schema>>, pub all_of: Vec<ReferenceOr<Schema>>, pub any_of: Vec<ReferenceOr<Schema>>, pub not: Option<Box<ReferenceOr<Schema>>> }
  pub enum VariantOrUnknownOrEmpty<T> { Item(T), Unknown(String), Empty }
  pub enum StringFormat { Date, DateTime, Password, Byte, Binary }
  pub enum NumberFormat { Float, Double }
  pub enum IntegerFormat { Int32, Int64 }
  pub struct StringType { pub format: VariantOrUnknownOrEmpty<StringFormat>, pub pattern: Option<String>, pub enumeration: Vec<Option<String>>, pub min_length: Option<usize>, pub max_length: Option<usize> }
  pub struct NumberType { pub format: VariantOrUnknownOrEmpty<NumberFormat>, pub multiple_of: Option<f64>, pub exclusive_minimum: bool, pub exclusive_maximum: bool, pub minimum: Option<f64>, pub maximum: Option<f64>, pub enumeration: Vec<Option<f64>> }
  pub struct IntegerType { pub format: VariantOrUnknownOrEmpty<IntegerFormat>, pub multiple_of: Option<i64>, pub exclusive_minimum: bool, pub exclusive_maximum: bool, pub minimum: Option<i64>, pub maximum: Option<i64>, pub enumeration: Vec<Option<i64>> }
  pub struct ObjectType { pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>, pub required: Vec<String>, pub additional_properties: Option<AdditionalProperties>, pub min_properties: Option<usize>, pub max_properties: Option<usize> }
  pub struct ArrayType { pub items: Option<ReferenceOr<Box<Schema>>>, pub min_items: Option<usize>, pub max_items: Option<usize>, pub unique_items: bool }
  pub struct BooleanType { pub enumeration: Vec<Option<bool>> }
}
pub use openapiv3::AnySchema;
'''

GROUPS = dict(
    metadata=('Metadata', [('id', 'Option<String>'), ('title', 'Option<String>'), ('description', 'Option<String>'), ('default', 'Option<Value>'), ('deprecated', 'bool'), ('read_only', 'bool'), ('write_only', 'bool'), ('examples', 'Vec<Value>')]),
    subschemas=('SubschemaValidation', [('all_of', 'Option<Vec<Schema>>'), ('any_of', 'Option<Vec<Schema>>'), ('one_of', 'Option<Vec<Schema>>'), ('not', 'Option<Box<Schema>>'), ('if_schema', 'Option<Box<Schema>>'), ('then_schema', 'Option<Box<Schema>>'), ('else_schema', 'Option<Box<Schema>>')]),
    number=('NumberValidation', [(n, 'Option<f64>') for n in ('multiple_of', 'maximum', 'exclusive_maximum', 'minimum', 'exclusive_minimum')]),
    string=('StringValidation', [('max_length', 'Option<u32>'), ('min_length', 'Option<u32>'), ('pattern', 'Option<String>')]),
    array=('ArrayValidation', [('items', 'Option<SingleOrVec<Schema>>'), ('additional_items', 'Option<Box<Schema>>'), ('max_items', 'Option<u32>'), ('min_items', 'Option<u32>'), ('unique_items', 'Option<bool>'), ('contains', 'Option<Box<Schema>>')]),
    object=('ObjectValidation', [('max_properties', 'Option<u32>'), ('min_properties', 'Option<u32>'), ('required', 'Set<String>'), ('properties', 'Map<String, Schema>'), ('pattern_properties', 'Map<String, Schema>'), ('additional_properties', 'Option<Box<Schema>>'), ('property_names', 'Option<Box<Schema>>')]))


def empty(f, ty):
    return f'{f} is None' if ty.startswith('Option') else f'!{f}' if ty == 'bool' else f'{f}@.len() == 0' if ty.startswith('Vec') else f'{f}.none()'


def empty_of(g):
    return f'empty_{g}()'


def schemars():
    o = r'''
pub mod schemars { use vstd::prelude::*;
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct Map<K, V>(K, V);
impl<K, V> Map<K, V> { pub uninterp spec fn m(&self) -> vstd::map::Map<Seq<char>, V>; #[verifier::opaque] pub open spec fn none(&self) -> bool { forall|k: Seq<char>| !#[trigger] self.m().contains_key(k) } }
impl<K, V> Default for Map<K, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r.none() { unimplemented!() } }
#[verifier::external_body] #[verifier::accept_recursive_types(K)] pub struct Set<K>(K);
impl<K> Set<K> { pub uninterp spec fn m(&self) -> vstd::set::Set<Seq<char>>; #[verifier::opaque] pub open spec fn none(&self) -> bool { forall|k: Seq<char>| !#[trigger] self.m().contains(k) } }
impl<K> Default for Set<K> { #[verifier::external_body] fn default() -> (r: Self) ensures r.none() { unimplemented!() } }
pub mod schema { use vstd::prelude::*; use super::{Map, Set}; use crate::{Value, VInto};
pub enum Schema { Bool(bool), Object(SchemaObject) }
#[derive(Clone, Copy)]
pub enum InstanceType { Null, Boolean, Object, Array, Number, String, Integer }
impl PartialEq for InstanceType { #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) ensures r == (*self == *other) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for InstanceType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }
pub enum SingleOrVec<T> { Single(Box<T>), Vec(Vec<T>) }
impl VInto<Schema> for SchemaObject { open spec fn becomes(self, r: Schema) -> bool { r == Schema::Object(self) } #[verifier::external_body] fn vp_into(self) -> Schema { unimplemented!() } }
impl VInto<SingleOrVec<InstanceType>> for InstanceType { open spec fn becomes(self, r: SingleOrVec<InstanceType>) -> bool { r matches SingleOrVec::Single(b) && *b == self } #[verifier::external_body] fn vp_into(self) -> SingleOrVec<InstanceType> { unimplemented!() } }
impl VInto<SingleOrVec<InstanceType>> for Vec<InstanceType> { open spec fn becomes(self, r: SingleOrVec<InstanceType>) -> bool { r == SingleOrVec::Vec(self) } #[verifier::external_body] fn vp_into(self) -> SingleOrVec<InstanceType> { unimplemented!() } }
pub trait VDef { spec fn isdef(&self) -> bool; fn vp_isdef(&self) -> (r: bool) ensures r == self.isdef(); }
impl<T: VDef> VDef for Box<T> { open spec fn isdef(&self) -> bool { (**self).isdef() } #[verifier::external_body] fn vp_isdef(&self) -> (r: bool) { unimplemented!() } }
pub struct SchemaObject { pub metadata: Option<Box<Metadata>>, pub instance_type: Option<SingleOrVec<InstanceType>>, pub format: Option<String>, pub enum_values: Option<Vec<Value>>, pub const_value: Option<Value>, pub subschemas: Option<Box<SubschemaValidation>>, pub number: Option<Box<NumberValidation>>, pub string: Option<Box<StringValidation>>, pub array: Option<Box<ArrayValidation>>, pub object: Option<Box<ObjectValidation>>, pub reference: Option<String>, pub extensions: Map<String, Value> }
impl Default for SchemaObject { #[verifier::external_body] fn default() -> (r: Self) ensures r.nothing(), r.extensions.none(), r.metadata is None { unimplemented!() } }
'''
    acc, sets = '', ''
    for g, (ty, fl) in GROUPS.items():
        o += f'pub struct {ty} {{ ' + ', '.join(f'pub {f}: {t}' for f, t in fl) + ' }\n'
        d = ' && '.join(empty('self.' + f, t) for f, t in fl)
        o += f'impl VDef for {ty} {{ open spec fn isdef(&self) -> bool {{ {d} }} #[verifier::external_body] fn vp_isdef(&self) -> (r: bool) {{ unimplemented!() }} }}\n'
        o += f'impl Default for {ty} {{ #[verifier::external_body] fn default() -> (r: Self) ensures r.isdef() {{ unimplemented!() }} }}\n'
        acc += f'  pub open spec fn no_{g}(self) -> bool {{ self.{g} is None || self.{g}->Some_0.isdef() }}\n'
        for f, t in fl:
            if t.startswith('Option'):
                acc += f'  pub open spec fn {g}_{f}(self) -> {t} {{ match self.{g} {{ Some(v) => v.{f}, None => None }} }}\n'
            sets += f'  #[verifier::external_body] pub fn vp_set_{g}_{f}(&mut self, v: {t}) ensures *final(self) == (SchemaObject {{ {g}: Some(Box::new({ty} {{ {f}: v, ..or_{g}(old(self).{g}) }})), ..*old(self) }}), ({empty_of(g)}).isdef() {{ unimplemented!() }}\n'
        o += f'pub uninterp spec fn empty_{g}() -> {ty};\npub open spec fn or_{g}(o: Option<Box<{ty}>>) -> {ty} {{ match o {{ Some(b) => *b, None => empty_{g}() }} }}\n'
    o += ('impl SchemaObject {\n' + acc + sets +
          '  pub open spec fn new_ref_spec(r: Seq<char>, o: SchemaObject) -> bool { o.nothing_but_ref() && o.metadata is None && o.extensions.none() && o.reference is Some && o.reference->Some_0@ == r }\n'
          '  #[verifier::external_body] pub fn new_ref(reference: String) -> (r: Self) ensures Self::new_ref_spec(reference@, r) { unimplemented!() }\n'
          '  pub open spec fn nothing_but_ref(self) -> bool { self.instance_type is None && self.format is None && self.enum_values is None && self.const_value is None && self.no_subschemas() && self.no_number() && self.no_string() && self.no_array() && self.no_object() }\n'
          '  pub open spec fn nothing(self) -> bool { self.metadata is None && self.instance_type is None && self.format is None && self.enum_values is None && self.const_value is None && self.subschemas is None && self.number is None && self.string is None && self.array is None && self.object is None && self.reference is None }\n'
          '}\n} }\n')
    return o


SO = ['metadata', 'instance_type', 'format', 'enum_values', 'const_value', 'subschemas', 'number', 'string', 'array', 'object', 'reference', 'extensions']

LAYER = r'''
pub use schemars::schema::{SchemaObject, InstanceType, SingleOrVec, Schema as S, VDef};
pub mod lx { use vstd::prelude::*; use super::*;
/// a document schema converts to an internal one: the relation `layer` defines, one level at a time (the contract of its body)
pub uninterp spec fn sconv(s: openapiv3::Schema, r: S) -> bool;
pub open spec fn rconv(s: openapiv3::ReferenceOr<openapiv3::Schema>, r: S) -> bool { match s {
  openapiv3::ReferenceOr::Reference { reference } => r matches S::Object(o) && SchemaObject::new_ref_spec(reference@, o),
  openapiv3::ReferenceOr::Item(i) => sconv(i, r) } }
/// element by element
#[verifier::opaque] pub open spec fn convs<I: Convert<T>, T>(s: Seq<I>, r: Seq<T>) -> bool { s.len() == r.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).conv(r[i]) }
pub open spec fn each(s: Seq<openapiv3::ReferenceOr<openapiv3::Schema>>, r: Seq<S>) -> bool { convs(s, r) }
pub open spec fn oeach(s: Seq<openapiv3::ReferenceOr<openapiv3::Schema>>, r: Option<Vec<S>>) -> bool { match r { Some(v) => each(s, v@), None => s.len() == 0 } }
/// the type, together with null where the schema is nullable
pub open spec fn typed(o: SchemaObject, t: InstanceType, nullable: bool) -> bool {
  if nullable { o.instance_type matches Some(SingleOrVec::Vec(v)) && v@ =~= seq![t, InstanceType::Null] } else { single(o, t) } }
pub open spec fn single(o: SchemaObject, t: InstanceType) -> bool { o.instance_type matches Some(SingleOrVec::Single(b)) && *b == t }
pub open spec fn about(d: openapiv3::SchemaData, o: SchemaObject) -> bool { describes(d, o.metadata, o.extensions) }
#[verifier::opaque] pub open spec fn describes(d: openapiv3::SchemaData, meta: Option<Box<schemars::schema::Metadata>>, ext: schemars::Map<String, Value>) -> bool {
  entries(d.extensions.ents(), ext) && match meta {
    None => d.title is None && d.description is None && d.default is None && !d.deprecated && !d.read_only && !d.write_only && d.example is None,
    Some(m) => m.id is None && m.title == d.title && m.description == d.description && m.default == d.default && m.deprecated == d.deprecated && m.read_only == d.read_only && m.write_only == d.write_only && match d.example { Some(x) => m.examples@ == seq![x], None => m.examples@.len() == 0 } } }
pub open spec fn texts(o: SchemaObject, pattern: Option<String>, min: Option<usize>, max: Option<usize>) -> bool {
  o.string_pattern() == pattern && o.string_min_length() == osat(min) && o.string_max_length() == osat(max) }
pub open spec fn bound<T>(v: Option<T>, exclusive: bool) -> (Option<T>, Option<T>) { if exclusive { (None, v) } else { (v, None) } }
pub open spec fn ofl(v: Option<i64>) -> Option<f64> { match v { Some(v) => Some(fl(v)), None => None } }
pub open spec fn numbers(o: SchemaObject, mult: Option<f64>, min: Option<f64>, xmin: bool, max: Option<f64>, xmax: bool) -> bool {
  o.number_multiple_of() == mult && (o.number_minimum(), o.number_exclusive_minimum()) == bound(min, xmin) && (o.number_maximum(), o.number_exclusive_maximum()) == bound(max, xmax) }
#[verifier::opaque] pub open spec fn propconv(s: Seq<(String, openapiv3::ReferenceOr<Box<openapiv3::Schema>>)>, r: schemars::Map<String, S>) -> bool {
  (forall|k: Seq<char>| #[trigger] r.m().contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k) && (forall|i: int| 0 <= i < s.len() ==> r.m().contains_key((#[trigger] s[i]).0@) && rconv(s[i].1.s_unbox(), r.m()[s[i].0@])) }
#[verifier::opaque] pub open spec fn reqconv(s: Seq<String>, r: schemars::Set<String>) -> bool { forall|k: Seq<char>| #[trigger] r.m().contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k }
pub open spec fn addconv(s: openapiv3::AdditionalProperties, r: S) -> bool { match s { openapiv3::AdditionalProperties::Any(b) => r == S::Bool(b), openapiv3::AdditionalProperties::Schema(x) => rconv(*x, r) } }
pub open spec fn objects(o: SchemaObject, p: IndexMap<String, openapiv3::ReferenceOr<Box<openapiv3::Schema>>>, req: Vec<String>, add: Option<openapiv3::AdditionalProperties>, min: Option<usize>, max: Option<usize>) -> bool {
  o.object_min_properties() == osat(min) && o.object_max_properties() == osat(max) && o.object_property_names() is None
  && (match (add, o.object_additional_properties()) { (None, None) => true, (Some(a), Some(r)) => addconv(a, *r), _ => false })
  && match o.object { Some(v) => propconv(p.ents(), v.properties) && reqconv(req@, v.required) && v.pattern_properties.none(), None => p.ents().len() == 0 && req@.len() == 0 } }
pub open spec fn arrays(o: SchemaObject, items: Option<openapiv3::ReferenceOr<Box<openapiv3::Schema>>>, min: Option<usize>, max: Option<usize>, unique: bool) -> bool {
  o.array_min_items() == osat(min) && o.array_max_items() == osat(max) && o.array_additional_items() is None && o.array_contains() is None && (o.array_unique_items() == Some(true)) == unique
  && match (items, o.array_items()) { (None, None) => true, (Some(i), Some(SingleOrVec::Single(r))) => rconv(i.s_unbox(), *r), _ => false } }
pub open spec fn subs(o: SchemaObject, one: Seq<openapiv3::ReferenceOr<openapiv3::Schema>>, all: Seq<openapiv3::ReferenceOr<openapiv3::Schema>>, any: Seq<openapiv3::ReferenceOr<openapiv3::Schema>>, not: Option<openapiv3::ReferenceOr<openapiv3::Schema>>) -> bool {
  oeach(one, o.subschemas_one_of()) && oeach(all, o.subschemas_all_of()) && oeach(any, o.subschemas_any_of()) && o.subschemas_if_schema() is None && o.subschemas_then_schema() is None && o.subschemas_else_schema() is None
  && match (not, o.subschemas_not()) { (None, None) => true, (Some(n), Some(r)) => rconv(n, *r), _ => false } }
/// a nullable schema without a type: null, or what the schema says
pub open spec fn wraps(r: SchemaObject, s: SchemaObject) -> bool {
  r.metadata == s.metadata && r.extensions == s.extensions && r.instance_type is None && r.format is None && r.enum_values is None && r.const_value is None && r.reference is None
  && r.no_number() && r.no_string() && r.no_array() && r.no_object()
  && r.subschemas_all_of() is None && r.subschemas_any_of() is None && r.subschemas_not() is None && r.subschemas_if_schema() is None && r.subschemas_then_schema() is None && r.subschemas_else_schema() is None
  && r.subschemas_one_of() is Some && r.subschemas_one_of()->Some_0@.len() == 2
  && (r.subschemas_one_of()->Some_0@[0] matches S::Object(n) && single(n, InstanceType::Null) && only_type(n))
  && (r.subschemas_one_of()->Some_0@[1] matches S::Object(i) && i.metadata is None && i.extensions.none() && i == SchemaObject { metadata: i.metadata, extensions: i.extensions, ..s }) }
pub open spec fn only_type(n: SchemaObject) -> bool { SchemaObject { instance_type: None, ..n }.nothing() && n.extensions.none() }
pub open spec fn wrapped(r: SchemaObject, s: SchemaObject, nullable: bool) -> bool { if nullable { wraps(r, s) } else { r == s } }
pub open spec fn formconv<T: Convert<String>>(f: openapiv3::VariantOrUnknownOrEmpty<T>, r: Option<String>) -> bool { match f {
  openapiv3::VariantOrUnknownOrEmpty::Item(i) => r is Some && i.conv(r->Some_0), openapiv3::VariantOrUnknownOrEmpty::Unknown(s) => r == Some(s), openapiv3::VariantOrUnknownOrEmpty::Empty => r is None } }
pub open spec fn enumconv<T: Convert<Value>>(s: Seq<T>, r: Option<Vec<Value>>) -> bool { match r { None => s.len() == 0, Some(v) => s.len() > 0 && convs(s, v@) } }
/// the contents of a schema without a type object: those of `any`
pub open spec fn contents(a: AnySchema, o: SchemaObject) -> bool {
  o.format == a.format && o.const_value is None && o.reference is None
  && (match o.enum_values { None => a.enumeration@.len() == 0, Some(v) => a.enumeration@.len() > 0 && v == a.enumeration })
  && texts(o, a.pattern, a.min_length, a.max_length)
  && numbers(o, a.multiple_of, a.minimum, a.exclusive_minimum == Some(true), a.maximum, a.exclusive_maximum == Some(true))
  && objects(o, a.properties, a.required, a.additional_properties, a.min_properties, a.max_properties)
  && arrays(o, a.items, a.min_items, a.max_items, a.unique_items == Some(true))
  && subs(o, a.one_of@, a.all_of@, a.any_of@, match a.not { Some(n) => Some(*n), None => None }) }
pub open spec fn has_text(a: AnySchema) -> bool { a.pattern is Some || a.min_length is Some || a.max_length is Some }
pub open spec fn has_number(a: AnySchema) -> bool { a.multiple_of is Some || a.minimum is Some || a.maximum is Some }
pub open spec fn has_object(a: AnySchema) -> bool { a.properties.ents().len() > 0 || a.required@.len() > 0 || a.additional_properties is Some || a.min_properties is Some || a.max_properties is Some }
pub open spec fn has_array(a: AnySchema) -> bool { a.items is Some || a.min_items is Some || a.max_items is Some || a.unique_items is Some }
pub open spec fn has_subs(a: AnySchema) -> bool { a.one_of@.len() > 0 || a.all_of@.len() > 0 || a.any_of@.len() > 0 || a.not is Some }
pub open spec fn speaks(a: AnySchema) -> bool { has_text(a) || has_number(a) || has_object(a) || has_array(a) }
pub open spec fn bare(a: AnySchema) -> bool { !has_text(a) && !has_number(a) && !has_object(a) && !has_array(a) && !has_subs(a) && a.format is None && a.typ is None && a.exclusive_minimum is None && a.exclusive_maximum is None }
/// the types the constraints of a nullable schema without a type speak of
pub open spec fn inferred(a: AnySchema, o: SchemaObject) -> bool { forall|t: InstanceType| #[trigger] typelist(o).contains(t) <==> match t {
  InstanceType::Null => true, InstanceType::String => has_text(a), InstanceType::Number => has_number(a), InstanceType::Object => has_object(a), InstanceType::Array => has_array(a), _ => false } }
pub open spec fn typelist(o: SchemaObject) -> Seq<InstanceType> { match o.instance_type { Some(SingleOrVec::Vec(v)) => v@, Some(SingleOrVec::Single(b)) => seq![*b], None => Seq::empty() } }
pub open spec fn nulls(a: AnySchema) -> bool { bare(a) && a.enumeration@.len() == 1 && a.enumeration@[0] is Null }
pub open spec fn named(t: Seq<char>) -> Option<InstanceType> {
  if t == "boolean"@ { Some(InstanceType::Boolean) } else if t == "object"@ { Some(InstanceType::Object) } else if t == "array"@ { Some(InstanceType::Array) } else if t == "number"@ { Some(InstanceType::Number) }
  else if t == "string"@ { Some(InstanceType::String) } else if t == "integer"@ { Some(InstanceType::Integer) } else { None } }
/// what the conversion accepts
pub open spec fn accepted(s: openapiv3::Schema) -> bool { match s.schema_kind {
  openapiv3::SchemaKind::Any(a) => (a.exclusive_minimum == Some(true) ==> a.minimum is Some) && (a.exclusive_maximum == Some(true) ==> a.maximum is Some) && (a.typ is Some ==> named(a.typ->Some_0@) is Some),
  _ => true } }
/// what wrapping leaves of a schema
pub open spec fn inner(o: SchemaObject, wrap: bool) -> SchemaObject { if wrap { o.subschemas_one_of()->Some_0@[1]->Object_0 } else { o } }
pub open spec fn combined(o: SchemaObject, n: bool) -> bool { let i = inner(o, n);
  (n ==> wraps(o, SchemaObject { metadata: o.metadata, extensions: o.extensions, ..i })) && i.instance_type is None && i.format is None && i.enum_values is None && i.const_value is None && i.reference is None && i.no_string() && i.no_number() && i.no_object() && i.no_array() }
pub trait Convert<T> { spec fn conv(&self, r: T) -> bool; fn convert(&self) -> (r: T) ensures self.conv(r); }
/// the bodies of the conversions: each verified against what callers assume of it
pub trait ToSchema { spec fn sc(&self, r: S) -> bool; fn to_schema(&self) -> (r: schemars::schema::Schema) ensures self.sc(r); }
pub broadcast proof fn no_props(s: Seq<(String, openapiv3::ReferenceOr<Box<openapiv3::Schema>>)>, r: schemars::Map<String, S>) requires r.none() ensures #[trigger] propconv(s, r) == (s.len() == 0) {
  reveal(propconv); reveal(schemars::Map::none); if s.len() > 0 && propconv(s, r) { assert(r.m().contains_key(s[0].0@)); } }
pub broadcast proof fn no_reqs(s: Seq<String>, r: schemars::Set<String>) requires r.none() ensures #[trigger] reqconv(s, r) == (s.len() == 0) {
  reveal(reqconv); reveal(schemars::Set::none); if s.len() > 0 && reqconv(s, r) { assert(r.m().contains(s[0]@)); } }
pub trait OptionReduce: Sized { spec fn red(self, r: Self) -> bool; fn reduce(self) -> (r: Self) ensures self.red(r); }
impl<T: VDef> OptionReduce for Option<T> { open spec fn red(self, r: Self) -> bool { reduced(self, r) } #[verifier::external_body] fn reduce(self) -> (r: Self) { unimplemented!() } }
pub open spec fn reduced<T: VDef>(s: Option<T>, r: Option<T>) -> bool { if s is Some && !s->Some_0.isdef() { r == s } else { r is None } }
} // lx
pub use lx::*;
pub trait ReduceBody: Sized { spec fn red2(self, r: Self) -> bool; fn reduce_body(self) -> (r: Self) ensures self.red2(r); }
'''

K = 'openapiv3::SchemaKind::'
N = 'openapiv3::SchemaKind::Type(openapiv3::Type::'
E0 = 'Seq::<openapiv3::ReferenceOr<openapiv3::Schema>>::empty()'
no = lambda *gs: ' && '.join(f'r->Object_0.no_{g}()' for g in gs)
# one level of a schema, kind by kind
LEVELS = [
    ('G16.metadata', 'r is Object && about(self.schema_data, r->Object_0) && r->Object_0.reference is None && r->Object_0.const_value is None'),
    ('G16.string', f'self.schema_kind matches {N}String(t)) ==> typed(r->Object_0, InstanceType::String, self.schema_data.nullable) && formconv(t.format, r->Object_0.format) && enumconv(t.enumeration@, r->Object_0.enum_values) && texts(r->Object_0, t.pattern, t.min_length, t.max_length) && {no("number", "object", "array", "subschemas")}'),
    ('G16.number', f'self.schema_kind matches {N}Number(t)) ==> typed(r->Object_0, InstanceType::Number, self.schema_data.nullable) && formconv(t.format, r->Object_0.format) && enumconv(t.enumeration@, r->Object_0.enum_values) && numbers(r->Object_0, t.multiple_of, t.minimum, t.exclusive_minimum, t.maximum, t.exclusive_maximum) && {no("string", "object", "array", "subschemas")}'),
    ('G16.integer', f'self.schema_kind matches {N}Integer(t)) ==> typed(r->Object_0, InstanceType::Integer, self.schema_data.nullable) && formconv(t.format, r->Object_0.format) && enumconv(t.enumeration@, r->Object_0.enum_values) && numbers(r->Object_0, ofl(t.multiple_of), ofl(t.minimum), t.exclusive_minimum, ofl(t.maximum), t.exclusive_maximum) && {no("string", "object", "array", "subschemas")}'),
    ('G16.object', f'self.schema_kind matches {N}Object(t)) ==> typed(r->Object_0, InstanceType::Object, self.schema_data.nullable) && r->Object_0.format is None && r->Object_0.enum_values is None && objects(r->Object_0, t.properties, t.required, t.additional_properties, t.min_properties, t.max_properties) && {no("string", "number", "array", "subschemas")}'),
    ('G16.array', f'self.schema_kind matches {N}Array(t)) ==> typed(r->Object_0, InstanceType::Array, self.schema_data.nullable) && r->Object_0.format is None && r->Object_0.enum_values is None && arrays(r->Object_0, t.items, t.min_items, t.max_items, t.unique_items) && {no("string", "number", "object", "subschemas")}'),
    ('G16.boolean', f'self.schema_kind matches {N}Boolean(t)) ==> typed(r->Object_0, InstanceType::Boolean, self.schema_data.nullable) && r->Object_0.format is None && enumconv(t.enumeration@, r->Object_0.enum_values) && {no("string", "number", "object", "array", "subschemas")}'),
    ('G16.one-of', f'self.schema_kind matches {K}OneOf {{ one_of }} ==> combined(r->Object_0, self.schema_data.nullable) && subs(inner(r->Object_0, self.schema_data.nullable), one_of@, {E0}, {E0}, None)'),
    ('G16.all-of', f'self.schema_kind matches {K}AllOf {{ all_of }} ==> combined(r->Object_0, self.schema_data.nullable) && subs(inner(r->Object_0, self.schema_data.nullable), {E0}, all_of@, {E0}, None)'),
    ('G16.any-of', f'self.schema_kind matches {K}AnyOf {{ any_of }} ==> combined(r->Object_0, self.schema_data.nullable) && subs(inner(r->Object_0, self.schema_data.nullable), {E0}, {E0}, any_of@, None)'),
    ('G16.not', f'self.schema_kind matches {K}Not {{ not }} ==> combined(r->Object_0, self.schema_data.nullable) && subs(inner(r->Object_0, self.schema_data.nullable), {E0}, {E0}, {E0}, Some(*not))'),
    ('G16.null', f'self.schema_kind matches {K}Any(a) ==> (nulls(a) ==> single(r->Object_0, InstanceType::Null) && SchemaObject {{ instance_type: None, metadata: None, ..r->Object_0 }}.nothing())'),
    ('G16.any-typed', f'self.schema_kind matches {K}Any(a) ==> (a.typ is Some ==> contents(a, r->Object_0) && typed(r->Object_0, named(a.typ->Some_0@)->Some_0, self.schema_data.nullable))'),
    ('G16.any-untyped', f'self.schema_kind matches {K}Any(a) ==> (a.typ is None && !nulls(a) && (!self.schema_data.nullable || !speaks(a) && !has_subs(a)) ==> contents(a, r->Object_0) && r->Object_0.instance_type is None)'),
    ('G16.any-inferred', f'self.schema_kind matches {K}Any(a) ==> (a.typ is None && self.schema_data.nullable && speaks(a) ==> contents(a, r->Object_0) && inferred(a, r->Object_0))'),
    ('G16.any-wrapped', f'self.schema_kind matches {K}Any(a) ==> (a.typ is None && self.schema_data.nullable && !speaks(a) && has_subs(a) ==> wraps(r->Object_0, SchemaObject {{ metadata: r->Object_0.metadata, extensions: r->Object_0.extensions, ..inner(r->Object_0, true) }}) && contents(a, inner(r->Object_0, true)) && inner(r->Object_0, true).instance_type is None)'),
]
# verified one part at a time
PARTS = [[x for x in LEVELS if not x[0].startswith('G16.any-') or x[0] == 'G16.any-of']] + [[x] for x in LEVELS if x[0].startswith('G16.any-') and x[0] != 'G16.any-of']

# what each conversion does; 'Schema' stands for the converted relation of nested schemas
CONV = {
    ('Convert<Vec<T>>', 'Vec<I>'): 'convs(self@, r@)',
    ('Convert<Option<Vec<T>>>', 'Vec<I>'): 'match r { None => self@.len() == 0, Some(v) => self@.len() > 0 && convs(self@, v@) }',
    ('Convert<S>', 'openapiv3::ReferenceOr<openapiv3::Schema>'): 'rconv(*self, r)',
    ('Convert<TT>', 'openapiv3::ReferenceOr<Box<T>>'): 'self.s_unbox().conv(r)',
    ('Convert<S>', 'openapiv3::Schema'): 'sconv(*self, r)',
    ('Convert<Option<String>>', 'openapiv3::VariantOrUnknownOrEmpty<T>'): 'formconv(*self, r)',
    ('Convert<String>', 'openapiv3::StringFormat'): 'r@ == match *self { openapiv3::StringFormat::Date => "date"@, openapiv3::StringFormat::DateTime => "date-time"@, openapiv3::StringFormat::Password => "password"@, openapiv3::StringFormat::Byte => "byte"@, openapiv3::StringFormat::Binary => "binary"@ }',
    ('Convert<String>', 'openapiv3::NumberFormat'): 'r@ == match *self { openapiv3::NumberFormat::Float => "float"@, openapiv3::NumberFormat::Double => "double"@ }',
    ('Convert<String>', 'openapiv3::IntegerFormat'): 'r@ == match *self { openapiv3::IntegerFormat::Int32 => "int32"@, openapiv3::IntegerFormat::Int64 => "int64"@ }',
    ('Convert<Value>', 'Option<String>'): 'match *self { Some(s) => r == Value::String(s), None => r is Null }',
    ('Convert<Value>', 'Option<f64>'): 'match *self { Some(v) => r == Value::Number(serde_json::num_f(v)), None => r is Null }',
    ('Convert<Value>', 'Option<i64>'): 'match *self { Some(v) => r == Value::Number(serde_json::num_i(v)), None => r is Null }',
    ('Convert<Value>', 'Option<bool>'): 'match *self { Some(v) => r == Value::Bool(v), None => r is Null }',
    ('Convert<Option<u32>>', 'Option<usize>'): 'r == osat(*self)',
    ('Convert<Option<f64>>', 'Option<f64>'): 'r == *self',
    ('Convert<schemars::Set<String>>', 'Vec<String>'): 'reqconv(self@, r)',
    ('Convert<schemars::Map<String,S>>', 'IndexMap<String,openapiv3::ReferenceOr<Box<openapiv3::Schema>>>'): 'propconv(self.ents(), r)',
    ('Convert<TT>', 'Box<T>'): '(**self).conv(r)',
    ('Convert<Option<Box<TT>>>', 'Option<T>'): 'match (*self, r) { (None, None) => true, (Some(x), Some(y)) => x.conv(*y), _ => false }',
    ('Convert<S>', 'openapiv3::AdditionalProperties'): 'addconv(*self, r)',
}

SUBST = [
    (r'\bschemars::schema::Schema\b(?!\w)', 'S'),
    (r'\bso\.(string|number|object|array|subschemas)\(\)\.(\w+)\s*=\s*([^;]+);', r'so.vp_set_\1_\2(\3);'),
    (r'(?<![\w.])instance_type\(', 'vp_instance_type('),
    (r'\.clone\(\)', '.vp_clone()'),
    (r'\bu32::try_from\(', 'vp_try_u32('),
    (r'(\*\s*v|\bv) as f64', r'vp_f64(\1)'),
    (r'todo!\s*\([^;]*?\)(?=[;,\s])', 'vp_todo()'),
    (r'\.into_iter\(\)', '.vp_into_iter()'),
    (r'\.then_some\(', '.vp_then_some('),
    (r'\.iter\(\)', '.vp_iter()'),
    (r'\.as_deref\(\)', '.vp_deref()'),
    (r'\.into\(\)', '.vp_into()'),
    (r'\.to_string\(\)', '.vp_string()'),
    (r'(\w+)\[0\] == serde_json::Value::Null', r'serde_json::vp_is_null(&\1[0])'),
]


def load(root, prop):
    import os
    t = open(os.path.join(root, FILES['G16'])).read()
    t = re.split(r'#\[cfg\(test\)\]', t)[0]
    s = Src(respace(t), FILES['G16'])
    return s


def build(src, probe, hints=True):
    w = Weave(src, 'G16')
    w.probe = probe
    text = src.text
    for pat, rep in SUBST:
        t2 = re.sub(pat, rep, text)
        if t2 != text:
            w.rules.add(f'W9 {pat} -> {rep}')
        text = t2
    src = w.src = Src(text, src.path if hasattr(src, 'path') else FILES['G16'])
    w.raw(HEAD + OPENAPI + schemars() + LAYER)
    w.ctors['SingleOrVec::Single'] = ('SingleOrVec<S>', 'SingleOrVec::Single')
    impls = {}
    for it in src.items:
        if it.kind == 'impl' and it.trait and it.trait.startswith('Convert'):
            k = (re.sub(r'\s', '', it.trait), re.sub(r'\s', '', it.self_ty))
            impls[k] = it
    for k in CONV:
        if k not in impls:
            raise Lost(f'impl {k[0]} for {k[1]}')
    for k, it in impls.items():
        if k not in CONV:
            raise Lost(f'new impl {k[0]} for {k[1]}')
        tr = re.sub(r'^Convert\s*<', '', it.trait.strip())[:-1].strip()
        gen, ty, wh = it.generics, it.self_ty, it.where
        w.raw(f'impl{gen} Convert<{tr}> for {ty} {wh} {{ open spec fn conv(&self, r: {tr}) -> bool {{ {CONV[k]} }} #[verifier::external_body] fn convert(&self) -> (r: {tr}) {{ unimplemented!() }} }}\n')
    find = lambda n: next((f for f in src.fns() if f.name == n and f.parent is None), None)
    fs = {n: find(n) for n in ('saturating_u32', 'vp_instance_type', 'oneof_nullable_wrapper')}
    if fs['saturating_u32']:
        w.fn('saturating_u32', C(ens=[('G16.limit', 'r == sat($p0)')]), f=fs['saturating_u32'])
    w.fn('vp_instance_type', C(ens=[('G16.nullable-type', 'typed(SchemaObject { instance_type: r, ..arbitrary() }, $p0, $p1)')]), f=fs['vp_instance_type'])
    w.fn('oneof_nullable_wrapper', C(ens=[('G16.null-or', 'wrapped(r, $p0, $p1)')]), f=fs['oneof_nullable_wrapper'])
    w.fn('reduce', C(rename='reduce_body', subst=[(r's != &T::default\(\)', '!s.vp_isdef()')]), trait='OptionReduce', ty='Option<T>', header='impl<T: VDef> ReduceBody for Option<T>', assoc='open spec fn red2(self, r: Self) -> bool { reduced(self, r) }')
    for n, (k, it) in enumerate(impls.items()):
        tr = re.sub(r'^Convert\s*<', '', it.trait.strip())[:-1].strip()
        f = next(x for x in src.fns() if x.parent is it and x.name == 'convert')
        main = k == ('Convert<S>', 'openapiv3::Schema')
        if main and len(re.findall(ABOUT, src.text[f.a:f.b])) == 1:
            EXTRA[k]['inserts'] = [(ABOUT, 'assert(describes(self.schema_data, metadata, extensions)) by { reveal(describes); }')]
        extra = dict(EXTRA.get(k, {}))
        if not hints:
            extra.pop('post', None)
        for part, ens in enumerate(PARTS if main else [[(tag(k), CONV[k])]]):
            b = f'{n}_{part}' if main else f'{n}'
            w.raw(f'/// the body of a conversion, verified against what callers assume of it{" (one part of its contract)" if main else ""}\npub trait Body{b}<T> {{ spec fn may(&self) -> bool; fn body{b}(&self) -> (r: T) requires self.may(); }}\n')
            w.fn('convert', C(rename=f'body{b}', ens=ens, **extra), f=f, ty=re.sub(r'\s', '', f'{it.self_ty}'),
                 header=f'impl{it.generics} Body{b}<{tr}> for {it.self_ty} {it.where}',
                 assoc=f'open spec fn may(&self) -> bool {{ {"accepted(*self)" if main else "true"} }}')
    for ty, rel in (('openapiv3::Schema', 'sconv'), ('openapiv3::ReferenceOr<openapiv3::Schema>', 'rconv')):
        w.fn('to_schema', C(ens=[('G16.to-schema', f'{rel}(*self, r)')]), ty=ty, trait='ToSchema', header=f'impl ToSchema for {ty}', assoc=f'open spec fn sc(&self, r: S) -> bool {{ {rel}(*self, r) }}')
    w.raw('} // verus!\nfn main() {}\n')
    return w


# what one statement may do to each field of the schema under construction: (field, when it makes the group present, what holds afterwards)
FIELDS = re.findall(r'pub (\w+):', re.search(r'pub struct AnySchema \{(.*?)\}', OPENAPI).group(1))
ANY = 'self.schema_kind->Any_0'
EFFECT = {
    ('', 'format'): ('', f'so.format == {ANY}.format'),
    ('', 'enum_values'): ('', f'match so.enum_values {{ None => {ANY}.enumeration@.len() == 0, Some(v) => {ANY}.enumeration@.len() > 0 && v == {ANY}.enumeration }}'),
    ('string', 'pattern'): (f'{ANY}.pattern is Some', f'so.string_pattern() == {ANY}.pattern'),
    ('number', 'multiple_of'): (f'{ANY}.multiple_of is Some', f'so.number_multiple_of() == {ANY}.multiple_of'),
    ('object', 'properties'): (f'{ANY}.properties.ents().len() > 0', f'match so.object {{ Some(v) => propconv({ANY}.properties.ents(), v.properties), None => {ANY}.properties.ents().len() == 0 }}'),
    ('object', 'required'): (f'{ANY}.required@.len() > 0', f'match so.object {{ Some(v) => reqconv({ANY}.required@, v.required), None => {ANY}.required@.len() == 0 }}'),
    ('object', 'additional_properties'): (f'{ANY}.additional_properties is Some', f'match ({ANY}.additional_properties, so.object_additional_properties()) {{ (None, None) => true, (Some(a), Some(r)) => addconv(a, *r), _ => false }}'),
    ('array', 'items'): (f'{ANY}.items is Some', f'match ({ANY}.items, so.array_items()) {{ (None, None) => true, (Some(i), Some(SingleOrVec::Single(r))) => rconv(i.s_unbox(), *r), _ => false }}'),
    ('array', 'unique_items'): (f'{ANY}.unique_items is Some', f'(so.array_unique_items() == Some(true)) == ({ANY}.unique_items == Some(true))'),
    ('subschemas', 'not'): (f'{ANY}.not is Some', f'match ({ANY}.not, so.subschemas_not()) {{ (None, None) => true, (Some(n), Some(r)) => rconv(*n, *r), _ => false }}'),
}
NU = 'self.schema_data.nullable'
EFFECT['', 'instance_type'] = ('', f'({ANY}.typ is Some ==> typed(so, named({ANY}.typ->Some_0@)->Some_0, {NU})) && ({ANY}.typ is None ==> if !{NU} || !speaks({ANY}) && !has_subs({ANY}) {{ so.instance_type is None }} else if speaks({ANY}) {{ inferred({ANY}, so) && so.instance_type is Some && !(so.instance_type->Some_0 is Single) }} else {{ single(so, InstanceType::Null) }})')
for _g, _f in (('string', 'length'), ('object', 'properties'), ('array', 'items')):
    for _m in ('min', 'max'):
        EFFECT[_g, f'{_m}_{_f}'] = (f'{ANY}.{_m}_{_f} is Some', f'so.{_g}_{_m}_{_f}() == osat({ANY}.{_m}_{_f})')
for _f in ('minimum', 'maximum'):
    EFFECT['number', _f] = EFFECT['number', 'exclusive_' + _f] = (f'{ANY}.{_f} is Some', f'(so.number_{_f}(), so.number_exclusive_{_f}()) == bound({ANY}.{_f}, {ANY}.exclusive_{_f} == Some(true))')
for _f in ('one_of', 'all_of', 'any_of'):
    EFFECT['subschemas', _f] = (f'{ANY}.{_f}@.len() > 0', f'oeach({ANY}.{_f}@, so.subschemas_{_f}())')


def steps(text):
    """proof hints: each statement that updates the schema under construction is cut off from the rest by a loop run once"""
    toks = lex(text)
    m = match_delims(toks)
    at = [i for i in range(len(toks) - 4) if [x.s for x in toks[i:i + 4]] == ['let', 'mut', 'so', '=']]
    if len(at) != 1:
        return text
    i = at[0]
    while toks[i].s != ';':
        i = m[i] + 1 if toks[i].s in '([{' and i in m else i + 1
    i += 1
    stmts = []
    while i < len(toks) and toks[i].s != '}':
        start = i
        blockish = toks[i].s in ('if', 'match', 'for', 'while', 'loop', '{')
        while True:
            if toks[i].s == ';':
                break
            if toks[i].s in '([{' and i in m:
                j = m[i]
                if toks[i].s == '{' and blockish and toks[j + 1].s not in ('else', '.', '?', '=>'):
                    i = j
                    break
                i = j
            if toks[i + 1].s == '}':
                i = -1
                break
            i += 1
        if i < 0:
            break
        end = toks[i].b
        i += 1
        if i < len(toks) and toks[i].s == ';':
            end = toks[i].b
            i += 1
        if i >= len(toks) or toks[i].s == '}':
            break
        st = text[toks[start].a:end]
        sets = {(g, f) for g, f in re.findall(r'\bso\.vp_set_([a-z]+?)_([a-z_]+)\(', st)} | {('', f) for f in re.findall(r'\bso\.([a-z_]+)\s*=[^=]', st)}
        if toks[start].s != 'let' and re.search(r'\bso\b', st) and not re.search(r'\bso\b(?!\s*\.)|\breturn\b|\bbreak\b|\bcontinue\b|\?', st):
            stmts.append((toks[start].a, end, sets))
    edits = []
    for n, (a, b, sets) in enumerate(stmts):
        if not sets or not sets <= set(EFFECT):
            continue
        also = {EFFECT[x][1] for x in sets}
        if any(also & {EFFECT[x][1] for x in s2} for k, (_, _, s2) in enumerate(stmts) if k != n and s2 <= set(EFFECT)):
            continue
        gs = {g for g, _ in sets} - {''}
        keep = [f'so.{x} == so_{n}.{x}' for x in SO if ('', x) not in sets and x not in gs]
        for g in sorted(gs):
            keep.append(f'(so.{g} is Some <==> so_{n}.{g} is Some || ' + ' || '.join(sorted({EFFECT[x][0] for x in sets if x[0] == g})) + ')')
            for f, ty in GROUPS[g][1]:
                if (g, f) in sets:
                    continue
                if ty.startswith('Option'):
                    keep.append(f'so.{g}_{f}() == so_{n}.{g}_{f}()')
                else:
                    keep.append(f'(so_{n}.{g} is Some ==> so.{g}->Some_0.{f} == so_{n}.{g}->Some_0.{f})')
                    if ty[:3] in ('Map', 'Set'):
                        keep.append(f'(so_{n}.{g} is None && so.{g} is Some ==> so.{g}->Some_0.{f}.none())')
        pre = ['self.schema_kind is Any', 'accepted(*self)']
        pre += [f'*{x} == {ANY}.{x}' for x in sorted(set(re.findall(r'\b[a-z_]+\b', text[a:b])) & set(FIELDS))]
        if re.search(r'\bnullable\b', text[a:b]):
            pre.append(f'nullable == {NU}')
        if ('', 'instance_type') in sets:
            pre += [f'(so_{n}.{g} is Some <==> has_{h}({ANY}))' for g, h in (('string', 'text'), ('number', 'number'), ('object', 'object'), ('array', 'array'), ('subschemas', 'subs'))]
        for g, f in sorted(sets):
            if not g:
                pre.append(f'so_{n}.{f} is None')
            elif dict(GROUPS[g][1])[f].startswith('Option'):
                pre.append(f'so_{n}.{g}_{f}() is None')
            else:
                pre.append(f'(so_{n}.{g} is Some ==> so_{n}.{g}->Some_0.{f}.none())')
        edits.append((a, f'\nlet ghost so_{n} = so;\nloop invariant_except_break so == so_{n}, /*@HINT:step@*/\ninvariant ' + ''.join(f'({x}), /*@HINT:step@*/\n' for x in pre) + 'ensures ' + ''.join(f'({x}), /*@HINT:step@*/\n' for x in keep + sorted(also)) + ' { '))
        edits.append((b, '\nbreak; }\n'))
    for pos, s in sorted(edits, key=lambda e: -e[0]):
        text = text[:pos] + s + text[pos:]
    return text


def tag(k):
    short = lambda s: re.sub(r'[^a-z0-9]+', '-', re.sub(r'openapiv3::|schemars::|Convert', '', s).lower()).strip('-')
    return f'G16.{short(k[1])}.{short(k[0])}'


ABOUT = r'let extensions\s*=[^;]*;'
ETA = (r'Convert::convert', '|cx: &I| -> (cr: T) ensures cx.conv(cr) { cx.convert() }')
EXTRA = {
    ('Convert<Vec<T>>', 'Vec<I>'): dict(subst=[ETA], start='proof { reveal(convs); }'),
    ('Convert<Option<Vec<T>>>', 'Vec<I>'): dict(subst=[ETA], start='proof { reveal(convs); }'),
    ('Convert<schemars::Set<String>>', 'Vec<String>'): dict(start='proof { reveal(reqconv); }'),
    ('Convert<schemars::Map<String,S>>', 'IndexMap<String,openapiv3::ReferenceOr<Box<openapiv3::Schema>>>'): dict(
        closures=[dict(ptypes=["(&String, &openapiv3::ReferenceOr<Box<openapiv3::Schema>>)"], ret='(String, S)', ens='cr.0 == *$c0.0 && rconv($c0.1.s_unbox(), cr.1)')], start='proof { reveal(propconv); reveal(all_distinct); reveal(entries); }'),
    ('Convert<Option<Box<TT>>>', 'Option<T>'): dict(closures=[dict(ret='Box<TT>', ens='$c0.conv(*cr)')]),
    ('Convert<S>', 'openapiv3::Schema'): dict(post=steps, attrs='#[verifier::spinoff_prover]', start='proof { ' + ' '.join(f'reveal_strlit("{x}");' for x in ('boolean', 'object', 'array', 'number', 'string', 'integer')) + ' }', closures=[dict(ret='f64', ens='cr == fl($c0)'), dict(ret='SingleOrVec<S>', ens='cr matches SingleOrVec::Single(b) && $c0.conv(*b)')]),
}
BUILD = {'G16': build}
HINTS = {'G16'}
