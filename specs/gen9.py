"""G25: the operation model read from a document (process_operation and what it calls)."""
import os, re
from vp.weave import Weave, C, lower_for, lower_collect
from vp.rustlex import Src, Lost
from . import gen_stubs as S
from .gen import start, done, METHODS, KINDS as BODY_KINDS, TEXTS, SLICE, SORTED, LIB, METHOD, UTIL, STATUS
from .gen2 import MAPS, REFS, KINDS
from .template import ITERS

FILES = dict(G25=METHOD)
NOTE = {'G25': 'Called functions with contracts proved under other properties are assumed here with those contracts: template::parse and names (G01, G03), sort_params (G08), item (G17), sanitize (G10), to_schema (G16), dropshot_pagination_data (G19). '
               'typify is a type space that only grows: a type made for a schema and a name stays what it is. '
               'Documents whose references lead nowhere, or that the generator refuses with todo!, assert! or panic! (optional path parameters, several media types of a request body, encodings, JSON responses without a schema), are outside the precondition.'}


def load(root, prop):
    text = open(os.path.join(root, METHOD)).read()
    s = Src(lower_for(lower_collect(text, ('process_operation',)), ('process_operation',)), METHOD)
    s.lib = Src(open(os.path.join(root, LIB)).read(), LIB)
    s.util = Src(open(os.path.join(root, UTIL)).read(), UTIL)
    return s


STD = r"""
pub mod vstd2 {
use vstd::prelude::*;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, P: FnOnce(&T) -> bool>[Option::<T>::filter](o: Option<T>, f: P) -> (r: Option<T>) where T: core::marker::Destruct, P: core::marker::Destruct
  requires o matches Some(x) ==> f.requires((&x,)),
  ensures match o { Some(x) => (r == o && f.ensures((&x,), true)) || (r is None && f.ensures((&x,), false)), None => r is None };
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [bool::then_some::<T>] (b: bool, x: T) -> (r: Option<T>) where T: core::marker::Destruct, ensures r == (if b { Some(x) } else { None });
#[verifier::external_body] pub fn same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// an empty text is none
pub open spec fn told(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => if s@.len() == 0 { None } else { Some(s@) }, None => None } }
pub fn vp_assert(b: bool) requires b {}
pub open spec fn otext(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
/// a map in the order of the document
#[verifier::external_body] #[verifier::accept_recursive_types(V)] #[verifier::accept_recursive_types(K)]
pub struct EntMap<K, V>(core::marker::PhantomData<(K, V)>);
pub open spec fn same_entries<K, V>(r: Seq<(&K, &V)>, e: Seq<(K, V)>) -> bool { r.len() == e.len() && forall|i: int| #![trigger r[i]] #![trigger e[i]] 0 <= i < r.len() ==> *r[i].0 == e[i].0 && *r[i].1 == e[i].1 }
impl<K, V> EntMap<K, V> { pub uninterp spec fn ents(&self) -> Seq<(K, V)>;
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.ents().len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.ents().len() { unimplemented!() }
  #[verifier::external_body] pub fn first(&self) -> (r: Option<(&K, &V)>) ensures match r { Some(p) => self.ents().len() > 0 && *p.0 == self.ents()[0].0 && *p.1 == self.ents()[0].1, None => self.ents().len() == 0 } { unimplemented!() }
  #[verifier::external_body] pub fn vp_iter(&self) -> (r: super::VIter<(&K, &V)>) ensures same_entries(r@, self.ents()) { unimplemented!() }
}
#[verifier::external_body] pub struct Value(());
#[verifier::external_body] pub struct Extensions(());
impl View for Extensions { type V = Map<Seq<char>, Value>; uninterp spec fn view(&self) -> Map<Seq<char>, Value>; }
impl Extensions {
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() } }
/// a map in the order of its keys: which order is the keys' affair
#[verifier::external_body] #[verifier::accept_recursive_types(V)] #[verifier::reject_recursive_types(K)]
pub struct BTreeMap<K, V>(core::marker::PhantomData<(K, V)>);
impl<'a, V> View for BTreeMap<&'a String, &'a V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
pub uninterp spec fn order(d: Set<Seq<char>>) -> Seq<Seq<char>>;
pub broadcast axiom fn ax_order(d: Set<Seq<char>>) ensures (#[trigger] order(d)).no_duplicates(), forall|k: Seq<char>| #[trigger] d.contains(k) <==> order(d).contains(k);
impl<'a, V> BTreeMap<&'a String, &'a V> {
    #[verifier::external_body] pub fn insert(&mut self, k: &'a String, v: &'a V) -> (r: Option<&'a V>) ensures final(self)@ == old(self)@.insert(k@, *v) { unimplemented!() }
    #[verifier::external_body] pub fn values(&self) -> (r: super::VIter<&&'a V>) ensures r@.len() == order(self@.dom()).len(), forall|i: int| 0 <= i < r@.len() ==> **(#[trigger] r@[i]) == self@[order(self@.dom())[i]] { unimplemented!() }
}
/// the entries put in one after the other
pub open spec fn put<V>(s: Seq<core::result::Result<(&String, &V), super::Error>>) -> Map<Seq<char>, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { let x = s.last()->Ok_0; put(s.drop_last()).insert(x.0@, *x.1) } }
impl<'a, V> super::VCollect<core::result::Result<(&'a String, &'a V), super::Error>> for core::result::Result<BTreeMap<&'a String, &'a V>, super::Error> {
    open spec fn collected(s: Seq<core::result::Result<(&'a String, &'a V), super::Error>>, r: Self) -> bool { match r { Ok(m) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok) && m@ == put(s), Err(e) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err } } }
}
use vstd2::{EntMap, Value, Extensions, BTreeMap, order, vp_assert, told, otext, texts, same_entries};
/// the iterators of an Option, and one after the other
pub mod viter2 { use vstd::prelude::*; use super::*;
pub trait VOpt<T> { spec fn opt(&self) -> Option<T>; fn vp_iter(&self) -> (r: VIter<&T>) ensures match self.opt() { Some(x) => r@.len() == 1 && *r@[0] == x, None => r@.len() == 0 }; }
impl<T> VOpt<T> for Option<T> { open spec fn opt(&self) -> Option<T> { *self } #[verifier::external_body] fn vp_iter(&self) -> (r: VIter<&T>) { unimplemented!() } }
impl<I> VIter<I> {
    #[verifier::external_body] pub fn chain(self, o: VIter<I>) -> (r: VIter<I>) ensures r@ == self@ + o@ { unimplemented!() }
    /// the first result, the function being asked in order
    #[verifier::external_body] pub fn find_map<B, F: Fn(I) -> Option<B>>(self, f: F) -> (r: Option<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures match r { Some(x) => exists|n: int| 0 <= n < self@.len() && f.ensures((#[trigger] self@[n],), r) && forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] self@[i],), None),
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), None) }
    { unimplemented!() }
} }
use viter2::VOpt;
"""

DOC = r"""
pub mod openapiv3 { pub use super::{Parameter, PathStyle, QueryStyle, HeaderStyle, CookieStyle, ParameterData, ParameterSchemaOrContent, MediaType, Encoding, Response, RequestBody, Responses, StatusCode, Operation, Schema, SchemaData, SchemaKind, Type, StringType, StringFormat, VariantOrUnknownOrEmpty, ReferenceOr, Components}; }
pub enum PathStyle { Matrix, Label, Simple }
pub enum QueryStyle { Form, SpaceDelimited, PipeDelimited, DeepObject }
pub enum HeaderStyle { Simple }
pub enum CookieStyle { Form }
pub type Content = EntMap<String, MediaType>;
pub enum ParameterSchemaOrContent { Schema(ReferenceOr<Schema>), Content(Content) }
pub struct ParameterData { pub name: String, pub description: Option<String>, pub required: bool, pub deprecated: Option<bool>, pub format: ParameterSchemaOrContent, pub explode: Option<bool>, pub extensions: Extensions }
pub enum Parameter {
    Query { parameter_data: ParameterData, allow_reserved: bool, style: QueryStyle, allow_empty_value: Option<bool> },
    Header { parameter_data: ParameterData, style: HeaderStyle },
    Path { parameter_data: ParameterData, style: PathStyle },
    Cookie { parameter_data: ParameterData, style: CookieStyle },
}
pub open spec fn data(p: Parameter) -> ParameterData { match p { Parameter::Query { parameter_data, .. } => parameter_data, Parameter::Header { parameter_data, .. } => parameter_data, Parameter::Path { parameter_data, .. } => parameter_data, Parameter::Cookie { parameter_data, .. } => parameter_data } }
impl Parameter { #[verifier::external_body] pub fn parameter_data_ref(&self) -> (r: &ParameterData) ensures *r == data(*self) { unimplemented!() } }
#[verifier::external_body] pub struct Encoding(());
pub struct MediaType { pub schema: Option<ReferenceOr<Schema>>, pub example: Option<Value>, pub encoding: EntMap<String, Encoding>, pub extensions: Extensions }
pub struct RequestBody { pub description: Option<String>, pub content: Content, pub required: bool, pub extensions: Extensions }
pub struct Response { pub description: String, pub content: Content, pub extensions: Extensions }
pub enum StatusCode { Code(u16), Range(u16) }
pub struct Responses { pub default: Option<ReferenceOr<Response>>, pub responses: EntMap<StatusCode, ReferenceOr<Response>>, pub extensions: Extensions }
pub struct Operation { pub tags: Vec<String>, pub summary: Option<String>, pub description: Option<String>, pub operation_id: Option<String>, pub parameters: Vec<ReferenceOr<Parameter>>, pub request_body: Option<ReferenceOr<RequestBody>>, pub responses: Responses, pub deprecated: bool, pub extensions: Extensions }
#[verifier::external_body] pub struct Discriminator(());
pub struct SchemaData { pub nullable: bool, pub read_only: bool, pub write_only: bool, pub deprecated: bool, pub example: Option<Value>, pub title: Option<String>, pub description: Option<String>, pub discriminator: Option<Discriminator>, pub default: Option<Value>, pub extensions: Extensions }
#[verifier::external_body] pub struct NumberType(());
#[verifier::external_body] pub struct IntegerType(());
#[verifier::external_body] pub struct ObjectType(());
#[verifier::external_body] pub struct ArrayType(());
#[verifier::external_body] pub struct BooleanType(());
#[verifier::external_body] pub struct OtherKind(());
pub enum StringFormat { Date, DateTime, Password, Byte, Binary }
pub enum VariantOrUnknownOrEmpty<T> { Item(T), Unknown(String), Empty }
pub struct StringType { pub format: VariantOrUnknownOrEmpty<StringFormat>, pub pattern: Option<String>, pub enumeration: Vec<Option<String>>, pub min_length: Option<usize>, pub max_length: Option<usize> }
pub enum Type { String(StringType), Number(NumberType), Integer(IntegerType), Object(ObjectType), Array(ArrayType), Boolean(BooleanType) }
pub enum SchemaKind { Type(Type), OneOf(OtherKind), AllOf(OtherKind), AnyOf(OtherKind), Not(OtherKind), Any(OtherKind) }
pub struct Schema { pub schema_data: SchemaData, pub schema_kind: SchemaKind }
"""

WORLD = r"""
// ---- what is proved elsewhere
pub mod schemars { #[verifier::external_body] pub struct Schema(()); }
/// the internal form of a schema (G16)
pub uninterp spec fn conv(s: ReferenceOr<Schema>) -> schemars::Schema;
impl ReferenceOr<Schema> { #[verifier::external_body] pub fn to_schema(&self) -> (r: schemars::Schema) ensures r == conv(*self) { unimplemented!() } }
/// the Rust form of a name (G10)
pub uninterp spec fn sane(s: Seq<char>, c: Case) -> Seq<char>;
#[verifier::external_body] pub fn sanitize(input: &str, case: Case) -> (r: String) ensures r@ == sane(input@, case) { unimplemented!() }
/// what a path parses to (G01), and its names in order (G03)
pub mod template { use vstd::prelude::*; use super::*;
#[verifier::external_body] pub struct PathTemplate(());
pub uninterp spec fn of(path: Seq<char>) -> PathTemplate;
impl PathTemplate { pub uninterp spec fn params(&self) -> Seq<String>; #[verifier::external_body] pub fn names(&self) -> (r: Vec<String>) ensures r@ == self.params() { unimplemented!() } }
#[verifier::external_body] pub fn parse(path: &str) -> (r: Result<PathTemplate>) ensures r matches Ok(t) ==> t == of(path@) { unimplemented!() }
}
use template::PathTemplate;
pub mod typify { use vstd::prelude::*; use super::*;
#[verifier::external_body] #[derive(Debug)] pub struct Error(());
#[verifier::external_body] pub struct TypeInfo(());
pub enum TypeDetails { Enum(TypeInfo), Struct(TypeInfo), Newtype(TypeInfo), Option(TypeId), Vec(TypeId), Map(TypeId, TypeId), Set(TypeId), Box(TypeId), Tuple(TypeInfo), Array(TypeId, usize), Builtin(&'static str), Unit, String }
#[verifier::external_body] pub struct Type(());
impl Type { pub uninterp spec fn det(&self) -> TypeDetails; #[verifier::external_body] pub fn details(&self) -> (r: TypeDetails) ensures r == self.det() { unimplemented!() } }
#[verifier::external_body] pub struct TypeSpace(());
impl TypeSpace {
    /// the type was made from this schema, under this name
    pub uninterp spec fn made(&self, id: TypeId, s: schemars::Schema, name: Option<Seq<char>>) -> bool;
    pub uninterp spec fn det(&self, id: TypeId) -> Option<TypeDetails>;
    pub open spec fn after(self, o: TypeSpace) -> bool { (forall|id: TypeId, s: schemars::Schema, n: Option<Seq<char>>| o.made(id, s, n) ==> #[trigger] self.made(id, s, n)) && forall|id: TypeId| o.det(id) is Some ==> #[trigger] self.det(id) == o.det(id) }
    #[verifier::external_body] pub fn add_type_with_name(&mut self, s: &schemars::Schema, name: Option<String>) -> (r: Result<TypeId>)
        ensures final(self).after(*old(self)), r matches Ok(id) ==> final(self).made(id, *s, otext(name)) && final(self).det(id) is Some { unimplemented!() }
    #[verifier::external_body] pub fn get_type(&self, id: &TypeId) -> (r: core::result::Result<Type, Error>) ensures match r { Ok(t) => self.det(*id) == Some(t.det()), Err(_) => self.det(*id) is None } { unimplemented!() }
}
}
use typify::TypeSpace;
pub struct Generator { pub type_space: TypeSpace, pub uses_websockets: bool }
/// whether and how pages are streamed (G19)
pub uninterp spec fn pages(ts: TypeSpace, op: Operation, ps: Seq<OperationParameter>, rs: Seq<OperationResponse>) -> Option<DropshotPagination>;
pub open spec fn apart(ps: Seq<OperationParameter>) -> bool { forall|i: int, j: int| 0 <= i < j < ps.len() && (#[trigger] ps[i]).$kind is Query && (#[trigger] ps[j]).$kind is Query ==> ps[i].$api@ != ps[j].$api@ }
impl Generator { #[verifier::external_body] pub fn dropshot_pagination_data(&self, operation: &Operation, parameters: &Vec<OperationParameter>, responses: &Vec<OperationResponse>) -> (r: Option<DropshotPagination>)
    requires apart(parameters@) ensures r == pages(self.type_space, *operation, parameters@, responses@) { unimplemented!() } }
/// the order of arguments (G08)
#[verifier::external_body] pub fn sort_params(raw_params: &mut [OperationParameter], names: &[String]) requires sortable(old(raw_params)@, names@)
    ensures final(raw_params)@.to_multiset() == old(raw_params)@.to_multiset(), forall|i: int, j: int| 0 <= i < j < final(raw_params)@.len() ==> !(pcmp(final(raw_params)@[i], final(raw_params)@[j], names@) is Greater) { unimplemented!() }
"""

MODEL = r"""
// ---- parameters: those of the path item, then those of the operation; the later of the same name counts
pub open spec fn merged(refs: Seq<ReferenceOr<Parameter>>, c: Option<Components>, m: Map<Seq<char>, Parameter>) -> Map<Seq<char>, Parameter> decreases refs.len() {
    if refs.len() == 0 { m } else { let p = named(refs.last(), c); merged(refs.drop_last(), c, m).insert(data(p).name@, p) } }
pub open spec fn all_parameters(op: Operation, path: Seq<ReferenceOr<Parameter>>, c: Option<Components>) -> Map<Seq<char>, Parameter> { merged(op.parameters@, c, merged(path, c, Map::empty())) }
pub proof fn merged_keys(refs: Seq<ReferenceOr<Parameter>>, c: Option<Components>, m: Map<Seq<char>, Parameter>)
    requires forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> data(m[k]).name@ == k
    ensures forall|k: Seq<char>| #[trigger] merged(refs, c, m).dom().contains(k) ==> data(merged(refs, c, m)[k]).name@ == k decreases refs.len()
{ if refs.len() > 0 { merged_keys(refs.drop_last(), c, m); } }
pub proof fn put_merged(refs: Seq<ReferenceOr<Parameter>>, c: Option<Components>, s: Seq<Result<(&String, &Parameter)>>)
    requires s.len() == refs.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok && s[i]->Ok_0.0@ == data(named(refs[i], c)).name@ && *(s[i]->Ok_0.1) == named(refs[i], c)
    ensures vstd2::put(s) == merged(refs, c, Map::empty()) decreases s.len()
{ if s.len() > 0 { let n = s.len() - 1; put_merged(refs.drop_last(), c, s.drop_last()); assert(s[n] == s.last() && refs[n] == refs.last()); } }
pub open spec fn dash(a: Seq<char>, b: Seq<char>) -> Seq<char> { a.push('-') + b }
pub proof fn spelled(o: Seq<char>) ensures Seq::<char>::empty() + o == o, o.push('-').push('b').push('o').push('d').push('y') == o + "-body"@, o.push('-').push('r').push('e').push('s').push('p').push('o').push('n').push('s').push('e') == o + "-response"@
{ reveal_strlit("-body"); reveal_strlit("-response"); assert(Seq::<char>::empty() + o =~= o); assert(o.push('-').push('b').push('o').push('d').push('y') =~= o + "-body"@); assert(o.push('-').push('r').push('e').push('s').push('p').push('o').push('n').push('s').push('e') =~= o + "-response"@); }
pub open spec fn made_for(ts: TypeSpace, id: TypeId, s: ReferenceOr<Schema>, n: Seq<char>) -> bool { ts.made(id, conv(s), Some(n)) }
/// the schema of a parameter
pub open spec fn given(p: Parameter) -> Option<ReferenceOr<Schema>> { match data(p).format { ParameterSchemaOrContent::Schema(s) => Some(s), _ => None } }
/// the name the type of a parameter gets
pub open spec fn type_name(oid: Seq<char>, p: Parameter) -> Seq<char> { sane(dash(oid, data(p).name@), Case::Pascal) }
/// the type made for a parameter, and what it is for
pub open spec fn of_type(p: Parameter, id: TypeId, ts: TypeSpace, r: OperationParameter) -> bool {
    match p {
        Parameter::Query { parameter_data, .. } => ts.det(id) is Some && match ts.det(id)->0 {
            // a type that may be absent is a parameter that may be absent
            typify::TypeDetails::Option(inner) => r.$typ == OperationParameterType::Type(inner) && r.$kind == OperationParameterKind::Query(false),
            _ => r.$typ == OperationParameterType::Type(id) && r.$kind == OperationParameterKind::Query(parameter_data.required) },
        Parameter::Header { parameter_data, .. } => r.$typ == OperationParameterType::Type(id) && r.$kind == OperationParameterKind::Header(parameter_data.required),
        Parameter::Path { .. } => r.$typ == OperationParameterType::Type(id) && r.$kind is Path,
        Parameter::Cookie { .. } => false } }
pub open spec fn supported(p: Parameter) -> bool { given(p) is Some && match p { Parameter::Query { style, .. } => style is Form, Parameter::Header { style, .. } => style is Simple, Parameter::Path { style, .. } => style is Simple, Parameter::Cookie { .. } => false } }
#[verifier::opaque] pub open spec fn doc_param(oid: Seq<char>, p: Parameter, ts: TypeSpace, r: OperationParameter) -> bool {
    &&& supported(p)
    &&& r.$api@ == data(p).name@ && r.$name@ == sane(data(p).name@, Case::Snake) && otext(r.$desc) == otext(data(p).description)
    &&& exists|id: TypeId| #[trigger] ts.made(id, conv(given(p)->0), Some(type_name(oid, p))) && of_type(p, id, ts, r) }
pub broadcast proof fn param_kept(oid: Seq<char>, p: Parameter, a: TypeSpace, b: TypeSpace, r: OperationParameter) requires #[trigger] doc_param(oid, p, a, r), #[trigger] b.after(a) ensures doc_param(oid, p, b, r)
{ reveal(doc_param); let id = choose|id: TypeId| #[trigger] a.made(id, conv(given(p)->0), Some(type_name(oid, p))) && of_type(p, id, a, r); assert(b.made(id, conv(given(p)->0), Some(type_name(oid, p)))); if a.det(id) is Some { assert(b.det(id) == a.det(id)); } }
// ---- the body
pub open spec fn printed(k: BodyContentType) -> Seq<char> { match k { $PRINTED, BodyContentType::Text(t) => t@ } }
pub open spec fn is_text(t: Seq<char>) -> bool { $TEXTS }
pub open spec fn known(t: Seq<char>) -> bool { $KNOWN || is_text(t) }
pub open spec fn body_of(op: Operation, c: Option<Components>) -> Option<RequestBody> { match op.request_body { Some(b) => if named(b, c).content.ents().len() > 0 { Some(named(b, c)) } else { None }, None => None } }
/// an unconstrained string, binary or of no format
pub open spec fn bare_string(s: Schema, binary: bool) -> bool {
    &&& !s.schema_data.nullable && s.schema_data.discriminator is None && s.schema_data.default is None
    &&& s.schema_kind matches SchemaKind::Type(Type::String(t)) && t.pattern is None && t.min_length is None && t.max_length is None && t.enumeration@.len() == 0 && (if binary { t.format == VariantOrUnknownOrEmpty::Item(StringFormat::Binary) } else { t.format is Empty }) }
#[verifier::opaque] pub open spec fn doc_body(oid: Seq<char>, b: RequestBody, c: Option<Components>, ts: TypeSpace, r: OperationParameter) -> bool {
    let media = b.content.ents()[0].1; let kind = vstr::head(b.content.ents()[0].0@, ';');
    &&& r.$api@ == "body"@ && r.$name@ == "body"@ && otext(r.$desc) == otext(b.description) && media.schema is Some
    &&& r.$kind matches OperationParameterKind::Body(k) && printed(k) == kind && (k is Text == is_text(kind)) && match k {
        BodyContentType::OctetStream => r.$typ is RawBody && bare_string(named(media.schema->0, c), true),
        BodyContentType::Text(_) => r.$typ is RawBody && bare_string(named(media.schema->0, c), false),
        _ => r.$typ matches OperationParameterType::Type(id) && made_for(ts, id, media.schema->0, sane(oid + "-body"@, Case::Pascal)) } }
pub broadcast proof fn body_kept(oid: Seq<char>, b: RequestBody, c: Option<Components>, x: TypeSpace, y: TypeSpace, r: OperationParameter) requires #[trigger] doc_body(oid, b, c, x, r), #[trigger] y.after(x) ensures doc_body(oid, b, c, y, r)
{ reveal(doc_body); if let OperationParameterType::Type(id) = r.$typ { let s = b.content.ents()[0].1.schema->0; assert(y.made(id, conv(s), Some(sane(oid + "-body"@, Case::Pascal))) || !x.made(id, conv(s), Some(sane(oid + "-body"@, Case::Pascal)))); } }
pub broadcast proof fn body_is(oid: Seq<char>, b: RequestBody, c: Option<Components>, x: TypeSpace, r: OperationParameter) requires #[trigger] doc_body(oid, b, c, x, r) ensures r.$kind is Body { reveal(doc_body); }
// ---- the responses: the default first, then the others as documented
pub open spec fn code_of(s: StatusCode) -> OperationResponseStatus { match s { StatusCode::Code(c) => OperationResponseStatus::Code(c), StatusCode::Range(r) => OperationResponseStatus::Range(r) } }
pub open spec fn others(e: Seq<(StatusCode, ReferenceOr<Response>)>, c: Option<Components>) -> Seq<(OperationResponseStatus, Response)> { e.map_values(|x: (StatusCode, ReferenceOr<Response>)| (code_of(x.0), named(x.1, c))) }
pub open spec fn all_responses(rs: Responses, c: Option<Components>) -> Seq<(OperationResponseStatus, Response)> {
    (match rs.default { Some(d) => seq![(OperationResponseStatus::Default, named(d, c))], None => Seq::empty() }) + others(rs.responses.ents(), c) }
pub open spec fn is_json(t: Seq<char>) -> bool { t == "application/json"@ || vstr::is_sub(t, "application/json;"@, 0) }
pub open spec fn json_at(e: Seq<(String, MediaType)>, n: int) -> bool { 0 <= n < e.len() && is_json(e[n].0@) && forall|i: int| 0 <= i < n ==> !is_json((#[trigger] e[i]).0@) }
/// the first JSON entry
pub open spec fn json_of(e: Seq<(String, MediaType)>) -> Option<MediaType> { if exists|n: int| json_at(e, n) { Some(e[choose|n: int| json_at(e, n)].1) } else { None } }
pub proof fn json_first(e: Seq<(String, MediaType)>, n: int) requires json_at(e, n) ensures json_of(e) == Some(e[n].1) { let k = choose|k: int| json_at(e, k); if k < n { assert(!is_json(e[k].0@)); } if n < k { assert(!is_json(e[n].0@)); } }
pub open spec fn asks(v: Result<(OperationResponseStatus, &Response)>, d: (OperationResponseStatus, Response)) -> bool { v matches Ok(x) && x.0 == d.0 && *x.1 == d.1 }
pub proof fn first_json(e: Seq<(String, MediaType)>) ensures forall|n: int| 0 <= n < e.len() && is_json((#[trigger] e[n]).0@) && (forall|i: int| 0 <= i < n ==> !is_json((#[trigger] e[i]).0@)) ==> json_of(e) == Some(e[n].1), (forall|n: int| 0 <= n < e.len() ==> !is_json((#[trigger] e[n]).0@)) ==> json_of(e) is None
{ assert forall|n: int| 0 <= n < e.len() && is_json((#[trigger] e[n]).0@) && (forall|i: int| 0 <= i < n ==> !is_json((#[trigger] e[i]).0@)) implies json_of(e) == Some(e[n].1) by { assert(json_at(e, n)); json_first(e, n); } }
pub open spec fn doc_kind(oid: Seq<char>, d: Response, ws: bool, ts: TypeSpace, k: OperationResponseKind) -> bool {
    match json_of(d.content.ents()) {
        Some(m) => m.schema is Some && (k matches OperationResponseKind::Type(id) && made_for(ts, id, m.schema->0, sane(oid + "-response"@, Case::Pascal))),
        None => if ws { k is Upgrade } else if d.content.ents().len() > 0 { k is Raw } else { k is None } } }
#[verifier::opaque] pub open spec fn doc_response(oid: Seq<char>, s: OperationResponseStatus, d: Response, ws: bool, ts: TypeSpace, r: OperationResponse) -> bool {
    r.$status == s && otext(r.$rdesc) == (if d.description@.len() == 0 { None } else { Some(d.description@) }) && doc_kind(oid, d, ws, ts, r.$rtyp) }
pub broadcast proof fn response_kept(oid: Seq<char>, s: OperationResponseStatus, d: Response, ws: bool, x: TypeSpace, y: TypeSpace, r: OperationResponse) requires #[trigger] doc_response(oid, s, d, ws, x, r), #[trigger] y.after(x) ensures doc_response(oid, s, d, ws, y, r)
{ reveal(doc_response); if let OperationResponseKind::Type(id) = r.$rtyp { if let Some(m) = json_of(d.content.ents()) { assert(y.made(id, conv(m.schema->0), Some(sane(oid + "-response"@, Case::Pascal))) || !x.made(id, conv(m.schema->0), Some(sane(oid + "-response"@, Case::Pascal)))); } } }
/// the status is one of success
pub open spec fn covers(s: OperationResponseStatus) -> bool { match s { OperationResponseStatus::Default => true, OperationResponseStatus::Code(c) => 200 <= c <= 299, OperationResponseStatus::Range(r) => r == 2 } }
pub open spec fn covered(d: Seq<(OperationResponseStatus, Response)>) -> bool decreases d.len() { d.len() > 0 && (covers(d.last().0) || covered(d.drop_last())) }
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
/// the documented responses; any 2XX where no success is documented; the switch of protocols of a websocket
pub open spec fn responses_are(oid: Seq<char>, d: Seq<(OperationResponseStatus, Response)>, ws: bool, ts: TypeSpace, rs: Seq<OperationResponse>) -> bool {
    &&& rs.len() == d.len() + one(!covered(d)) + one(ws)
    &&& forall|i: int| 0 <= i < d.len() ==> doc_response(oid, (#[trigger] d[i]).0, d[i].1, ws, ts, rs[i])
    &&& !covered(d) ==> rs[d.len() as int].$status == OperationResponseStatus::Range(2) && rs[d.len() as int].$rtyp is Raw && rs[d.len() as int].$rdesc is None
    &&& ws ==> rs.last().$status == OperationResponseStatus::Code(101) && rs.last().$rtyp is Upgrade && rs.last().$rdesc is None }
/// in some order: one argument for every documented parameter, and one for the body
pub open spec fn params_are(oid: Seq<char>, m: Map<Seq<char>, Parameter>, b: Option<RequestBody>, c: Option<Components>, ts: TypeSpace, ps: Seq<OperationParameter>) -> bool {
    let keys = order(m.dom());
    &&& ps.len() == keys.len() + one(b is Some)
    &&& forall|i: int| 0 <= i < keys.len() ==> doc_param(oid, m[#[trigger] keys[i]], ts, ps[i])
    &&& b matches Some(b) ==> doc_body(oid, b, c, ts, ps.last()) }
pub open spec fn websocket(op: Operation) -> bool { op.extensions@.dom().contains("x-dropshot-websocket"@) }
pub open spec fn valid(op: Operation, path: Seq<char>, refs: Seq<ReferenceOr<Parameter>>, c: Option<Components>) -> bool {
    &&& op.operation_id is Some
    &&& forall|i: int| 0 <= i < refs.len() ==> resolves(#[trigger] refs[i], c)
    &&& forall|i: int| 0 <= i < op.parameters@.len() ==> resolves(#[trigger] op.parameters@[i], c)
    &&& forall|k: Seq<char>| #[trigger] all_parameters(op, refs, c).dom().contains(k) ==> (all_parameters(op, refs, c)[k] matches Parameter::Path { parameter_data, .. } ==> parameter_data.required && vnamed(template::of(path).params(), k))
    &&& valid_body(op, c)
    &&& op.responses.default matches Some(d) ==> resolves(d, c)
    &&& forall|i: int| 0 <= i < op.responses.responses.ents().len() ==> resolves((#[trigger] op.responses.responses.ents()[i]).1, c)
    &&& forall|i: int| 0 <= i < all_responses(op.responses, c).len() ==> (json_of((#[trigger] all_responses(op.responses, c)[i]).1.content.ents()) matches Some(m) ==> m.schema is Some && m.encoding.ents().len() == 0) }
pub open spec fn valid_body(op: Operation, c: Option<Components>) -> bool {
    op.operation_id is Some && (op.request_body matches Some(b) ==> resolves(b, c) && named(b, c).content.ents().len() <= 1 && (body_of(op, c) is Some ==> { let m = named(b, c).content.ents()[0].1; m.encoding.ents().len() == 0 && (m.schema matches Some(s) ==> resolves(s, c)) })) }
// ---- same elements, no query name twice
pub proof fn two_places<T>(s: Seq<T>, x: T) requires s.to_multiset().count(x) >= 2 ensures exists|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == x && #[trigger] s[j] == x decreases s.len()
{ s.to_multiset_ensures(); if s.len() == 0 { assert(s.to_multiset().len() == 0); } else {
    let t = s.drop_last(); t.to_multiset_ensures(); assert(s =~= t.push(s.last())); assert(s.to_multiset() =~= t.to_multiset().insert(s.last()));
    if s.last() == x { assert(t.to_multiset().count(x) >= 1); assert(t.contains(x)); let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i] == x && s[s.len() - 1] == x); }
    else { two_places(t, x); let (i, j) = choose|i: int, j: int| 0 <= i < j < t.len() && #[trigger] t[i] == x && #[trigger] t[j] == x; assert(s[i] == x && s[j] == x); } } }
pub proof fn twice<T>(s: Seq<T>, x: T, p: int, q: int) requires 0 <= p < q < s.len(), s[p] == x, s[q] == x ensures s.to_multiset().count(x) >= 2 {
    let t = s.remove(p); s.to_multiset_ensures(); t.to_multiset_ensures(); assert(t[q - 1] == x); assert(t.contains(x)); assert(s.contains(x)); vstd::seq_lib::to_multiset_remove(s, p); assert(t.to_multiset().count(x) > 0); }
pub proof fn apart_kept(a: Seq<OperationParameter>, b: Seq<OperationParameter>) requires a.to_multiset() == b.to_multiset(), apart(a) ensures apart(b) {
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|i: int, j: int| 0 <= i < j < b.len() && (#[trigger] b[i]).$kind is Query && (#[trigger] b[j]).$kind is Query implies b[i].$api@ != b[j].$api@ by {
        assert(b.contains(b[i]) && b.contains(b[j])); assert(a.to_multiset().count(b[i]) > 0 && a.to_multiset().count(b[j]) > 0); assert(a.contains(b[i]) && a.contains(b[j]));
        let p = choose|p: int| 0 <= p < a.len() && a[p] == b[i]; let q = choose|q: int| 0 <= q < a.len() && a[q] == b[j];
        if p == q { twice(b, b[i], i, j); two_places(a, b[i]); let (x, y) = choose|x: int, y: int| 0 <= x < y < a.len() && #[trigger] a[x] == b[i] && #[trigger] a[y] == b[i]; assert(a[x].$api@ != a[y].$api@); }
        else if p < q { assert(a[p].$api@ != a[q].$api@); } else { assert(a[q].$api@ != a[p].$api@); } } }
/// the documented arguments can be sorted, and no two queries have one name
pub open spec fn fits(m: Map<Seq<char>, Parameter>, ps: Seq<OperationParameter>) -> bool { let keys = order(m.dom());
    keys.len() <= ps.len() <= keys.len() + 1 && (forall|i: int| 0 <= i < keys.len() ==> ps[i].$api@ == #[trigger] keys[i] && !(ps[i].$kind is Body) && (ps[i].$kind is Path ==> m[keys[i]] is Path)) && (ps.len() > keys.len() ==> ps[keys.len() as int].$kind is Body) }
pub proof fn params_fit(m: Map<Seq<char>, Parameter>, ps: Seq<OperationParameter>, names: Seq<String>)
    requires fits(m, ps), forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> (m[k] is Path ==> vnamed(names, k))
    ensures sortable(ps, names), apart(ps)
{
    broadcast use vstd2::ax_order;
    let keys = order(m.dom());
    assert forall|i: int| 0 <= i < keys.len() implies m.dom().contains(#[trigger] keys[i]) by { assert(keys.contains(keys[i])); }
    assert forall|i: int| 0 <= i < ps.len() implies (i < keys.len() ==> (#[trigger] ps[i]).$api@ == keys[i] && !(ps[i].$kind is Body)) && (i >= keys.len() ==> ps[i].$kind is Body) by { if i < keys.len() { assert(keys[i] == keys[i]); } }
    assert forall|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).$kind is Path implies vnamed(names, ps[i].$api@) by { assert(m.dom().contains(keys[i])); }
}
/// the arguments, in an order of their own
pub open spec fn some_params(oid: Seq<char>, m: Map<Seq<char>, Parameter>, b: Option<RequestBody>, c: Option<Components>, ts: TypeSpace, ps: Seq<OperationParameter>) -> bool { exists|pre: Seq<OperationParameter>| params_are(oid, m, b, c, ts, pre) && #[trigger] pre.to_multiset() == ps.to_multiset() }
pub broadcast proof fn params_kept(oid: Seq<char>, m: Map<Seq<char>, Parameter>, b: Option<RequestBody>, c: Option<Components>, x: TypeSpace, y: TypeSpace, ps: Seq<OperationParameter>) requires #[trigger] some_params(oid, m, b, c, x, ps), #[trigger] y.after(x) ensures some_params(oid, m, b, c, y, ps)
{ broadcast use {param_kept, body_kept}; let pre = choose|pre: Seq<OperationParameter>| params_are(oid, m, b, c, x, pre) && #[trigger] pre.to_multiset() == ps.to_multiset(); assert(params_are(oid, m, b, c, y, pre)); }
pub broadcast proof fn multi_apart(a: Seq<OperationParameter>, b: Seq<OperationParameter>) requires #[trigger] a.to_multiset() == b.to_multiset(), apart(a) ensures #[trigger] apart(b) { apart_kept(a, b); }
"""


def build_G25(src, probe):
    w = start(src, probe, 'G25', S.FMT + S.ORDER + MAPS)
    w.raw('#[verifier::external_body] pub struct TypeId(());\n')
    w.raw(STD)
    w.raw(DOC)
    fields = ', '.join(f'pub {f}: IndexMap<String, ReferenceOr<{k}>>' for k, f in KINDS.items())
    w.raw(REFS.replace('$TYPES', '').replace('$FIELDS', fields))
    w.raw('pub trait ComponentLookup: Sized { spec fn comps(components: Components) -> Map<Seq<char>, ReferenceOr<Self>>; }\n' +
          '\n'.join(f'impl ComponentLookup for {k} {{ open spec fn comps(components: Components) -> Map<Seq<char>, ReferenceOr<Self>> {{ components.{f}@ }} }}' for k, f in KINDS.items()) + '''
/// what a reference leads to (G17)
pub trait ReferenceOrExt<T: ComponentLookup>: Sized { spec fn this(&self) -> ReferenceOr<T>;
  fn item<'a>(&'a self, components: &'a Option<Components>) -> (r: Result<&'a T>) requires resolves(self.this(), *components) ensures r is Ok, *(r->Ok_0) == named(self.this(), *components); }
impl<T: ComponentLookup> ReferenceOrExt<T> for ReferenceOr<T> { open spec fn this(&self) -> ReferenceOr<T> { *self } #[verifier::external_body] fn item<'a>(&'a self, components: &'a Option<Components>) -> Result<&'a T> { unimplemented!() } }
''')
    w.src = src.util
    w.enum('Case', expect=['Pascal', 'Snake'])
    w.src = src
    v = w.enum('BodyContentType', expect=list(BODY_KINDS) + ['Text'])
    if len(v) != 4:
        raise Lost('variants of BodyContentType')
    v = w.enum('OperationParameterKind', expect=['Path', 'Query', 'Header', 'Body'])
    if len(v) != 4:
        raise Lost('variants of OperationParameterKind')
    w.enum('OperationParameterType', expect=['Type', 'RawBody'])
    w.struct('OperationParameter', {'kind': 'OperationParameterKind', 'name': 'name', 'api': 'api_name', 'typ': 'OperationParameterType', 'desc': 'description'})
    w.enum('OperationResponseStatus', expect=['Code', 'Range', 'Default'])
    w.enum('OperationResponseKind', expect=['Type', 'None', 'Raw', 'Upgrade'])
    w.struct('OperationResponse', {'status': 'OperationResponseStatus', 'rtyp': 'OperationResponseKind', 'rdesc': 'description'})
    w.struct('DropshotPagination', {'item': 'TypeId', 'first': 'Vec<String>'})
    hm = w.enum('HttpMethod', expect=[m.capitalize() for m in METHODS])
    if len(hm) != len(METHODS):
        raise Lost('variants of HttpMethod')
    w.struct('OperationMethod', {'oid': 'operation_id', 'tags': 'tags', 'method': 'HttpMethod', 'path': 'PathTemplate', 'summary': 'summary', 'mdesc': 'description', 'params': 'Vec<OperationParameter>',
                                 'responses': 'Vec<OperationResponse>', 'pages': 'Option<DropshotPagination>', 'ws': 'dropshot_websocket'})
    N = w.names
    rep = lambda t: re.sub(r'\$(kind|name|api|typ|desc|status|rtyp|rdesc)\b', lambda m: N[m.group(1)], t)
    srt = SORTED.replace('$kind', N['kind']).replace('$name', N['api']).replace('named(', 'vnamed(')
    w.raw(srt)
    w.raw(rep(WORLD))
    ty = 'BodyContentType'
    w.raw(rep(MODEL).replace('$PRINTED', ', '.join(f'{ty}::{a} => "{b}"@' for a, b in BODY_KINDS.items())).replace('$TEXTS', ' || '.join(f't == "{t}"@' for t in TEXTS)).replace('$KNOWN', ' || '.join(f't == "{t}"@' for t in BODY_KINDS.values())))
    w.raw('impl Shown for BodyContentType { open spec fn shown(&self) -> Seq<char> { printed(*self) } }\n')
    w.raw('pub open spec fn mname(m: HttpMethod) -> Seq<char> { match m { ' + ', '.join(f'HttpMethod::{m.capitalize()} => "{m}"@' for m in METHODS) + ' } }\n')
    w.raw(S.distinct('kinds_differ', list(BODY_KINDS.values()) + TEXTS))
    stop = lambda p, q: 'return vstd::pervasive::unreached()'
    FM = {'format': S.fmt_format, 'todo': stop, 'panic': stop, 'unreachable': stop}
    w.glob_subst += [(r'\bcrate::template::', 'template::'), (r'\btypify::TypeId\b', 'TypeId'), (r'(?:debug_)?assert!\(((?:[^;])*?)\);', r'vp_assert(\1);')]
    w.fn('from_str', C(ens=[('G25.method-name', 'r matches Ok(m) ==> mname(m) == $p0@')], fmt=FM), ty='HttpMethod', trait='FromStr', as_inherent=True)
    w.fn('from_str', C(ens=[('G25.body-kind', "r matches Ok(k) ==> printed(k) == vstr::head($p0@, ';') && (k is Text == is_text(vstr::head($p0@, ';')))")],
                       start="proof { kinds_differ(); vstr::cut_first($p0@, ';'); if !$p0@.contains(';') { assert($p0@.take($p0@.len() as int) =~= $p0@); } assert forall|o: int, n: int, m: int| #[trigger] vstr::at($p0@, o, n) && #[trigger] vstr::at($p0@, o, m) implies n == m by { vstr::at_unique($p0@, o, n, m); } }",
                       subst=SLICE, fmt=FM), ty=ty, trait='FromStr', as_inherent=True)
    # the parameters of a list, resolved
    w.src = src.util
    w.fn('items', C(req=[('G25.references-resolve', 'forall|i: int| 0 <= i < $p0@.len() ==> resolves(#[trigger] $p0@[i], *$p1)')],
                    ens=[('G25.items', 'r@.len() == $p0@.len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) is Ok && *(r@[i]->Ok_0) == named($p0@[i], *$p1)')],
                    closures=[dict(ptypes=["&'a ReferenceOr<T>"], ret="Result<&'a T>", req='resolves(*$c0, *$p1)', ens='cr is Ok && *(cr->Ok_0) == named(*$c0, *$p1)')],
                    subst=ITERS + [(r'impl Iterator<Item = (.*)>$', r'VIter<\1>')]))
    w.fn('parameter_map', C(req=[('G25.references-resolve', 'forall|i: int| 0 <= i < $p0@.len() ==> resolves(#[trigger] $p0@[i], *$p1)')],
                            ens=[('G25.parameter-map', 'r matches Ok(m) && m@ == merged($p0@, *$p1, Map::empty())')],
                            closures=[dict(ptypes=["Result<&'a Parameter>"], ret="Result<(&'a String, &'a Parameter)>", ens='match $c0 { Ok(p) => cr is Ok && cr->Ok_0.0@ == data(*p).name@ && *(cr->Ok_0.1) == *p, Err(_) => cr is Err }'),
                                      dict(params="$c0: &'a Parameter", ret="(&'a String, &'a Parameter)", ens='cr.0@ == data(*$c0).name@ && *(cr.1) == *$c0')],
                            start="proof { assert forall|s: Seq<Result<(&'a String, &'a Parameter)>>| s.len() == $p0@.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok && s[i]->Ok_0.0@ == data(named($p0@[i], *$p1)).name@ && *(s[i]->Ok_0.1) == named($p0@[i], *$p1)) implies #[trigger] vstd2::put(s) == merged($p0@, *$p1, Map::empty()) by { put_merged($p0@, *$p1, s); } }",
                            subst=ITERS))
    w.src = src
    w.fn('schema', C(ens=[('G25.parameter-schema', 'match self.format { ParameterSchemaOrContent::Schema(s) => r matches Ok(x) && *x == s, _ => r is Err }')], fmt=FM), ty='ParameterData', trait='ParameterDataExt', as_inherent=True)
    SUB = ITERS + []
    O, K = '$p0', '*$p1'
    oid = '$p0.operation_id->0@'
    w.fn('get_body_param', C(
        req=[('G25.body-valid', f'valid_body(*{O}, {K})')],
        ens=[('G25.body-there', f'r matches Ok(b) ==> (b is Some) == (body_of(*{O}, {K}) is Some)'),
             ('G25.body', f'r matches Ok(Some(b)) ==> doc_body({oid}, body_of(*{O}, {K})->0, {K}, final(self).type_space, b)'),
             ('G25.types-kept', 'final(self).type_space.after(old(self).type_space) && final(self).uses_websockets == old(self).uses_websockets')],
        closures=[dict(ret='Error', ens='true')],
        start=f'proof {{ reveal(doc_body); spelled({oid}); }}',
        subst=SUB, fmt=FM), ty='Generator')
    all_ = f'all_parameters(*{O}, $p4@, {K})'
    n0, n1, n2 = '(vp_q0.len() - vp_f0@.len())', '(vp_keys.len() - vp_c0@.len())', '(vp_d.len() - vp_c1@.len())'
    ts = 'self.type_space'
    after = f'{ts}.after(vp_ts) && self.uses_websockets == '
    M = '(r->Ok_0)'
    body = f'body_of(*{O}, {K})'
    USE = 'broadcast use {param_kept, body_kept, body_is, response_kept, params_kept, multi_apart, vstd2::ax_order};'
    rset = lambda tag, text: (tag, f'r is Ok ==> {text}')
    w.fn('process_operation', C(
        req=[('G25.operation-valid', f'valid(*{O}, $p2@, $p4@, {K})')],
        ens=[rset('G25.parameters', f'some_params({oid}, {all_}, {body}, {K}, final(self).type_space, {M}.$params@)'),
             rset('G25.argument-order', f'forall|i: int, j: int| 0 <= i < j < {M}.$params@.len() ==> !(pcmp({M}.$params@[i], {M}.$params@[j], template::of($p2@).params()) is Greater)'),
             rset('G25.responses', f'responses_are({oid}, all_responses({O}.responses, {K}), websocket(*{O}), final(self).type_space, {M}.$responses@)'),
             rset('G25.identity', f'{M}.$oid@ == sane({oid}, Case::Snake) && mname({M}.$method) == $p3@ && {M}.$path == template::of($p2@)'),
             rset('G25.tags', f'texts({M}.$tags@) == texts({O}.tags@)'),
             rset('G25.documentation', f'otext({M}.$summary) == told({O}.summary) && otext({M}.$mdesc) == told({O}.description)'),
             rset('G25.websocket', f'{M}.$ws == websocket(*{O})'),
             rset('G25.pages', f'{M}.$pages == pages(final(self).type_space, *{O}, {M}.$params@, {M}.$responses@) && !(websocket(*{O}) && {M}.$pages is Some)'),
             ('G25.websockets-used', f'r is Ok ==> final(self).uses_websockets == (old(self).uses_websockets || websocket(*{O}))'),
             ('G25.types-kept', 'r is Ok ==> final(self).type_space.after(old(self).type_space)')],
        attrs='#[verifier::rlimit(60)]',
        start=f'{USE} proof {{ spelled({oid}); }} let ghost vp_ts = {ts}; let ghost vp_w = self.uses_websockets; let ghost vp_p = {O}.parameters@; let ghost vp_ws = websocket(*{O}); let ghost vp_names = template::of($p2@).params(); let ghost vp_b = {body}; let ghost vp_oid = {oid}; let ghost vp_A = {all_};',
        locals=dict(m=r'let\s+mut\s+(\w+)\s*=\s*parameter_map', ok=r'let\s+mut\s+(\w+)\s*=\s*false', status=r'let \(\s*(\w+),\s*\w+\s*\) = v\?', resp=r'let \(\s*\w+,\s*(\w+)\s*\) = v\?', ps=r'sort_params\(\s*&mut (\w+)', isws=r'let\s+(\w+)\s*=\s*operation\.extensions'),
        closures=[dict(ptypes=['&ReferenceOr<Response>'], ret='Result<(OperationResponseStatus, &Response)>', req=f'resolves(*$c0, {K})', ens=f'cr matches Ok(x) && x.0 is Default && *x.1 == named(*$c0, {K})'),
                  dict(ptypes=['(&StatusCode, &ReferenceOr<Response>)'], ret='Result<(OperationResponseStatus, &Response)>', req=f'resolves(*($c0.1), {K})', ens=f'cr matches Ok(x) && x.0 == code_of(*($c0.0)) && *x.1 == named(*($c0.1), {K})'),
                  dict(ptypes=['(&String, &MediaType)'], ret='Option<&MediaType>', ens='match cr { Some(m) => is_json($c0.0@) && m == $c0.1, None => !is_json($c0.0@) }'),
                  dict(ptypes=['&String'], ret='bool', ens='cr == ($c0@.len() > 0)'),
                  dict(ptypes=['&String'], ret='bool', ens='cr == ($c0@.len() > 0)')],
        loops=[dict(kind='loop', before=f'let ghost vp_q0 = vp_f0@; proof {{ assert(vp_p.take(0) =~= Seq::empty()); }}',
                    inv=[('G25.parameters-left', f'vp_f0@.len() <= vp_q0.len() && vp_f0@ == vp_q0.skip({n0})'),
                         ('G25.parameters-given', f'vp_q0.len() == vp_p.len() && forall|i: int| 0 <= i < vp_q0.len() ==> (#[trigger] vp_q0[i]) is Ok && *(vp_q0[i]->Ok_0) == named(vp_p[i], {K})'),
                         ('G25.merged-so-far', f'$m@ == merged(vp_p.take({n0}), {K}, merged($p4@, {K}, Map::empty()))')],
                    ens=[('G25.all-merged', f'$m@ == merged(vp_p, {K}, merged($p4@, {K}, Map::empty()))')], dec='vp_f0@.len()',
                    body_start=f'proof {{ if vp_f0@.len() > 0 {{ let k = {n0}; assert(vp_f0@[0] == vp_q0[k]); assert(vp_p.take(k + 1).drop_last() =~= vp_p.take(k)); assert(vp_p.take(k + 1).last() == vp_p[k]); assert(vp_f0@.skip(1) =~= vp_q0.skip(k + 1)); }} else {{ assert(vp_p.take({n0}) =~= vp_p); }} }}'),
               dict(kind='loop', before=f'let ghost vp_all = $m@; let ghost vp_keys = order(vp_all.dom()); proof {{ assert(vp_all == vp_A); merged_keys($p4@, {K}, Map::empty()); merged_keys(vp_p, {K}, merged($p4@, {K}, Map::empty())); }}',
                    inv=[('G25.parameters-to-do', f'vp_c0@.len() <= vp_keys.len() && forall|i: int| 0 <= i < vp_c0@.len() ==> **(#[trigger] vp_c0@[i]) == vp_all[vp_keys[{n1} + i]]'),
                         ('G25.parameters-keyed', f'vp_keys == order(vp_all.dom()) && forall|k: Seq<char>| #[trigger] vp_all.dom().contains(k) ==> data(vp_all[k]).name@ == k && (vp_all[k] matches Parameter::Path {{ parameter_data, .. }} ==> parameter_data.required)'),
                         ('G25.arguments-so-far', f'vp_o0@.len() == {n1} && forall|i: int| 0 <= i < vp_o0@.len() ==> doc_param(vp_oid, vp_all[#[trigger] vp_keys[i]], {ts}, vp_o0@[i]) && vp_o0@[i].$api@ == vp_keys[i] && !(vp_o0@[i].$kind is Body) && (vp_o0@[i].$kind is Path ==> vp_all[vp_keys[i]] is Path)'),
                         ('G25.operation', f'{O}.operation_id is Some && vp_oid == {oid} && {O}.operation_id == Some(*operation_id)'),
                         ('G25.types-so-far', after + 'vp_w')],
                    ens=[('G25.all-arguments', 'vp_c0@.len() == 0')], dec='vp_c0@.len()',
                    body_start=f'{USE} let ghost vp_t1 = {ts}; let ghost vp_k = {n1}; proof {{ spelled(vp_oid); if vp_c0@.len() > 0 {{ assert(**vp_c0@[0] == vp_all[vp_keys[vp_k]]); assert(vp_keys.contains(vp_keys[vp_k])); assert(vp_all.dom().contains(vp_keys[vp_k])); }} }}',
                    body_end=f'proof {{ assert({ts}.after(vp_t1)); assert(doc_param(vp_oid, vp_all[vp_keys[vp_k]], {ts}, vp_o0@[vp_k])) by {{ reveal(doc_param); let r = vp_o0@[vp_k]; let p = vp_all[vp_keys[vp_k]]; let x = conv(given(p)->0); let y = Some(type_name(vp_oid, p)); assert(supported(p)); assert(exists|id: TypeId| #[trigger] {ts}.made(id, x, y) && of_type(p, id, {ts}, r)); }} }}',
                    after=f'proof {{ assert forall|ps: Seq<OperationParameter>| fits(vp_A, ps) implies #[trigger] sortable(ps, vp_names) by {{ params_fit(vp_A, ps, vp_names); }} assert forall|ps: Seq<OperationParameter>| fits(vp_A, ps) implies #[trigger] apart(ps) by {{ params_fit(vp_A, ps, vp_names); }} }}'),
               dict(kind='loop', before=f'let ghost vp_d = all_responses({O}.responses, {K}); let ghost vp_t2 = {ts}; proof {{ assert(some_params(vp_oid, vp_A, vp_b, {K}, {ts}, $ps@)); assert(apart($ps@)); assert(vp_c1@.len() == vp_d.len()); assert(vp_d.take(0) =~= Seq::empty()); assert forall|i: int| 0 <= i < vp_d.len() implies asks(#[trigger] vp_c1@[i], vp_d[i]) by {{ }} }}',
                    inv=[('G25.responses-to-do', f'vp_c1@.len() <= vp_d.len() && forall|i: int| 0 <= i < vp_c1@.len() ==> asks(#[trigger] vp_c1@[i], vp_d[{n2} + i])'),
                         ('G25.responses-valid', 'forall|i: int| 0 <= i < vp_d.len() ==> (json_of((#[trigger] vp_d[i]).1.content.ents()) matches Some(m) ==> m.schema is Some && m.encoding.ents().len() == 0)'),
                         ('G25.responses-so-far', f'vp_o1@.len() == {n2} && forall|i: int| 0 <= i < vp_o1@.len() ==> doc_response(vp_oid, (#[trigger] vp_d[i]).0, vp_d[i].1, vp_ws, {ts}, vp_o1@[i])'),
                         ('G25.success-so-far', f'$ok == covered(vp_d.take({n2}))'),
                         ('G25.operation', f'{O}.operation_id is Some && vp_oid == {oid} && $isws == vp_ws'),
                         ('G25.types-so-far', '{ts}.after(vp_t2) && self.uses_websockets == (vp_w || vp_ws)'.replace('{ts}', ts))],
                    ens=[('G25.all-responses', 'vp_c1@.len() == 0 && $ok == covered(vp_d)')], dec='vp_c1@.len()',
                    body_start=f'{USE} let ghost vp_t1 = {ts}; let ghost vp_k = {n2}; proof {{ spelled(vp_oid); if vp_c1@.len() > 0 {{ assert(asks(vp_c1@[0], vp_d[vp_k])); assert(vp_d.take(vp_k + 1).drop_last() =~= vp_d.take(vp_k)); assert(vp_d.take(vp_k + 1).last() == vp_d[vp_k]); let e = vp_d[vp_k].1.content.ents(); first_json(e); }} else {{ assert(vp_d.take({n2}) =~= vp_d); }} }}',
                    body_end=f'proof {{ assert({ts}.after(vp_t1)); assert(doc_response(vp_oid, vp_d[vp_k].0, vp_d[vp_k].1, vp_ws, {ts}, vp_o1@[vp_k])) by {{ reveal(doc_response); }} }}')],
        subst=SUB + [(r'\b(\w+) == ("application/json")', r'vstd2::same(\1, \2)')], fmt=FM), ty='Generator')
    return w


BUILD = {'G25': lambda s, p: done(build_G25(s, p))}
