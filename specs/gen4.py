"""G19: which operations get a paginated stream. G15: the arguments of a generated command."""
import os, re
from vp.weave import Weave, C, lower_for
from vp.rustlex import Src, Lost
from . import gen_stubs as S
from .gen import start, done, status, responses, FORMAT, LIB, METHOD, STATUS
from .template import ITERS

CLI = 'progenitor-impl/src/cli.rs'
FILES = dict(G19=METHOD, G15=CLI)


def load(root, prop):
    f = FILES[prop]
    text = open(os.path.join(root, f)).read()
    s = Src(lower_for(text) if prop == 'G15' else text, f)
    s.method = Src(open(os.path.join(root, METHOD)).read(), METHOD)
    s.lib = Src(open(os.path.join(root, LIB)).read(), LIB)
    return s


# what the generator asks typify about a type
TYPES = r"""
pub mod typify {
use vstd::prelude::*;
use super::*;
#[verifier::external_body] pub struct Error(());
#[verifier::external_body] pub struct TypeEnum(());
#[verifier::external_body] pub struct TypeNewtype(());
#[verifier::external_body] pub struct TypeStruct(());
#[verifier::external_body] pub struct TypeTuple(());
pub enum TypeDetails { Enum(TypeEnum), Struct(TypeStruct), Newtype(TypeNewtype), Option(TypeId), Vec(TypeId), Map(TypeId, TypeId), Set(TypeId), Box(TypeId), Tuple(TypeTuple), Array(TypeId, usize), Builtin(&'static str), Unit, String }
#[verifier::external_body] pub struct Type(());
#[verifier::external_body] pub struct TypeSpace(());
impl Type { pub uninterp spec fn det(&self) -> TypeDetails;
    #[verifier::external_body] pub fn details(&self) -> (r: TypeDetails) ensures r == self.det() { unimplemented!() } }
impl TypeSpace {
    /// the details of the type with this identifier, if there is one
    pub uninterp spec fn det(&self, id: TypeId) -> Option<TypeDetails>;
    #[verifier::external_body] pub fn get_type(&self, id: &TypeId) -> (r: core::result::Result<Type, Error>) ensures match r { Ok(t) => self.det(*id) == Some(t.det()), Err(_) => self.det(*id) is None } { unimplemented!() } }
impl TypeStruct {
    /// names and types of the properties; the names differ
    pub uninterp spec fn props(&self) -> Map<Seq<char>, TypeId>;
    #[verifier::external_body] pub fn properties(&self) -> (r: VIter<(&str, TypeId)>) ensures pairs(r@, self.props()) { unimplemented!() } }
pub open spec fn pairs<V>(s: Seq<(&str, V)>, m: Map<Seq<char>, V>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0@ != s[j].0@) && (forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && m[s[i].0@] == s[i].1) && (forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k) }
}
pub use typify::TypeSpace;
pub mod vbt {
use vstd::prelude::*;
use super::viter::{VIter, VCollect};
use super::typify::pairs;
#[verifier::external_body] #[verifier::accept_recursive_types(V)] #[verifier::reject_recursive_types(K)]
pub struct BTreeMap<K, V>(core::marker::PhantomData<(K, V)>);
impl<'a, V> View for BTreeMap<&'a str, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<'a, V> BTreeMap<&'a str, V> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
}
impl<'a, V> VCollect<(&'a str, V)> for BTreeMap<&'a str, V> { open spec fn collected(s: Seq<(&'a str, V)>, r: Self) -> bool { forall|m: Map<Seq<char>, V>| #[trigger] pairs(s, m) ==> m == r@ } }
}
use vbt::BTreeMap;
pub struct Generator { pub type_space: TypeSpace }
"""

PAGES = r"""
pub mod openapiv3 { pub use super::Operation; }
#[verifier::external_body] pub struct Value(());
pub mod vext { use vstd::prelude::*; use super::Value;
#[verifier::external_body] pub struct Extensions(());
impl View for Extensions { type V = Map<Seq<char>, Value>; uninterp spec fn view(&self) -> Map<Seq<char>, Value>; }
impl Extensions {
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() } }
/// the `required` list of an extension, empty where it has none
pub uninterp spec fn required_of(v: Value) -> Seq<String>;
#[verifier::external_body] pub fn required(v: &Value) -> (r: Vec<String>) ensures r@ == required_of(*v) { unimplemented!() }
}
pub struct Operation { pub extensions: vext::Extensions }
impl PartialEq for OperationParameterType { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for OperationParameterType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
pub open spec fn opt_query(p: OperationParameter, n: Seq<char>) -> bool { p.$name@ == n && p.$kind == OperationParameterKind::Query(false) }
pub open spec fn has_query(ps: Seq<OperationParameter>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < ps.len() && opt_query(#[trigger] ps[i], n) }
pub open spec fn apart(ps: Seq<OperationParameter>) -> bool { forall|i: int, j: int| 0 <= i < j < ps.len() && (#[trigger] ps[i]).$kind is Query && (#[trigger] ps[j]).$kind is Query ==> ps[i].$name@ != ps[j].$name@ }
pub open spec fn token_or_limit(p: OperationParameter) -> bool { opt_query(p, "page_token"@) || opt_query(p, "limit"@) }
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
pub broadcast proof fn both_there(ps: Seq<OperationParameter>, a: Seq<bool>)
    requires a.len() == ps.len(), apart(ps), forall|i: int| 0 <= i < ps.len() ==> #[trigger] a[i] == token_or_limit(ps[i])
    ensures #[trigger] keep(srefs(ps), a).len() == one(has_query(ps, "page_token"@)) + one(has_query(ps, "limit"@))
    decreases ps.len()
{
    reveal_strlit("page_token"); reveal_strlit("limit");
    assert("page_token"@.len() != "limit"@.len());
    both_upto(ps, a, ps.len() as int);
    assert(ps.take(ps.len() as int) =~= ps); assert(srefs(ps).take(ps.len() as int) =~= srefs(ps));
}
proof fn both_upto(ps: Seq<OperationParameter>, a: Seq<bool>, n: int)
    requires 0 <= n <= ps.len(), "page_token"@ != "limit"@, a.len() == ps.len(), apart(ps), forall|i: int| 0 <= i < ps.len() ==> #[trigger] a[i] == token_or_limit(ps[i])
    ensures keep(srefs(ps).take(n), a).len() == one(has_query(ps.take(n), "page_token"@)) + one(has_query(ps.take(n), "limit"@))
    decreases n
{
    if n > 0 {
        both_upto(ps, a, n - 1);
        let s = ps.take(n - 1); let t = ps.take(n);
        assert(srefs(ps).take(n).drop_last() =~= srefs(ps).take(n - 1));
        assert forall|x: Seq<char>| #[trigger] has_query(t, x) == (has_query(s, x) || opt_query(ps[n - 1], x)) && !(has_query(s, x) && opt_query(ps[n - 1], x)) by {
            if has_query(s, x) { let i = choose|i: int| 0 <= i < s.len() && opt_query(#[trigger] s[i], x); assert(t[i] == s[i]); assert(ps[i] == s[i] && ps[i].$kind is Query); }
            if opt_query(ps[n - 1], x) { assert(t[n - 1] == ps[n - 1]); }
            if has_query(t, x) { let i = choose|i: int| 0 <= i < t.len() && opt_query(#[trigger] t[i], x); if i < n - 1 { assert(s[i] == t[i]); } }
        }
        assert(has_query(t, "page_token"@) == (has_query(s, "page_token"@) || opt_query(ps[n - 1], "page_token"@)));
        assert(has_query(t, "limit"@) == (has_query(s, "limit"@) || opt_query(ps[n - 1], "limit"@)));
    }
}
pub open spec fn typed_success(r: OperationResponse) -> Option<TypeId> {
    match r.$typ { OperationResponseKind::Type(id) => match r.$status { OperationResponseStatus::Code(c) => if 200 <= c <= 299 { Some(id) } else { None }, OperationResponseStatus::Range(g) => if g == 2 { Some(id) } else { None }, OperationResponseStatus::Default => None }, _ => None } }
pub open spec fn typed(rs: Seq<OperationResponse>) -> Seq<TypeId> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { match typed_success(rs.last()) { Some(t) => typed(rs.drop_last()).push(t), None => typed(rs.drop_last()) } } }
pub broadcast proof fn flat_typed(o: Seq<Option<&TypeId>>, rs: Seq<OperationResponse>)
    requires o.len() == rs.len(), forall|i: int| 0 <= i < rs.len() ==> match #[trigger] o[i] { Some(x) => typed_success(rs[i]) == Some(*x), None => typed_success(rs[i]) is None }
    ensures #[trigger] flat(o).len() == (#[trigger] typed(rs)).len(), forall|i: int| 0 <= i < flat(o).len() ==> *(#[trigger] flat(o)[i]) == typed(rs)[i]
    decreases rs.len()
{
    if rs.len() > 0 {
        let o0 = o.drop_last(); let r0 = rs.drop_last();
        assert forall|i: int| 0 <= i < r0.len() implies match #[trigger] o0[i] { Some(x) => typed_success(r0[i]) == Some(*x), None => typed_success(r0[i]) is None } by { assert(o[i] == o0[i] && rs[i] == r0[i]); }
        flat_typed(o0, r0);
        assert(o[o.len() - 1] == o.last());
    }
}
/// the item type of a page: a structure of exactly a list of items and an optional text token
pub open spec fn page_item(ts: TypeSpace, id: TypeId) -> Option<TypeId> {
    match ts.det(id) {
        Some(typify::TypeDetails::Struct(s)) =>
            if s.props().dom().len() == 2 && s.props().dom().contains("items"@) && s.props().dom().contains("next_page"@) {
                match (ts.det(s.props()["items"@]), ts.det(s.props()["next_page"@])) {
                    (Some(typify::TypeDetails::Vec(item)), Some(typify::TypeDetails::Option(token))) => if ts.det(token) == Some(typify::TypeDetails::String) { Some(item) } else { None },
                    _ => None,
                }
            } else { None },
        _ => None,
    }
}
pub open spec fn paginated(ts: TypeSpace, o: Operation, ps: Seq<OperationParameter>, rs: Seq<OperationResponse>) -> bool {
    &&& o.extensions@.dom().contains("x-dropshot-pagination"@)
    &&& has_query(ps, "page_token"@) && has_query(ps, "limit"@)
    &&& forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).$kind != OperationParameterKind::Query(true)
    &&& forall|i: int| 0 <= i < ps.len() ==> !((#[trigger] ps[i]).$ptyp is RawBody)
    &&& typed(rs).len() == 1
    &&& page_item(ts, typed(rs)[0]) is Some
}
"""


def build_G19(src, probe):
    w = start(src, probe, 'G19')
    w.raw('#[verifier::external_body] pub struct TypeId(());\n')
    w.enum('BodyContentType')
    w.enum('OperationParameterKind', expect=['Path', 'Query', 'Header', 'Body'])
    w.enum('OperationParameterType', expect=['Type', 'RawBody'])
    w.struct('OperationParameter', {'kind': 'OperationParameterKind', 'name': 'api_name', 'ptyp': 'OperationParameterType'})
    w.enum('OperationResponseStatus', expect=['Code', 'Range', 'Default'])
    w.enum('OperationResponseKind', expect=['Type', 'None', 'Raw', 'Upgrade'])
    w.struct('OperationResponse', {'status': 'OperationResponseStatus', 'typ': 'OperationResponseKind'})
    w.struct('DropshotPagination', {'item': 'TypeId', 'first': 'Vec<String>'})
    t = TYPES + PAGES
    for k in ('status', 'ptyp', 'typ', 'kind', 'name'):
        t = t.replace('$' + k, w.names[k])
    w.raw(t)
    P, R = '&OperationParameter', '&OperationResponse'
    w.fn('dropshot_pagination_data', C(
        req=[('G19.query-names-differ', 'apart($p1@)')],
        ens=[('G19.stream-exists', 'r is Some == paginated(self.type_space, *$p0, $p1@, $p2@)'),
             ('G19.item-type', 'r matches Some(d) ==> page_item(self.type_space, typed($p2@)[0]) == Some(d.$item)'),
             ('G19.first-page-parameters', 'r matches Some(d) ==> d.$first@ == vext::required_of($p0.extensions@["x-dropshot-pagination"@])')],
        start='broadcast use {both_there, flat_typed}; proof { reveal_strlit("page_token"); reveal_strlit("limit"); reveal_strlit("items"); reveal_strlit("next_page"); }',
        closures=[dict(ptypes=['&' + P], ret='bool', ens='cr == token_or_limit(**$c0)'),
                  dict(ptypes=[P], ret='bool', ens='cr == ($c0.$kind != OperationParameterKind::Query(true))'),
                  dict(ptypes=[P], ret='bool', ens='cr == ($c0.$ptyp is RawBody)'),
                  dict(ptypes=[R], ret='Option<&TypeId>', ens='match cr { Some(x) => typed_success(*$c0) == Some(*x), None => typed_success(*$c0) is None }')],
        subst=ITERS + [(r'struct\s+\w+\s*\{\s*required\s*:\s*Vec<String>\s*,?\s*\}', ''),
                       (r'serde_json::from_value::<\w+>\(\s*(\w+)\.clone\(\)\s*\)\s*\.unwrap_or_default\(\)\s*\.required', r'vext::required(\1)'),
                       (r'=> !(\w+)\b', r'=> !*\1')]), ty='Generator')
    return done(w)


# ---------------------------------------------------------------------------------------------
CLITYPES = r"""
pub mod typify {
use vstd::prelude::*;
use super::*;
#[verifier::external_body] #[derive(Debug)] pub struct Error(());
#[verifier::external_body] pub struct TypeEnum(());
#[verifier::external_body] pub struct TypeNewtype(());
#[verifier::external_body] pub struct TypeStruct(());
#[verifier::external_body] pub struct TypeTuple(());
pub enum TypeDetails { Enum(TypeEnum), Struct(TypeStruct), Newtype(TypeNewtype), Option(TypeId), Vec(TypeId), Map(TypeId, TypeId), Set(TypeId), Box(TypeId), Tuple(TypeTuple), Array(TypeId, usize), Builtin(&'static str), Unit, String }
pub enum TypeSpaceImpl { FromStr, FromStringIrrefutable, Display, Default }
#[verifier::external_body] pub struct Type(());
#[verifier::external_body] pub struct TypeSpace(());
impl Type { pub uninterp spec fn det(&self) -> TypeDetails;
    pub uninterp spec fn implements(&self, i: TypeSpaceImpl) -> bool;
    #[verifier::external_body] pub fn details(&self) -> (r: TypeDetails) ensures r == self.det() { unimplemented!() }
    #[verifier::external_body] pub fn ident(&self) -> (r: TokenStream) { unimplemented!() }
    #[verifier::external_body] pub fn has_impl(&self, i: TypeSpaceImpl) -> (r: bool) ensures r == self.implements(i) { unimplemented!() } }
impl TypeSpace {
    /// the type with this identifier, if there is one
    pub uninterp spec fn typ(&self, id: TypeId) -> Option<Type>;
    #[verifier::external_body] pub fn get_type(&self, id: &TypeId) -> (r: core::result::Result<Type, Error>) ensures match r { Ok(t) => self.typ(*id) == Some(t), Err(_) => self.typ(*id) is None } { unimplemented!() } }
pub struct TypeStructPropInfo<'a> { pub name: &'a str, pub description: Option<&'a str>, pub required: bool, pub type_id: TypeId }
impl TypeStruct {
    pub uninterp spec fn infos(&self) -> Seq<Prop>;
    #[verifier::external_body] pub fn properties_info(&self) -> (r: VIter<TypeStructPropInfo<'_>>) ensures r@.len() == self.infos().len(), forall|i: int| 0 <= i < r@.len() ==> prop_of(#[trigger] r@[i]) == self.infos()[i] { unimplemented!() } }
}
pub use typify::{TypeSpace, Type, TypeStructPropInfo, TypeSpaceImpl};
pub struct Prop { pub name: Seq<char>, pub description: Option<Seq<char>>, pub required: bool, pub type_id: TypeId }
pub open spec fn prop_of(p: TypeStructPropInfo<'_>) -> Prop { Prop { name: p.name@, description: match p.description { Some(d) => Some(d@), None => None }, required: p.required, type_id: p.type_id } }
pub mod vcli {
use vstd::prelude::*;
use super::*;
/// heck's conversion to kebab case
pub uninterp spec fn kebab(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn to_kebab(s: &str) -> (r: String) ensures r@ == kebab(s@) { unimplemented!() }
#[verifier::external_body] pub fn sanitize(s: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn listed(v: &Vec<String>, x: &String) -> (r: bool) ensures r == names(v@).contains(x@) { unimplemented!() }
pub open spec fn names(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn otext(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
#[verifier::external_body] pub fn owned(s: Option<&str>) -> (r: Option<String>) ensures match s { Some(s) => otext(r) == Some(s@), None => r is None } { unimplemented!() }
#[verifier::external_body] pub fn map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> (r: U) requires o matches Some(x) ==> f.requires((x,)) ensures match o { Some(x) => f.ensures((x,), r), None => r == d } { unimplemented!() }
#[verifier::external_body] pub fn is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> (r: bool) requires o matches Some(x) ==> f.requires((x,)) ensures match o { Some(x) => f.ensures((x,), r), None => !r } { unimplemented!() }
pub fn vp_assert(b: bool) requires b {}
/// a map in the order of its keys: which order is the keys' affair
#[verifier::external_body] #[verifier::accept_recursive_types(V)] #[verifier::reject_recursive_types(K)]
pub struct BTreeMap<K, V>(core::marker::PhantomData<(K, V)>);
impl<V> View for BTreeMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
pub uninterp spec fn order(d: Set<Seq<char>>) -> Seq<Seq<char>>;
pub broadcast axiom fn ax_order(d: Set<Seq<char>>, i: int) requires 0 <= i < order(d).len() ensures d.contains(#[trigger] order(d)[i]);
impl<V> BTreeMap<String, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn values(&self) -> (r: VIter<&V>) ensures r@.len() == order(self@.dom()).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[order(self@.dom())[i]] { unimplemented!() }
}
}
use vcli::{BTreeMap, kebab, otext, order, vp_assert};
pub struct Generator { pub type_space: TypeSpace }
"""

CLIARGS = r"""
impl CliOperationArgs { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.$args@ == Map::<Seq<char>, CliArg>::empty(), r.$body is None { unimplemented!() } }
/// the text of one argument is a function of its name, whether it must be given, its description and its type
pub uninterp spec fn clap(name: Seq<char>, v: Volitionality, d: Option<Seq<char>>, t: Type) -> int;
#[verifier::external_body]
pub fn clap_arg(arg_name: &str, volitionality: Volitionality, description: &Option<String>, arg_type: &Type) -> (r: TokenStream) ensures r@ == seq![Tok::Other(clap(arg_name@, volitionality, otext(*description), *arg_type))] { unimplemented!() }
pub type Texts = Map<Seq<char>, Seq<Tok>>;
pub open spec fn texts(m: Map<Seq<char>, CliArg>) -> Texts { m.map_values(|a: CliArg| a.$parser@) }
pub open spec fn arg(name: Seq<char>, v: Volitionality, d: Option<Seq<char>>, t: Type) -> Seq<Tok> { seq![Tok::Other(clap(name, v, d, t))] }
// ---- parameters: one argument each, by name; the body has none, and neither has the token of a paginated operation
pub open spec fn has_argument(p: OperationParameter, pg: Option<DropshotPagination>) -> bool { !(p.$kind is Body) && !(pg is Some && p.$name@ == "page_token"@) }
pub open spec fn needed(p: OperationParameter, pg: Option<DropshotPagination>) -> bool {
    (match p.$kind { OperationParameterKind::Path => true, OperationParameterKind::Query(r) => r, OperationParameterKind::Header(r) => r, OperationParameterKind::Body(_) => false })
    || (match pg { Some(d) => vcli::names(d.$first@).contains(p.$api@), None => false }) }
pub open spec fn type_of(ts: TypeSpace, p: OperationParameter) -> Type { match p.$ptyp { OperationParameterType::Type(id) => ts.typ(id)->0, _ => arbitrary() } }
pub open spec fn param_args(ts: TypeSpace, ps: Seq<OperationParameter>, pg: Option<DropshotPagination>) -> Texts decreases ps.len() {
    if ps.len() == 0 { Map::empty() } else { let m = param_args(ts, ps.drop_last(), pg); let p = ps.last();
        if has_argument(p, pg) { m.insert(kebab(p.$name@), arg(kebab(p.$name@), if needed(p, pg) { Volitionality::Required } else { Volitionality::Optional }, otext(p.$desc), type_of(ts, p))) } else { m } } }
pub proof fn only_params(ts: TypeSpace, ps: Seq<OperationParameter>, pg: Option<DropshotPagination>, k: Seq<char>) requires param_args(ts, ps, pg).dom().contains(k)
    ensures exists|i: int| 0 <= i < ps.len() && has_argument(ps[i], pg) && kebab((#[trigger] ps[i]).$name@) == k decreases ps.len()
{ if ps.len() > 0 { let p = ps.last(); if has_argument(p, pg) && kebab(p.$name@) == k { assert(ps[ps.len() - 1] == p); } else { only_params(ts, ps.drop_last(), pg, k); let i = choose|i: int| 0 <= i < ps.len() - 1 && has_argument(ps.drop_last()[i], pg) && kebab((#[trigger] ps.drop_last()[i]).$name@) == k; assert(ps[i] == ps.drop_last()[i]); } } }
// ---- body properties: an argument where it can be one and the name is free; else a required one makes the whole body required
pub open spec fn inner(ts: TypeSpace, t: Type) -> Type { match t.det() { typify::TypeDetails::Option(id) => ts.typ(id)->0, _ => t } }
pub open spec fn known(ts: TypeSpace, id: TypeId) -> bool { match ts.typ(id) { Some(t) => (t.det() matches typify::TypeDetails::Option(i) ==> ts.typ(i) is Some), None => false } }
pub open spec fn body_step(ts: TypeSpace, st: (Texts, CliBodyArg), p: Prop) -> (Texts, CliBodyArg) {
    let t = inner(ts, ts.typ(p.type_id)->0);
    if t.implements(TypeSpaceImpl::FromStr) && !st.0.dom().contains(kebab(p.name)) {
        (st.0.insert(kebab(p.name), arg(kebab(p.name), if p.required { Volitionality::RequiredIfNoBody } else { Volitionality::Optional }, p.description, t)), st.1)
    } else if p.required { (st.0, CliBodyArg::Required) } else { st } }
pub open spec fn body_steps(ts: TypeSpace, st: (Texts, CliBodyArg), ps: Seq<Prop>) -> (Texts, CliBodyArg) decreases ps.len() { if ps.len() == 0 { st } else { body_step(ts, body_steps(ts, st, ps.drop_last()), ps.last()) } }
/// where the first body parameter is; past the end if there is none
pub open spec fn body_at(ps: Seq<OperationParameter>) -> int decreases ps.len() { if ps.len() == 0 || ps[0].$kind is Body { 0 } else { 1 + body_at(ps.skip(1)) } }
pub proof fn body_first(ps: Seq<OperationParameter>) ensures 0 <= body_at(ps) <= ps.len(), forall|i: int| 0 <= i < body_at(ps) ==> !((#[trigger] ps[i]).$kind is Body), body_at(ps) < ps.len() ==> ps[body_at(ps)].$kind is Body decreases ps.len()
{ if ps.len() > 0 && !(ps[0].$kind is Body) { let t = ps.skip(1); body_first(t); assert forall|i: int| 0 <= i < body_at(ps) implies !((#[trigger] ps[i]).$kind is Body) by { if i > 0 { assert(t[i - 1] == ps[i]); } } if body_at(t) < t.len() { assert(ps[body_at(ps)] == t[body_at(t)]); } } }
pub open spec fn first_body(ps: Seq<OperationParameter>) -> Option<OperationParameter> { if body_at(ps) < ps.len() { Some(ps[body_at(ps)]) } else { None } }
pub open spec fn typed_body(ps: Seq<OperationParameter>) -> Option<TypeId> { match first_body(ps) { Some(p) => match p.$ptyp { OperationParameterType::Type(id) => Some(id), _ => None }, None => None } }
/// the arguments of a command and what becomes of the whole-body option
pub open spec fn command(ts: TypeSpace, ps: Seq<OperationParameter>, pg: Option<DropshotPagination>) -> (Texts, CliBodyArg) {
    let m = param_args(ts, ps, pg);
    match typed_body(ps) { None => (m, CliBodyArg::None), Some(id) => match ts.typ(id)->0.det() { typify::TypeDetails::Struct(s) => body_steps(ts, (m, CliBodyArg::Optional), s.infos()), _ => (m, CliBodyArg::Required) } } }
pub open spec fn usable(ts: TypeSpace, ps: Seq<OperationParameter>, pg: Option<DropshotPagination>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() && has_argument(ps[i], pg) ==> (#[trigger] ps[i]).$ptyp is Type
    &&& forall|i: int, id: TypeId| 0 <= i < ps.len() && #[trigger] ps[i].$ptyp == OperationParameterType::Type(id) ==> (#[trigger] ts.typ(id)) is Some
    &&& forall|i: int, j: int| 0 <= i < j < ps.len() && has_argument(ps[i], pg) && has_argument(ps[j], pg) ==> kebab((#[trigger] ps[i]).$name@) != kebab((#[trigger] ps[j]).$name@)
    &&& typed_body(ps) matches Some(id) ==> (ts.typ(id)->0.det() matches typify::TypeDetails::Struct(s) ==> forall|i: int| 0 <= i < s.infos().len() ==> known(ts, (#[trigger] s.infos()[i]).type_id)) }
// ---- the generated text, reduced to its arguments and flags
pub open spec fn tells(t: Tok) -> bool { t is Bool || t is Other }
pub open spec fn told(s: Seq<Tok>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else if tells(s.last()) { told(s.drop_last()).push(s.last()) } else { told(s.drop_last()) } }
pub broadcast proof fn told_push(s: Seq<Tok>, t: Tok) ensures #[trigger] told(s.push(t)) == (if tells(t) { told(s).push(t) } else { told(s) }) { assert(s.push(t).drop_last() =~= s); }
pub broadcast proof fn told_add(a: Seq<Tok>, b: Seq<Tok>) ensures #[trigger] told(a + b) == told(a) + told(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(told(a) + told(b) =~= told(a)); } else { told_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(told(a) + told(b.drop_last()).push(b.last()) =~= (told(a) + told(b.drop_last())).push(b.last())); } }
pub open spec fn all_told(s: Seq<Seq<Tok>>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { all_told(s.drop_last()) + told(s.last()) } }
pub broadcast proof fn told_joined2(s: Seq<Seq<Tok>>, before: Seq<char>, after: Seq<char>, sep: Seq<char>) ensures #[trigger] told(vq::joined2(s, before, after, sep)) == all_told(s) decreases s.len()
{ if s.len() > 0 { told_joined2(s.drop_last(), before, after, sep); let p = vq::joined2(s.drop_last(), before, after, sep); let q = if s.len() > 1 && sep.len() > 0 { p.push(Tok::Lit(sep)) } else { p };
  told_push(p, Tok::Lit(sep)); told_push(q, Tok::Lit(before)); told_add(q.push(Tok::Lit(before)), s.last()); told_push(q.push(Tok::Lit(before)) + s.last(), Tok::Lit(after)); } }
pub open spec fn in_order(m: Texts) -> Seq<Seq<Tok>> { order(m.dom()).map_values(|k: Seq<char>| m[k]) }
pub open spec fn flag(b: CliBodyArg) -> Seq<Tok> { match b { CliBodyArg::None => Seq::empty(), CliBodyArg::Required => seq![Tok::Bool(true)], CliBodyArg::Optional => seq![Tok::Bool(false)] } }
pub broadcast proof fn same_items(s: Seq<&TokenStream>, m: Texts) requires s.len() == order(m.dom()).len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == m[order(m.dom())[i]]
    ensures all_told(#[trigger] vq::toks(s)) == all_told(#[trigger] in_order(m)) { assert(vq::toks(s) =~= in_order(m)); }
pub broadcast proof fn same_domain(m: Map<Seq<char>, CliArg>) ensures #[trigger] texts(m).dom() == m.dom() { assert(texts(m).dom() =~= m.dom()); }
pub open spec fn told_command(c: (Texts, CliBodyArg)) -> Seq<Tok> { all_told(in_order(c.0)) + flag(c.1) }
"""


def build_G15(src, probe):
    w = start(src, probe, 'G15')
    w.raw('#[verifier::external_body] pub struct TypeId(());\n')
    w.src = src.method
    w.enum('BodyContentType')
    w.enum('OperationParameterKind', expect=['Path', 'Query', 'Header', 'Body'])
    w.enum('OperationParameterType', expect=['Type', 'RawBody'])
    w.struct('OperationParameter', {'kind': 'OperationParameterKind', 'name': 'name', 'api': 'api_name', 'ptyp': 'OperationParameterType', 'desc': 'description'})
    w.struct('DropshotPagination', {'item': 'TypeId', 'first': 'Vec<String>'})
    w.struct('OperationMethod', {'params': 'Vec<OperationParameter>', 'pg': 'Option<DropshotPagination>'}, keep_fields=('params', 'dropshot_paginated'))
    w.src = src
    w.raw(CLITYPES)
    w.enum('Volitionality', expect=['Optional', 'Required', 'RequiredIfNoBody'])
    w.enum('CliBodyArg', attrs='#[derive(PartialEq, Eq, Structural)]', expect=['None', 'Required', 'Optional'])
    w.struct('CliArg', {'parser': 'parser', 'consumer': 'consumer'})
    w.struct('CliOperationArgs', {'args': 'BTreeMap<String,CliArg>', 'body': 'CliBodyArg'})
    w.raw(re.sub(r'\$(\w+)', lambda m: w.names[m.group(1)], CLIARGS))
    w.glob_subst += [(r'\bcrate::method::', ''), (r'assert_eq!\(\s*([^;,]*?),\s*([^;,]*?),?\s*\);', r'vp_assert(\1 == \2);'), (r'assert!\(((?:[^;])*?)\);', r'vp_assert(\1);'),
                     (r'\b(unreachable|panic)!\([^()]*\)', 'return vstd::pervasive::unreached()'), (r'#\[default\]', '')]
    A, B = '$args@', '$body'
    st = lambda x: f'(texts({x}.{A}), {x}.{B})'
    w.fn('has_arg', C(ens=[('G15.has-argument', f'r == self.{A}.dom().contains($p0@)')], subst=[(r'contains_key\((\w+)\)', r'contains_key(\1)')]), ty='CliOperationArgs')
    w.fn('add_arg', C(ens=[('G15.argument-added', f'!old(self).{A}.dom().contains($p0@) ==> final(self).{A} == old(self).{A}.insert($p0@, $p1)'), ('G15.body-unchanged', f'final(self).{B} == old(self).{B}')]), ty='CliOperationArgs')
    w.fn('body_present', C(req=[('G15.body-once', f'old(self).{B} is None')], ens=[('G15.body-optional', f'final(self).{A} == old(self).{A} && final(self).{B} is Optional')]), ty='CliOperationArgs')
    w.fn('body_required', C(req=[('G15.body-there', f'!(old(self).{B} is None)')], ens=[('G15.body-required', f'final(self).{A} == old(self).{A} && final(self).{B} is Required')]), ty='CliOperationArgs')
    SUB = ITERS + [(r'\b(\w+(?:\.\w+)*)\.to_kebab_case\(\)', r'vcli::to_kebab(&\1)'), (r'\bsanitize\(&?([\w.]+), Case::Snake\)', r'vcli::sanitize(&\1)'), (r'&(\w+)\.map\(str::to_string\)', r'&vcli::owned(\1)'),
           (r'\b(\w+)\s*\.map_or\(', r'vcli::map_or(\1, '), (r'\b(\w+)\s*\.is_some_and\(', r'vcli::is_some_and(\1, '), (r'\b(\w+)\.contains\(&(\w+\.\w+)\)', r'vcli::listed(\1, &\2)'),
           (r'([\w.]+)\.as_str\(\) == ("\w+")', r'vcli::same(\1.as_str(), \2)')]
    w.fn('cli_method_body_arg', C(
        req=[('G15.body-before-properties', f'!(old($p0).{B} is None)'), ('G15.types-known', 'known(self.type_space, $p1.type_id)')],
        ens=[('G15.property', f'{st("final($p0)")} == body_step(self.type_space, {st("old($p0)")}, prop_of($p1))'.replace('(final($p0).', '(final($p0).'))],
        start=f'let ghost vp_old = *$p0; assert forall|k: Seq<char>, a: CliArg| #[trigger] texts(vp_old.{A}.insert(k, a)) == texts(vp_old.{A}).insert(k, a.$parser@) by {{ assert(texts(vp_old.{A}.insert(k, a)) =~= texts(vp_old.{A}).insert(k, a.$parser@)); }}',
        subst=SUB, quote=True, fmt={'format_ident': S.fmt_ident}), ty='Generator')
    P = '$p0.$params@'
    n = f'({P}.len() - vp_f0@.len())'
    n1 = '(vp_ps.len() - vp_f1@.len())'
    pg = '$p0.$pg'
    ts = 'self.type_space'
    w.fn('cli_method_args', C(
        req=[('G15.parameters-usable', f'usable({ts}, {P}, {pg})')],
        ens=[('G15.command', f'told(r.$parser@) == told_command(command({ts}, {P}, {pg}))')],
        attrs='#[verifier::rlimit(60)] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
        start='broadcast use {told_push, told_add, told_joined2, same_items, same_domain, vcli::ax_order}; proof { reveal_strlit("page_token"); body_first($p0.$params@); } let ghost vp_ps = match typed_body($p0.$params@) { Some(id) => (match self.type_space.typ(id)->0.det() { typify::TypeDetails::Struct(s) => s.infos(), _ => Seq::empty() }), None => Seq::empty() };',
        locals=dict(a=r'let\s+mut\s+(\w+)\s*=\s*CliOperationArgs::default', s=r'TypeDetails::Struct\(\s*(\w+)\s*\)'),
        closures=[dict(ret='&Vec<String>', ens='*cr == $c0.$first'), dict(ret='bool', ens='cr == vcli::names($c0@).contains(param.$api@)'),
                  dict(ptypes=['&&OperationParameter'], ret='bool', ens='cr == ($c0.$kind is Body)'),
                  dict(ptypes=['&OperationParameter'], ret='Option<&TypeId>', ens='match cr { Some(x) => $c0.$ptyp == OperationParameterType::Type(*x), None => $c0.$ptyp is RawBody }'),
                  dict(ptypes=['&CliArg'], ret='&TokenStream', ens='*cr == $c0.$parser'),
                  dict(ret='TokenStream', ens='told(cr@) == seq![Tok::Bool($c0)]'),
                  dict(ptypes=['&CliArg'], ret='&TokenStream', ens='true'),
                  dict(ptypes=['&TypeId'], ret='TokenStream', req=f'{ts}.typ(*$c0) is Some', ens='true')],
        loops=[dict(kind='loop',
                    inv=[('G15.parameters-left', f'vp_f0@.len() <= {P}.len() && forall|i: int| 0 <= i < vp_f0@.len() ==> *(#[trigger] vp_f0@[i]) == {P}[{n} + i]'),
                         ('G15.arguments-so-far', f'texts($a.{A}) == param_args({ts}, {P}.take({n}), {pg}) && $a.{B} is None')],
                    ens=[('G15.no-parameter-left', 'vp_f0@.len() == 0')],
                    dec='vp_f0@.len()',
                    before=f'proof {{ assert({P}.take(0) =~= Seq::empty()); assert(texts($a.{A}) =~= Map::empty()); }}',
                    body_start=f'proof {{ if vp_f0@.len() > 0 {{ let k = {n}; let t = {P}.take(k); assert(*vp_f0@[0] == {P}[k]); assert({P}.take(k + 1).drop_last() =~= t); assert({P}.take(k + 1).last() == {P}[k]); '
                               f'if has_argument({P}[k], {pg}) && param_args({ts}, t, {pg}).dom().contains(kebab({P}[k].$name@)) {{ only_params({ts}, t, {pg}, kebab({P}[k].$name@)); let i = choose|i: int| 0 <= i < t.len() && has_argument(t[i], {pg}) && kebab((#[trigger] t[i]).$name@) == kebab({P}[k].$name@); assert({P}[i] == t[i]); }} '
                               f'assert forall|x: Seq<char>, a: CliArg| #[trigger] texts($a.{A}.insert(x, a)) == texts($a.{A}).insert(x, a.$parser@) by {{ assert(texts($a.{A}.insert(x, a)) =~= texts($a.{A}).insert(x, a.$parser@)); }} '
                               f'}} else {{ assert({P}.take({n}) =~= {P}); }} }}'),
               dict(kind='loop',
                    before='let ghost vp_m = texts($a.$args@); proof { assert(vp_ps == $s.infos()); assert(vp_ps.take(0) =~= Seq::empty()); }',
                    inv=[('G15.properties-left', f'vp_f1@.len() <= vp_ps.len() && forall|i: int| 0 <= i < vp_f1@.len() ==> prop_of(#[trigger] vp_f1@[i]) == vp_ps[{n1} + i]'),
                         ('G15.body-so-far', f'(texts($a.{A}), $a.{B}) == body_steps({ts}, (vp_m, CliBodyArg::Optional), vp_ps.take({n1})) && !($a.{B} is None)')],
                    ens=[('G15.no-property-left', 'vp_f1@.len() == 0')],
                    dec='vp_f1@.len()',
                    body_start=f'proof {{ if vp_f1@.len() > 0 {{ let k = {n1}; assert(prop_of(vp_f1@[0]) == vp_ps[k]); assert(vp_ps.take(k + 1).drop_last() =~= vp_ps.take(k)); assert(vp_ps.take(k + 1).last() == vp_ps[k]); }} else {{ assert(vp_ps.take({n1}) =~= vp_ps); }} }}')],
        subst=SUB, quote=True, fmt={'format_ident': S.fmt_ident}), ty='Generator')
    return done(w)


BUILD = {'G19': build_G19, 'G15': build_G15}
