"""G20, G21: every method of clients generated by the real generator, for all argument values."""
import os, re, sys
from vp.weave import Weave, C, find_closures
from vp.rustlex import Src, Lost, lex, norm, base
import native as NV
from native.gencode import docs, model, runner

FILES = dict(G20='progenitor-impl/src/method.rs', G21='progenitor-impl/src/method.rs')
WHICH = {'G20': ('main', 'hook', 'pre_p', 'post_b', 'sock', 'rand', 'page'), 'G21': ('main_b', 'main_s', 'hooki_b', 'rand', 'page_b')}
NOTE = dict.fromkeys(FILES, 'The methods under contract are those of the clients the real generator makes on every run from the documents listed in the evidence: proved for all argument values, responses and hook outcomes of those clients, bounded in the documents. '
                     'reqwest, progenitor_client (proved by C01..C14) and the generated data types are taken by their contracts.')
LEVEL = dict.fromkeys(FILES, 'translation_validation')
TECHNIQUE = dict.fromkeys(FILES, 'the real generator is run on every check; contracts derived from the document on every method of the client it made, discharged by Verus (z3)')


KW = ('let', 'as', 'in', 'impl', 'for', 'mut', 'dyn', 'return', 'match', 'if', 'while', 'else', 'move')


def respace(text):
    """one space between tokens except around . :: ( ) [ ] , ; & and !"""
    out = []
    T = lex(text)
    for i, t in enumerate(T):
        if i and T[i - 1].k == 'p' and T[i - 1].s in (';', '{'):
            out.append('\n')
        elif i and not (t.s in ('.', '::', ')', ']', ',', ';', '?', '!') or T[i - 1].s in ('.', '::', '(', '[', '&', '!', '#') or (t.s in ('(', '[') and T[i - 1].k == 'id' and T[i - 1].s not in KW)):
            out.append(' ')
        elif i and t.s == '::' and T[i - 1].k == 'id' and T[i - 1].s in KW:
            out.append(' ')
        elif i and (t.s == '.' and T[i - 1].s == '..' or t.s == '::' and T[i - 1].s == ':'):
            out.append(' ')
        out.append(t.s)
    return ''.join(out)


_cache = {}


def load(root, prop, which=None):
    key = (root, prop)
    if key not in _cache:
        got, err = runner.generate(prop, root, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')), os.path.join(os.path.dirname(NV.HERE), '.work'), NV.build, tag='proof', which=which or WHICH[prop])
        if err:
            raise Lost('no generated code: ' + err[:500])
        _cache[key] = got
    s = Src('', 'generated')
    s.docs = _cache[key]
    return s


HEAD = '''#![allow(unused)]
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
broadcast use vtxt::group_txt;
'''

WORLD = r'''
pub assume_specification<T, E, U, F>[core::result::Result::<T, E>::and_then](r: core::result::Result<T, E>, f: F) -> (o: core::result::Result<U, E>) where F: FnOnce(T) -> core::result::Result<U, E> + core::marker::Destruct,
    requires r is Ok ==> f.requires((r->Ok_0,)),
    ensures match r { Ok(v) => f.ensures((v,), o), Err(e) => o == Err::<U, E>(e) };
/// text, and values as text: what Display prints
pub mod vtxt {
use vstd::prelude::*;
pub uninterp spec fn dec(i: int) -> Seq<char>;
pub uninterp spec fn float(f: f64) -> Seq<char>;
pub open spec fn lower_c(c: char) -> char { if 'A' <= c <= 'Z' { (c as u8 + 32) as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_c(c)) }
/// a text that has a name in it, as a word
pub open spec fn word_c(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c == '_' }
pub open spec fn at(h: Seq<char>, n: Seq<char>, i: int) -> bool { 0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) == n && (i == 0 || !word_c(h[i - 1])) && (i + n.len() == h.len() || !word_c(h[i + n.len()])) }
pub open spec fn holds(h: Seq<char>, n: Seq<char>) -> bool { exists|i: int| #[trigger] at(h, n, i) }
pub open spec fn within(h: Seq<char>, n: Seq<char>) -> bool { exists|i: int| #[trigger] at(h, n, i) && i + n.len() < h.len() }
pub proof fn holds_at(h: Seq<char>, n: Seq<char>, i: int) requires at(h, n, i) ensures holds(h, n), i + n.len() < h.len() ==> within(h, n) { }
pub trait VText { spec fn vtext(&self) -> Seq<char>; fn vp_text(&self) -> (r: String) ensures r@ == self.vtext(); }
impl VText for str { open spec fn vtext(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_text(&self) -> String { unimplemented!() } }
impl VText for String { open spec fn vtext(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_text(&self) -> String { unimplemented!() } }
impl VText for i64 { open spec fn vtext(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vp_text(&self) -> String { unimplemented!() } }
impl VText for i32 { open spec fn vtext(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vp_text(&self) -> String { unimplemented!() } }
impl VText for u32 { open spec fn vtext(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vp_text(&self) -> String { unimplemented!() } }
impl VText for u8 { open spec fn vtext(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vp_text(&self) -> String { unimplemented!() } }
impl VText for f64 { open spec fn vtext(&self) -> Seq<char> { float(*self) } #[verifier::external_body] fn vp_text(&self) -> String { unimplemented!() } }
impl VText for bool { open spec fn vtext(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } #[verifier::external_body] fn vp_text(&self) -> String { unimplemented!() } }
impl<T: VText + ?Sized> VText for &T { open spec fn vtext(&self) -> Seq<char> { (**self).vtext() } #[verifier::external_body] fn vp_text(&self) -> String { unimplemented!() } }
pub open spec fn otext<T: VText>(o: Option<T>) -> Option<Seq<char>> { match o { Some(v) => Some(v.vtext()), None => None } }
#[verifier::external_body] pub fn vp_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vp_ch(s: String, c: char) -> (r: String) ensures r@ == s@.push(c) { unimplemented!() }
#[verifier::external_body] pub fn vp_cat<T: VText + ?Sized>(s: String, t: &T) -> (r: String) ensures r@ == cat(s@, t.vtext()) { unimplemented!() }
/// concatenation; the first piece stands alone
pub open spec fn cat(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + b }
pub broadcast proof fn cat_first(b: Seq<char>) ensures #[trigger] cat(Seq::empty(), b) == b { assert(Seq::<char>::empty() + b =~= b); }
pub broadcast proof fn cat_holds(a: Seq<char>, b: Seq<char>, n: Seq<char>) requires within(a, n) ensures #[trigger] holds(cat(a, b), n) {
    let i = choose|i: int| #[trigger] at(a, n, i) && i + n.len() < a.len();
    assert(cat(a, b).subrange(i, i + n.len()) =~= a.subrange(i, i + n.len()));
    assert(at(cat(a, b), n, i));
}
pub broadcast group group_txt { cat_first, cat_holds }
/// conversions: TryInto, From and Default of values the contracts say nothing more about
pub trait VTryInto<T>: Sized { type Error; spec fn conv(self) -> core::result::Result<T, Self::Error>; fn vp_try_into(self) -> (r: core::result::Result<T, Self::Error>) ensures r == self.conv(); }
pub trait VInto<T>: Sized { spec fn into_spec(self) -> T; fn vp_into(self) -> (r: T) ensures r == self.into_spec(); }
pub trait VDefault: Sized { spec fn dflt() -> Self; fn vp_default() -> (r: Self) ensures r == Self::dflt(); }
pub fn vp_default<T: VDefault>() -> (r: T) ensures r == T::dflt() { T::vp_default() }
pub uninterp spec fn no_text() -> String;
impl VDefault for String { open spec fn dflt() -> String { no_text() } #[verifier::external_body] fn vp_default() -> String { unimplemented!() } }
impl<T> VDefault for Option<T> { open spec fn dflt() -> Option<T> { None } fn vp_default() -> Option<T> { None } }
impl VDefault for bool { open spec fn dflt() -> bool { false } fn vp_default() -> bool { false } }
pub trait VOrDefault<T>: Sized { spec fn or_dflt(self) -> T; fn vp_or_default(self) -> (r: T) ensures r == self.or_dflt(); }
impl<T: VDefault, E> VOrDefault<T> for core::result::Result<T, E> { open spec fn or_dflt(self) -> T { match self { Ok(v) => v, Err(_) => T::dflt() } } fn vp_or_default(self) -> (r: T) { match self { Ok(v) => v, Err(_) => T::vp_default() } } }
impl<T: VDefault> VOrDefault<T> for Option<T> { open spec fn or_dflt(self) -> T { match self { Some(v) => v, None => T::dflt() } } fn vp_or_default(self) -> (r: T) { match self { Some(v) => v, None => T::vp_default() } } }
}
pub use vtxt::*;

pub mod bytes { use vstd::prelude::*; #[verifier::external_body] pub struct Bytes(()); }
pub mod serde_json { use vstd::prelude::*; #[verifier::external_body] pub struct Error(()); }

/// what is sent
pub ghost enum QV { Absent, One(Seq<char>), Many(Seq<Seq<char>>), Fields(JV) }
#[verifier::external_body] pub struct JV(());
pub ghost enum BodyV { Nothing, Json(JV), Form(JV), Raw(reqwest::Body) }
pub ghost enum Method { Get, Put, Post, Delete, Options, Head, Patch, Trace, Other(Seq<char>) }
pub type Headers = Map<Seq<char>, Seq<Seq<char>>>;
pub ghost struct Req { pub method: Method, pub url: Seq<char>, pub headers: Headers, pub query: Seq<(Seq<char>, QV)>, pub body: BodyV }
pub open spec fn same(a: Req, b: Req) -> bool { a.method == b.method && a.url =~= b.url && a.headers =~= b.headers && a.query =~= b.query && a.body == b.body }
pub open spec fn had(m: Headers, k: Seq<char>, v: Seq<char>) -> Headers { m.insert(k, if m.contains_key(k) { m[k].push(v) } else { seq![v] }) }
pub open spec fn opt_header(m: Headers, k: Seq<char>, v: Option<Seq<char>>) -> Headers { match v { Some(v) => m.insert(k, seq![v]), None => m } }
pub open spec fn asked(q: Seq<(Seq<char>, QV)>, n: Seq<char>, v: QV) -> Seq<(Seq<char>, QV)> { if v is Absent { q } else { q.push((n, v)) } }
pub open spec fn opt_ok(v: Option<Seq<char>>) -> bool { v matches Some(v) ==> reqwest::header::sendable(v) }
/// what happens while a method runs
pub type Answer = core::result::Result<reqwest::Response, reqwest::Error>;
pub type Fault = core::result::Result<(), hooks::Fault>;
pub ghost enum Ev { Pre(Option<hooks::Inner>, Req), PreAsync(Option<hooks::Inner>, Req, Req, Fault), Sent(Req, Answer), Post(Option<hooks::Inner>, Answer), PostAsync(Option<hooks::Inner>, Answer, Fault) }
pub tracked struct Log { pub ghost evs: Seq<Ev> }

pub trait VQuery { spec fn vq(&self) -> QV; }
impl VQuery for str { open spec fn vq(&self) -> QV { QV::One(self@) } }
impl VQuery for String { open spec fn vq(&self) -> QV { QV::One(self@) } }
impl VQuery for i64 { open spec fn vq(&self) -> QV { QV::One(dec(*self as int)) } }
impl VQuery for i32 { open spec fn vq(&self) -> QV { QV::One(dec(*self as int)) } }
impl VQuery for u32 { open spec fn vq(&self) -> QV { QV::One(dec(*self as int)) } }
impl VQuery for u8 { open spec fn vq(&self) -> QV { QV::One(dec(*self as int)) } }
impl VQuery for f64 { open spec fn vq(&self) -> QV { QV::One(float(*self)) } }
impl VQuery for bool { open spec fn vq(&self) -> QV { QV::One(self.vtext()) } }
impl<T: VText> VQuery for Vec<T> { open spec fn vq(&self) -> QV { QV::Many(self@.map_values(|v: T| v.vtext())) } }
impl<T: VQuery> VQuery for Option<T> { open spec fn vq(&self) -> QV { match self { Some(v) => v.vq(), None => QV::Absent } } }
impl<T: VQuery + ?Sized> VQuery for &T { open spec fn vq(&self) -> QV { (**self).vq() } }
/// what serde makes of a value
pub uninterp spec fn text_json(s: Seq<char>) -> JV;
pub uninterp spec fn list_json<T>(s: Seq<T>) -> JV;
pub trait VBody { spec fn vb(&self) -> JV; }
impl VBody for str { open spec fn vb(&self) -> JV { text_json(self@) } }
impl VBody for String { open spec fn vb(&self) -> JV { text_json(self@) } }
impl<T> VBody for Vec<T> { open spec fn vb(&self) -> JV { list_json(self@) } }
impl<T: VBody + ?Sized> VBody for &T { open spec fn vb(&self) -> JV { (**self).vb() } }

pub mod hooks {
use vstd::prelude::*;
use super::*;
#[verifier::external_body] pub struct Inner(());
#[verifier::external_body] pub struct Fault(());
impl Fault { pub uninterp spec fn s_text(&self) -> Seq<char>; }
impl VText for Fault { open spec fn vtext(&self) -> Seq<char> { self.s_text() } #[verifier::external_body] fn vp_text(&self) -> String { unimplemented!() } }
#[verifier::external_body] pub fn pre(r: &reqwest::Request, Tracked(l): Tracked<&mut Log>) ensures final(l).evs == old(l).evs.push(Ev::Pre(None, r@)) { unimplemented!() }
#[verifier::external_body] pub fn pre_inner(i: &Inner, r: &reqwest::Request, Tracked(l): Tracked<&mut Log>) ensures final(l).evs == old(l).evs.push(Ev::Pre(Some(*i), r@)) { unimplemented!() }
#[verifier::external_body] pub fn post(a: &core::result::Result<reqwest::Response, reqwest::Error>, Tracked(l): Tracked<&mut Log>) ensures final(l).evs == old(l).evs.push(Ev::Post(None, *a)) { unimplemented!() }
#[verifier::external_body] pub fn post_inner(i: &Inner, a: &core::result::Result<reqwest::Response, reqwest::Error>, Tracked(l): Tracked<&mut Log>) ensures final(l).evs == old(l).evs.push(Ev::Post(Some(*i), *a)) { unimplemented!() }
#[verifier::external_body] pub async fn pre_async(r: &mut reqwest::Request, Tracked(l): Tracked<&mut Log>) -> (o: core::result::Result<(), Fault>) ensures final(l).evs == old(l).evs.push(Ev::PreAsync(None, old(r)@, final(r)@, o)) { unimplemented!() }
#[verifier::external_body] pub async fn pre_async_inner(i: &Inner, r: &mut reqwest::Request, Tracked(l): Tracked<&mut Log>) -> (o: core::result::Result<(), Fault>) ensures final(l).evs == old(l).evs.push(Ev::PreAsync(Some(*i), old(r)@, final(r)@, o)) { unimplemented!() }
#[verifier::external_body] pub async fn post_async(a: &core::result::Result<reqwest::Response, reqwest::Error>, Tracked(l): Tracked<&mut Log>) -> (o: core::result::Result<(), Fault>) ensures final(l).evs == old(l).evs.push(Ev::PostAsync(None, *a, o)) { unimplemented!() }
#[verifier::external_body] pub async fn post_async_inner(i: &Inner, a: &core::result::Result<reqwest::Response, reqwest::Error>, Tracked(l): Tracked<&mut Log>) -> (o: core::result::Result<(), Fault>) ensures final(l).evs == old(l).evs.push(Ev::PostAsync(Some(*i), *a, o)) { unimplemented!() }
}

pub mod base64 { use vstd::prelude::*;
pub mod engine { pub mod general_purpose { use vstd::prelude::*; pub struct Standard; pub const STANDARD: Standard = Standard; } }
/// sixteen bytes are twenty-four characters
pub trait Engine { fn encode(&self, b: [u8; 16]) -> (r: String) ensures r@.len() == 24; }
impl Engine for engine::general_purpose::Standard { #[verifier::external_body] fn encode(&self, b: [u8; 16]) -> String { unimplemented!() } }
}
pub mod rand { use vstd::prelude::*; #[verifier::external_body] pub fn random<T>() -> T { unimplemented!() } }

pub mod reqwest {
use vstd::prelude::*;
use super::*;
#[derive(Copy, Clone)] pub struct StatusCode(pub u16);
impl StatusCode {
    pub fn as_u16(&self) -> (r: u16) ensures r == self.0 { self.0 }
    pub fn is_success(&self) -> (r: bool) ensures r == (200 <= self.0 < 300) { 200 <= self.0 && self.0 < 300 }
    pub fn is_client_error(&self) -> (r: bool) ensures r == (400 <= self.0 < 500) { 400 <= self.0 && self.0 < 500 }
    pub fn is_server_error(&self) -> (r: bool) ensures r == (500 <= self.0 < 600) { 500 <= self.0 && self.0 < 600 }
}
#[verifier::external_body] pub struct Error(());
#[verifier::external_body] pub struct Upgraded(());
#[verifier::external_body] pub struct Body(());
impl Body { pub uninterp spec fn s_default() -> Self; } impl crate::vtxt::VDefault for Body { open spec fn dflt() -> Self { Self::s_default() } #[verifier::external_body] fn vp_default() -> Self { unimplemented!() } }
impl Body { pub uninterp spec fn of_text(s: Seq<char>) -> Body; }
impl VInto<Body> for Body { open spec fn into_spec(self) -> Body { self } fn vp_into(self) -> Body { self } }
impl VInto<Body> for String { open spec fn into_spec(self) -> Body { Body::of_text(self@) } #[verifier::external_body] fn vp_into(self) -> Body { unimplemented!() } }
#[verifier::external_body] pub struct Response(());
impl Response { pub uninterp spec fn s_status(&self) -> u16; #[verifier::external_body] pub fn status(&self) -> (r: StatusCode) ensures r.0 == self.s_status() { unimplemented!() } }
#[verifier::external_body] pub struct Request(());
impl Request { pub uninterp spec fn view(&self) -> super::Req; }
/// some requests cannot be built (a base URL that is none, for one)
pub uninterp spec fn unbuildable(r: super::Req) -> Option<Error>;
#[verifier::external_body] pub struct RequestBuilder(());
impl RequestBuilder {
    pub uninterp spec fn view(&self) -> super::Req;
    #[verifier::external_body] pub fn header<K: header::VName, V: header::VValue>(self, k: K, v: V) -> (r: Self) ensures r@ == (super::Req { headers: had(self@.headers, k.hname(), v.htext()), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn headers(self, m: header::HeaderMap) -> (r: Self) ensures r@ == (super::Req { headers: self@.headers.union_prefer_right(m@), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn query<T: VQuery>(self, q: &progenitor_client::QueryParam<'_, T>) -> (r: Self) ensures r@ == (super::Req { query: asked(self@.query, q.n(), q.v()), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn json<T: VBody + ?Sized>(self, b: &T) -> (r: Self) ensures r@ == (super::Req { body: BodyV::Json(b.vb()), headers: if self@.headers.contains_key("content-type"@) { self@.headers } else { self@.headers.insert("content-type"@, seq!["application/json"@]) }, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn body<T: VInto<Body>>(self, b: T) -> (r: Self) ensures r@ == (super::Req { body: BodyV::Raw(b.into_spec()), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> (r: core::result::Result<Request, Error>) ensures match unbuildable(self@) { Some(e) => r == Err::<Request, Error>(e), None => r is Ok && r->Ok_0@ == self@ } { unimplemented!() }
}
$METHODS
#[verifier::external_body] pub struct Client(());
pub open spec fn plain(m: super::Method, url: Seq<char>) -> super::Req { super::Req { method: m, url: url, headers: Map::empty(), query: Seq::empty(), body: BodyV::Nothing } }
impl Client {
$CALLS
    #[verifier::external_body] pub fn request<U: VText>(&self, m: Method, url: U) -> (r: RequestBuilder) ensures r@ == plain(m@, url.vtext()) { unimplemented!() }
    #[verifier::external_body] pub async fn execute(&self, r: Request, Tracked(l): Tracked<&mut super::Log>) -> (o: core::result::Result<Response, Error>) ensures final(l).evs == old(l).evs.push(super::Ev::Sent(r@, o)) { unimplemented!() }
}
pub mod header {
use vstd::prelude::*;
use super::super::*;
/// a text that can be sent as the value of a header
pub uninterp spec fn sendable(s: Seq<char>) -> bool;
pub open spec fn visible(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> ' ' <= #[trigger] s[i] <= '~' }
#[verifier::external_body] pub struct HeaderName(());
impl HeaderName { pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn from_static(s: &'static str) -> (r: Self) requires lower(s@) =~= s@ ensures r@ == s@ { unimplemented!() } }
$NAMES
#[verifier::external_body] pub struct HeaderValue(());
#[verifier::external_body] pub struct InvalidHeaderValue(());
impl HeaderValue { pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn from_static(s: &'static str) -> (r: Self) requires visible(s@) ensures r@ == s@ { unimplemented!() } }
pub trait VName { spec fn hname(&self) -> Seq<char>; }
impl VName for &'static str { open spec fn hname(&self) -> Seq<char> { lower(self@) } }
impl VName for HeaderName { open spec fn hname(&self) -> Seq<char> { self@ } }
pub trait VValue { spec fn htext(&self) -> Seq<char>; }
impl VValue for &str { open spec fn htext(&self) -> Seq<char> { self@ } }
impl VValue for String { open spec fn htext(&self) -> Seq<char> { self@ } }
impl VValue for HeaderValue { open spec fn htext(&self) -> Seq<char> { self@ } }
pub uninterp spec fn value_of(s: Seq<char>) -> core::result::Result<HeaderValue, InvalidHeaderValue>;
pub broadcast axiom fn ax_value(s: Seq<char>) ensures (#[trigger] value_of(s)) is Ok == sendable(s), value_of(s) matches Ok(v) ==> v@ == s;
impl VTryInto<HeaderValue> for String { type Error = InvalidHeaderValue; open spec fn conv(self) -> core::result::Result<HeaderValue, InvalidHeaderValue> { value_of(self@) } #[verifier::external_body] fn vp_try_into(self) -> core::result::Result<HeaderValue, InvalidHeaderValue> { unimplemented!() } }
#[verifier::external_body] pub struct HeaderMap(());
impl HeaderMap { pub uninterp spec fn view(&self) -> Headers;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn append<K: VName>(&mut self, k: K, v: HeaderValue) -> (r: bool) ensures final(self)@ == had(old(self)@, k.hname(), v@) { unimplemented!() }
    #[verifier::external_body] pub fn insert<K: VName>(&mut self, k: K, v: HeaderValue) -> (r: Option<HeaderValue>) ensures final(self)@ == old(self)@.insert(k.hname(), seq![v@]) { unimplemented!() }
}
} // header
} // reqwest

/// progenitor_client: its functions have contracts of their own (C01 to C11), which are assumed here
pub mod progenitor_client {
use vstd::prelude::*;
use super::*;
use super::reqwest::header::InvalidHeaderValue;
pub uninterp spec fn enc(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn encode_path(s: &str) -> (r: String) ensures r@ == enc(s@) { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct QueryParam<'a, T>(&'a T);
impl<'a, T: VQuery> QueryParam<'a, T> {
    pub uninterp spec fn n(&self) -> Seq<char>;
    pub uninterp spec fn v(&self) -> QV;
    #[verifier::external_body] pub fn new(name: &'a str, value: &'a T) -> (r: Self) ensures r.n() == name@, r.v() == value.vq() { unimplemented!() }
}
#[verifier::external_body] pub struct ByteStream(());
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ResponseValue<T>(T);
#[verifier::reject_recursive_types(E)] pub enum Error<E = ()> { InvalidRequest(String), CommunicationError(reqwest::Error), InvalidUpgrade(reqwest::Error), ErrorResponse(ResponseValue<E>), ResponseBodyError(reqwest::Error), InvalidResponsePayload(bytes::Bytes, serde_json::Error), UnexpectedResponse(reqwest::Response), PreHookError(String), PostHookError(String) }
/// `?` goes through the From impls of the crate
pub uninterp spec fn refused(e: InvalidHeaderValue) -> String;
impl<E> From<reqwest::Error> for Error<E> { #[verifier::external_body] fn from(e: reqwest::Error) -> (r: Self) { Error::CommunicationError(e) } }
impl<E> From<InvalidHeaderValue> for Error<E> { #[verifier::external_body] fn from(e: InvalidHeaderValue) -> (r: Self) { unimplemented!() } }
pub broadcast axiom fn ax_from_error<E>(e: reqwest::Error, r: Error<E>) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<Error<E>, reqwest::Error>(e, r) ==> r == Error::<E>::CommunicationError(e);
pub broadcast axiom fn ax_from_header<E>(e: InvalidHeaderValue, r: Error<E>) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<Error<E>, InvalidHeaderValue>(e, r) ==> r == Error::<E>::InvalidRequest(refused(e));
impl<T> ResponseValue<T> {
    pub uninterp spec fn s_from<E>(r: reqwest::Response) -> core::result::Result<ResponseValue<T>, Error<E>>;
    #[verifier::external_body] pub async fn from_response<E>(response: reqwest::Response) -> (r: core::result::Result<ResponseValue<T>, Error<E>>) ensures r == Self::s_from::<E>(response) { unimplemented!() }
    pub uninterp spec fn s_inner(&self) -> T;
    #[verifier::external_body] pub fn into_inner(self) -> (r: T) ensures r == self.s_inner() { unimplemented!() }
}
impl ResponseValue<()> {
    pub uninterp spec fn s_empty(r: reqwest::Response) -> ResponseValue<()>;
    #[verifier::external_body] pub fn empty(response: reqwest::Response) -> (r: ResponseValue<()>) ensures r == Self::s_empty(response) { unimplemented!() }
}
impl ResponseValue<ByteStream> {
    pub uninterp spec fn s_stream(r: reqwest::Response) -> ResponseValue<ByteStream>;
    #[verifier::external_body] pub fn stream(response: reqwest::Response) -> (r: ResponseValue<ByteStream>) ensures r == Self::s_stream(response) { unimplemented!() }
}
impl ResponseValue<reqwest::Upgraded> {
    pub uninterp spec fn s_upgrade<E>(r: reqwest::Response) -> core::result::Result<ResponseValue<reqwest::Upgraded>, Error<E>>;
    #[verifier::external_body] pub async fn upgrade<E>(response: reqwest::Response) -> (r: core::result::Result<ResponseValue<reqwest::Upgraded>, Error<E>>) ensures r == Self::s_upgrade::<E>(response) { unimplemented!() }
}
/// serde_urlencoded refuses some values
pub uninterp spec fn unformable(v: JV) -> bool;
pub trait RequestBuilderExt<E>: Sized { spec fn rb(&self) -> super::Req; fn form_urlencoded<T: VBody + ?Sized>(self, b: &T) -> (r: core::result::Result<reqwest::RequestBuilder, Error<E>>)
    ensures unformable(b.vb()) ==> r matches Err(Error::InvalidRequest(_)), !unformable(b.vb()) ==> r is Ok && r->Ok_0@ == (super::Req { body: BodyV::Form(b.vb()), headers: had(self.rb().headers, "content-type"@, "application/x-www-form-urlencoded"@), ..self.rb() }); }
impl<E> RequestBuilderExt<E> for reqwest::RequestBuilder { open spec fn rb(&self) -> super::Req { self@ } #[verifier::external_body] fn form_urlencoded<T: VBody + ?Sized>(self, b: &T) -> (r: core::result::Result<reqwest::RequestBuilder, Error<E>>) { unimplemented!() } }
}
'''

NAMES = ['ACCEPT', 'CONTENT_TYPE', 'CONNECTION', 'UPGRADE', 'SEC_WEBSOCKET_VERSION', 'SEC_WEBSOCKET_KEY', 'CONTENT_LENGTH', 'AUTHORIZATION', 'USER_AGENT']
METHODS = model.METHODS


def world():
    names = '\n'.join(f'#[verifier::external_body] pub exec const {n}: HeaderName ensures {n}@ == "{n.lower().replace("_", "-")}"@ {{ HeaderName(()) }}' for n in NAMES)
    ms = '#[verifier::external_body] pub struct Method(());\nimpl Method { pub uninterp spec fn view(&self) -> super::Method;\n' + '\n'.join(
        f'    #[verifier::external_body] pub exec const {m.upper()}: Method ensures Self::{m.upper()}@ == super::Method::{m.capitalize()} {{ Method(()) }}' for m in METHODS) + '\n}'
    calls = '\n'.join(f'    #[verifier::external_body] pub fn {m}<U: VText>(&self, url: U) -> (r: RequestBuilder) ensures r@ == plain(super::Method::{m.capitalize()}, url.vtext()) {{ unimplemented!() }}'
                      for m in METHODS if m not in ('options', 'trace'))
    return WORLD.replace('$METHODS', ms).replace('$NAMES', names).replace('$CALLS', calls)


def rs(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('$', '\\u{24}') + '"'


def ch(c):
    return {"'": "'\\''", '\\': "'\\\\'", '$': "'\\u{24}'"}.get(c, f"'{c}'")


def cat(pieces):
    """a sequence of characters and texts, as format! and the document build it"""
    e = 'Seq::<char>::empty()'
    for k, t in pieces:
        if k == 't':
            for c in t:
                e = f'{e}.push({ch(c)})'
        else:
            e = f'cat({e}, {t})'
    return e


def fmt(pieces, pre):
    e = 'vp_new()'
    for k, t in pieces:
        if k == 'lit':
            for c in t:
                e = f'vp_ch({e}, {ch(c)})'
        elif k == 'disp':
            e = f'vp_cat({e}, &({t}))'
        else:
            raise Lost('debug format')
    return e


SUBST = [(r'(?<![\w>])::reqwest::', 'crate::reqwest::'), (r'(?<![\w>])::base64::', 'crate::base64::'), (r'(?<![\w>])::rand::', 'crate::rand::'), (r'\.to_string\(\)', '.vp_text()'),
         (r'\.try_into\(\)', '.vp_try_into()'), (r'std::convert::TryInto', 'VTryInto'), (r'::std::default::Default::default\(\)', 'vp_default()'), (r'\.unwrap_or_default\(\)', '.vp_or_default()'),
         (r'\bB: Into<', 'B: VInto<'), (r'\bB : Into < ', 'B: VInto<'), (r'\.into\(\)', '.vp_into()'), (r'std::fmt::Display', 'VText'),
         (r'\((crate::hooks::\w+)\) ?\(([^()]*)\)', r'\1(\2, Tracked(&mut *vp_log))'), (r'\.execute\((\w+)\)', r'.execute(\1, Tracked(&mut *vp_log))')]
LOG = 'Tracked(vp_log): Tracked<&mut Log>'


def literals(names, extra=()):
    """proof text: the given header names are different, and lower case where the document is not"""
    out, low = [], []
    for n in names:
        if n.lower() != n:
            out.append(f'reveal_strlit({rs(n)});')
            out.append(f'reveal_strlit({rs(n.lower())}); assert(lower({rs(n)}@) =~= {rs(n.lower())}@);')
        else:
            out.append(f'reveal_strlit({rs(n)}); assert(lower({rs(n)}@) =~= {rs(n)}@);')
        low.append(n.lower())
    for i, a in enumerate(low):
        for b in low[i + 1:]:
            if a == b:
                raise Lost('one header twice')
            if len(a) != len(b):
                out.append(f'assert({rs(a)}@.len() != {rs(b)}@.len());')
            else:
                k = next(k for k in range(len(a)) if a[k] != b[k])
                out.append(f'assert({rs(a)}@[{k}] != {rs(b)}@[{k}]);')
    for x in extra:
        out.append(f'reveal_strlit({rs(x)}); assert(crate::reqwest::header::visible({rs(x)}@));')
    return ' '.join(dict.fromkeys(out))


def request(op, base, val):
    """the documented request as a spec expression; val(p) -> spec text of a parameter"""
    url = [('s', base)]
    for k, t in model.pieces(op.path):
        if k == 't':
            url.append(('t', t))
        else:
            p = next(p for p in op.params if p.where == 'path' and p.api == t)
            url.append(('s', f'progenitor_client::enc({val(p)})'))
    h = f'Map::<Seq<char>, Seq<Seq<char>>>::empty().insert("api-version"@, seq![{rs(op.version)}@])'
    names = ['api-version']
    for p in op.params:
        if p.where == 'header':
            names.append(p.api)
            h = f'opt_header({h}, {rs(p.api.lower())}@, {val(p)})' if p.opt else f'{h}.insert({rs(p.api.lower())}@, seq![{val(p)}])'
    if op.accept:
        names.append('accept')
        h += '.insert("accept"@, seq!["application/json"@])'
    body = 'BodyV::Nothing'
    if op.body:
        names.append('content-type')
        h += f'.insert("content-type"@, seq![{rs(op.body.ct)}@])'
        body = {'json': 'BodyV::Json({})', 'form': 'BodyV::Form({})'}.get(op.body.kind, 'BodyV::Raw({})').format(val(op.body))
    if op.ws:
        for k, v in (('connection', 'Upgrade'), ('upgrade', 'websocket'), ('sec-websocket-version', '13')):
            h += f'.insert({rs(k)}@, seq![{rs(v)}@])'
            names.append(k)
        names.append('sec-websocket-key')
        h += '.insert("sec-websocket-key"@, vp_key)'
    q = 'Seq::<(Seq<char>, QV)>::empty()'
    for p in op.params:
        if p.where == 'query':
            q = f'asked({q}, {rs(p.api)}@, {val(p)})'
    return (f'Req {{ method: Method::{op.method.capitalize()}, url: {cat(url)}, headers: {h}, query: {q}, body: {body} }}', names)


def split_ret(ret):
    t = re.sub(r'\s+', '', ret)
    m = re.fullmatch(r'Result<ResponseValue<(.*)>,Error<(.*)>,?>', t)
    if not m:
        raise Lost('return type ' + ret)
    return m.group(1), m.group(2)


def result_spec(op, S, E, resp):
    """what the caller gets for an answer"""
    R = f'core::result::Result::<ResponseValue<{S}>, Error<{E}>>'
    out = f'r == {R}::Err(Error::UnexpectedResponse({resp}))'
    for lo, hi, good, (kind, _) in reversed(op.arms):
        if good:
            a = {'typed': f'r == ResponseValue::<{S}>::s_from::<{E}>({resp})', 'none': f'r == {R}::Ok(ResponseValue::<()>::s_empty({resp}))', 'raw': f'r == {R}::Ok(ResponseValue::<ByteStream>::s_stream({resp}))',
                 'upgrade': f'r == ResponseValue::<crate::reqwest::Upgraded>::s_upgrade::<{E}>({resp})'}[kind]
        else:
            a = {'typed': f'(match ResponseValue::<{E}>::s_from::<{E}>({resp}) {{ Ok(v) => r == {R}::Err(Error::ErrorResponse(v)), Err(e) => r == {R}::Err(e) }})',
                 'none': f'r == {R}::Err(Error::ErrorResponse(ResponseValue::<()>::s_empty({resp})))', 'raw': f'r == {R}::Err(Error::ErrorResponse(ResponseValue::<ByteStream>::s_stream({resp})))'}[kind]
        st = f'{resp}.s_status()'
        cond = f'{st} == {lo}' if lo == hi else f'{lo} <= {st} <= {hi}'
        out = f'if {cond} {{ {a} }} else {{ {out} }}'
    return R, out


def send_contract(w, op, f, owner, val, prop, before=None, start=''):
    """postconditions of a method that sends; owner: the spec text of the client; before: builder refusals"""
    S, E = split_ret(w.src.txt(*f.ret))
    Q, names = request(op, f'{owner}.baseurl@', val)
    R, res = result_spec(op, S, E, 'vp_a->Ok_0')
    bad = [f'!opt_ok({val(p)})' if p.opt else f'!crate::reqwest::header::sendable({val(p)})' for p in op.params if p.where == 'header']
    BAD = '(' + (' || '.join(bad) or 'false') + ')'
    FORM = f'progenitor_client::unformable({val(op.body)})' if op.body and op.body.kind == 'form' else 'false'
    n, e = 'old(vp_log).evs.len() as int', 'final(vp_log).evs'
    tag = lambda t: f'{prop}.{t} {w.doc}.{op.oid}'
    none = f'{e}.len() == {n}'
    ens = [(tag('only-adds'), f'{e}.len() >= {n} && {e}.take({n}) =~= old(vp_log).evs')]
    go = ''
    if before:
        unset = ' || '.join(f'({c})' for c, _ in before)
        which = ' || '.join(f'({c}) && m@ == {msg}' for c, msg in before)
        ens.append((tag('unset-refused'), f'({unset}) ==> {none} && (r matches Err(Error::InvalidRequest(m)) && ({which}))'))
        go = f'!({unset}) && '
    ens.append((tag('bad-header-refused'), f'{go}{BAD} ==> {none} && r matches Err(Error::InvalidRequest(_))'))
    if FORM != 'false':
        ens.append((tag('bad-form-refused'), f'{go}!{BAD} && {FORM} ==> {none} && r matches Err(Error::InvalidRequest(_))'))
    ok = f'{go}!{BAD} && !{FORM}'
    inner = f'Some({owner}.inner)' if op.inner else 'None'
    h = op.hooks
    steps, k = [], 0
    sentq = 'vp_q'
    if 'pre' in h:
        steps.append(f'vp_e[vp_n + {k}] matches Ev::Pre(i, q) && i == {inner} && same(q, vp_q)')
        k += 1
    stop1 = None
    if 'pre_async' in h:
        steps.append(f'vp_e[vp_n + {k}] matches Ev::PreAsync(i, q, q2, o) && i == {inner} && same(q, vp_q)')
        stop1 = k
        k += 1
    at = k
    ls = f'let vp_n = {n}; let vp_e = {e};'
    key = ''
    if op.ws:
        first = f'(match vp_e[vp_n + 0] {{ Ev::Sent(q, _) => q, Ev::Pre(_, q) => q, _ => arbitrary() }})'
        key = f'let vp_key = {first}.headers["sec-websocket-key"@];'
        ens.append((tag('unbuildable'), f'{ok} && {none} ==> r matches Err(Error::CommunicationError(_))'))
        ok += f' && {e}.len() > {n}'
        steps.append('vp_key.len() == 1 && vp_key[0].len() == 24')
    else:
        ens.append((tag('unbuildable'), f'{ok} && {none} ==> r matches Err(Error::CommunicationError(_))'))
        ok += f' && {e}.len() > {n}'
    pre = f'{ls} {key} let vp_q = {Q};'
    pre_len = f'vp_e.len() >= vp_n + {max(at, 1)}'
    sent = f'vp_e[vp_n + {at}] matches Ev::Sent(q, a) && ' + (f'q == vp_e[vp_n + {stop1}]->PreAsync_2' if stop1 is not None else 'same(q, vp_q)')
    stopped = f'vp_e[vp_n + {stop1}]->PreAsync_3 is Err' if stop1 is not None else 'false'
    after = at + 1
    psteps = []
    if 'post' in h:
        psteps.append(f'vp_e[vp_n + {after}] matches Ev::Post(i, a) && i == {inner} && a == vp_e[vp_n + {at}]->Sent_1')
        after += 1
    stop2 = None
    if 'post_async' in h:
        psteps.append(f'vp_e[vp_n + {after}] matches Ev::PostAsync(i, a, o) && i == {inner} && a == vp_e[vp_n + {at}]->Sent_1')
        stop2 = after
        after += 1
    conj = lambda xs: ' && '.join(f'({x})' for x in xs) or 'true'
    ens.append((tag('request'), f'{ok} ==> ({{ {pre} {pre_len} && {conj(steps)} && ({stopped} || ({sent})) }})'))
    ens.append((tag('steps'), f'{ok} ==> ({{ {ls} if {stopped} {{ vp_e.len() == vp_n + {at} }} else {{ vp_e.len() == vp_n + {after} && {conj(psteps)} }} }})'))
    hooked = f'match vp_a {{ Err(x) => r == {R}::Err(Error::CommunicationError(x)), Ok(_) => {res} }}'
    if stop2 is not None:
        hooked = f'if vp_e[vp_n + {stop2}]->PostAsync_2 is Err {{ r matches Err(Error::PostHookError(t)) && t@ == (vp_e[vp_n + {stop2}]->PostAsync_2->Err_0).vtext() }} else {{ {hooked} }}'
    if stop1 is not None:
        hooked = f'if {stopped} {{ r matches Err(Error::PreHookError(t)) && t@ == (vp_e[vp_n + {stop1}]->PreAsync_3->Err_0).vtext() }} else {{ {hooked} }}'
    ens.append((tag('result'), f'{ok} ==> ({{ {ls} let vp_a = vp_e[vp_n + {at}]->Sent_1; {hooked} }})'))
    extra = [op.version] + (['application/json'] if op.accept else []) + ([op.body.ct] if op.body else [])
    if op.ws:
        extra += ['Upgrade', 'websocket', '13']
    w.ctors = {'Error::InvalidRequest': (f'Error<{E}>', f'Error::<{E}>::InvalidRequest')}
    return dict(ens=ens, start=f'proof {{ {literals(names, dict.fromkeys(extra))} }}' + start)


def types_mod(code, doc, builder, opened=(), src=None):
    """the types module is typify's; its types stand for themselves"""
    names = sorted(set(re.findall(r'types::([A-Z]\w*)', code)))
    bnames = sorted(set(re.findall(r'types::builder::([A-Z]\w*)', code)))
    out = ['pub mod types { use vstd::prelude::*; use crate::*; use super::types;']
    if src is not None:
        for n in opened:
            src.struct(n)
        t = src.text()
        out.append(t)
        names = sorted(set(names) | (set(re.findall(r'\b([A-Z]\w*)\b', t)) & {x.name for x in src.src.items if x.kind in ('struct', 'enum')}))
    for n in names:
        if n in opened:
            continue
        out.append(f'#[verifier::external_body] pub struct {n}(());')
        out.append(f'impl {n} {{ pub uninterp spec fn s_text(&self) -> Seq<char>; pub uninterp spec fn s_query(&self) -> QV; pub uninterp spec fn s_json(&self) -> JV; }}')
        out.append(f'impl VText for {n} {{ open spec fn vtext(&self) -> Seq<char> {{ self.s_text() }} #[verifier::external_body] fn vp_text(&self) -> String {{ unimplemented!() }} }}')
        out.append(f'impl VQuery for {n} {{ open spec fn vq(&self) -> QV {{ self.s_query() }} }}')
        out.append(f'impl VBody for {n} {{ open spec fn vb(&self) -> JV {{ self.s_json() }} }}')
    out.append('pub mod builder { use vstd::prelude::*; use crate::*;')
    for n in bnames:
        out.append(f'#[verifier::external_body] pub struct {n}(());')
        out.append(f'impl {n} {{ pub uninterp spec fn s_default() -> Self; }} impl VDefault for {n} {{ open spec fn dflt() -> Self {{ Self::s_default() }} #[verifier::external_body] fn vp_default() -> Self {{ unimplemented!() }} }}')
        out.append(f'impl From<super::{n}> for {n} {{ #[verifier::external_body] fn from(v: super::{n}) -> (r: Self) ensures r == super::{n}::opened(v) {{ unimplemented!() }} }}')
    out.append('}')
    for n in bnames:
        out.append(f'impl {n} {{ /// what a builder builds, and the builder that builds a value\n pub uninterp spec fn built(b: builder::{n}) -> core::result::Result<{n}, String>; pub uninterp spec fn opened(v: {n}) -> builder::{n};'
                   f' #[verifier::external_body] pub fn try_from(b: builder::{n}) -> (r: core::result::Result<{n}, String>) ensures r == {n}::built(b) {{ unimplemented!() }} }}')
    out.append('}')
    return '\n'.join(out) + '\n'


def positional(w, op, prop):
    f = next((f for f in w.src.fns() if f.name == op.oid and f.parent is not None and f.parent.kind == 'impl' and f.quals and 'async' in f.quals), None)
    if f is None:
        raise Lost(f'method {op.oid}')
    names = [re.sub(r'^mut ', '', p) for p, _ in f.params]
    if len(names) != len(op.params):
        raise Lost(f'parameters of {op.oid}')
    arg = dict(zip([(p.where, p.api) for p in op.params], names))

    def val(p):
        a = arg[p.where, p.api]
        if p.where == 'path':
            return f'{a}.vtext()'
        if p.where == 'query':
            return f'{a}.vq()'
        if p.where == 'header':
            return f'otext({a})' if p.opt else f'{a}.vtext()'
        return f'{a}.vb()' if p.kind in ('json', 'form') else f'{a}.into_spec()'
    c = send_contract(w, op, f, 'self', val, prop)
    w.fn(op.oid, C(fmt={'format': fmt}, subst=[(r"^\(\s*&\s*'a self", f"(&'a self, {LOG}")], **c), f=f, ty=f.parent.self_ty)



def fmt_lit(pieces, pre):
    e = 'vp_new()'
    for k, t in pieces:
        if k == 'debug':
            raise Lost('debug format')
        e = f'vp_cat({e}, {rs(t)})' if k == 'lit' else f'vp_cat({e}, &({t}))'
    return e


def closures(w, f, types):
    """specifications of the closures of generated builder code, by what they do"""
    s, out = w.src, []
    a, b = f.body
    for cl in find_closures(s, a + 1, b):
        t = s.txt(*cl['body']).strip()
        if cl['block']:
            t = t[1:-1].strip()
        m = re.fullmatch(r'("(?:[^"\\]|\\.)*")\.vp_text\(\)', t)
        if m:
            out.append(dict(ret='String', ens=f'cr@ == {m.group(1)}@'))
            continue
        m = re.fullmatch(r'format!\s*\(\s*("(?:[^"\\{}]|\\.)*)\{\}"\s*,\s*\w+\s*\)', t)
        if m:
            out.append(dict(ptypes=[types['error']], ret='String', ens=f'cr@ == cat({m.group(1)}"@, $c0.vtext())'))
            continue
        if re.fullmatch(r'\w+\.vp_into\(\)', t):
            out.append(dict(ptypes=['String'], ret='reqwest::Body', ens='cr == $c0.into_spec()'))
            continue
        m = re.match(r'types::(\w+)::try_from\(\w+\)', t)
        if m:
            out.append(dict(ptypes=[f'types::builder::{m.group(1)}'], ret=f'core::result::Result<types::{m.group(1)}, String>',
                            ens=f'match types::{m.group(1)}::built($c0) {{ Ok(v) => cr == Ok::<types::{m.group(1)}, String>(v), Err(e) => cr matches Err(t) && t@ == e@ }}'))
            continue
        if re.fullmatch(r'\w+\.vp_text\(\)', t):
            out.append(dict(ptypes=['String'], ret='String', ens='cr@ == $c0@'))
            continue
        raise Lost('closure ' + t)
    return out


def names_it(w, f, name):
    """proof text: which string literals of a function contain the name"""
    out = [f'reveal_strlit({rs(name)});']
    T, (a, b) = w.src.toks, f.body
    for t in T[a:b]:
        if t.k == 'str':
            v = t.s[1:-1].replace('{}', '')
            m = re.search(r'(?<!\w)' + re.escape(name) + r'(?!\w)', v)
            if '\\' in v or not m:
                continue
            k = m.start()
            out.append(f'reveal_strlit({rs(v)}); assert({rs(v)}@.subrange({k}, {k + len(name)}) =~= {rs(name)}@); holds_at({rs(v)}@, {rs(name)}@, {k});')
    return ' '.join(dict.fromkeys(out))


# `mut self` is a parameter and a local variable
MUT_SELF = [(r'\bself\b', 'vp_self'), (r'^\(\s*mut vp_self', '(self'), (r'VP_SELF', 'self')]
MUT_START = 'let mut vp_self = VP_SELF;'


def builder(w, op, prop):
    """the builder of one operation: made, filled in and sent"""
    ty = model.pascal(op.oid)
    s = w.src
    it = [x for x in s.items if x.kind == 'struct' and x.name == ty]
    if len(it) != 1:
        raise Lost(f'builder {ty}')
    fl = w._fields(*it[0].body)
    own = [n for n, t in fl if norm(t).endswith('super::Client')]
    if len(own) != 1:
        raise Lost(f'client of {ty}')
    own = own[0]
    ftypes = {n: norm(t) for n, t in fl}
    by = {}
    for p in op.params:
        if p.name not in ftypes or p.name == own:
            raise Lost(f'no field for {p!r} in {ty}')
        by[p.where, p.api] = p.name
    if len(ftypes) != len(op.params) + 1:
        raise Lost(f'fields of {ty}')
    w.struct(ty)
    impl = lambda n: next((f for f in s.fns() if f.name == n and f.parent is not None and f.parent.kind == 'impl' and not f.parent.trait and base(norm(f.parent.self_ty)) == ty), None)
    inner = {p.name: re.fullmatch(r'Result<(.*),String,?>', ftypes[p.name]).group(1) for p in op.params}
    bb = {n: m.group(1) for n, t in inner.items() for m in [re.fullmatch(r'types::builder::(\w+)', t)] if m}
    tag = lambda t, n='': f'G21.{t} {w.doc}.{op.oid}' + (f'.{n}' if n else '')
    # new
    f = impl('new')
    if f is None:
        raise Lost(f'{ty}::new')
    new, st = [('new', f'r.{own} == $p0')], ''
    for p in op.params:
        if p.name in bb:
            new.append((f'new.{p.name}', f'r.{p.name} == Ok::<{inner[p.name]}, String>(types::builder::{bb[p.name]}::s_default())'))
        elif p.opt:
            new.append((f'new.{p.name}', f'r.{p.name} matches Ok(None)'))
        else:
            new.append((f'new.{p.name}', f'r.{p.name} matches Err(m) && holds(m@, {rs(p.name)}@)'))
            st += names_it(w, f, p.name)
    ens = [(tag(a), b) for a, b in new]
    w.fn('new', C(ens=ens, start=f'proof {{ {st} }}' if st else ''), f=f, ty=ty)
    w.news[op.oid] = [(tag('client-' + a), b.replace('$p0', 'self')) for a, b in new]
    # setters
    for p in op.params:
        f = impl(p.name)
        if f is None:
            raise Lost(f'{ty}::{p.name}')
        keep = [f'r.{n} == self.{n}' for n in ftypes if n != p.name]
        frame = (tag('others-kept', p.name), ' && '.join(keep))
        t = inner[p.name]
        if p.opt:
            t = re.fullmatch(r'Option<(.*)>', t).group(1)
        G = re.search(r'\w+', f.generics or '').group(0) if f.generics else None
        if G is None or len(f.params) != 1:
            raise Lost(f'setter {p.name} of {ty}')
        want = {'octets': 'reqwest::Body', 'text': 'String'}.get(getattr(p, 'kind', ''), 'types::' + bb[p.name] if p.name in bb else t)
        conv = f'<{G} as VTryInto<{want}>>::conv($p0)'
        made = f'types::{bb[p.name]}::opened(v)' if p.name in bb else 'v.into_spec()' if getattr(p, 'kind', '') in ('octets', 'text') else 'Some(v)' if p.opt else 'v'
        errt = f'<{G} as VTryInto<{want}>>::Error'
        st = names_it(w, f, p.name)
        w.ctors = {'Some': (inner[p.name], 'Some'), 'VP_OPEN': ('', '')}
        sub = []
        if p.name in bb:
            B = bb[p.name]
            sub = [(r'\.map\(From::from\)', f'.map(|v: types::{B}| -> (cr: types::builder::{B}) ensures cr == types::{B}::opened(v) {{ From::from(v) }})')]
        w.fn(p.name, C(ens=[(tag('set', p.name), f'match {conv} {{ Ok(v) => r.{p.name} == Ok::<{inner[p.name]}, String>({made}), Err(_) => r.{p.name} matches Err(m) && holds(m@, {rs(p.name)}@) }}'), frame],
                       closures=closures(w, f, {'error': errt}), fmt={'format': fmt_lit}, subst=sub + MUT_SELF, start=MUT_START + f' proof {{ {st} }}'), f=f, ty=ty)
        if p.name in bb:
            f = impl(p.name + '_map')
            if f is None:
                raise Lost(f'{p.name}_map of {ty}')
            w.fn(f.name, C(req=[(tag('map-pre', p.name), 'forall|b: types::builder::' + bb[p.name] + '| #[trigger] $p0.requires((b,))')],
                           ens=[(tag('map', p.name), f'match self.{p.name} {{ Ok(b) => r.{p.name} matches Ok(c) && $p0.ensures((b,), c), Err(e) => r.{p.name} == self.{p.name} }}'), frame], subst=MUT_SELF, start=MUT_START), f=f, ty=ty)
    if prop == 'G21':
        return
    # send
    f = impl('send')
    if f is None:
        raise Lost(f'{ty}::send')

    def val(p):
        a = f'self.{by[p.where, p.api]}->Ok_0'
        if p.where == 'path':
            return f'({a}).vtext()'
        if p.where == 'query':
            return f'({a}).vq()'
        if p.where == 'header':
            return f'otext({a})' if p.opt else f'({a}).vtext()'
        if p.name in bb:
            a = f'types::{bb[p.name]}::built({a})->Ok_0'
        return f'({a}).vb()' if p.kind in ('json', 'form') else f'({a})'
    before = []
    for p in op.params:
        before.append((f'self.{p.name} is Err', f'(self.{p.name}->Err_0)@'))
        if p.name in bb:
            built = f'types::{bb[p.name]}::built(self.{p.name}->Ok_0)'
            before.append((f'self.{p.name} is Ok && {built} is Err', f'({built}->Err_0)@'))
    c = send_contract(w, op, f, f'self.{own}', val, prop, before)
    w.fn('send', C(fmt={'format': fmt}, closures=closures(w, f, {}), subst=[(r'^\(\s*self', f'(self, {LOG}')], **c), f=f, ty=ty)


def inside(src, name):
    """the text inside a module"""
    it = [x for x in src.items if x.kind == 'mod' and x.name == name and x.body]
    if len(it) != 1:
        raise Lost('module ' + name)
    a, b = it[0].body
    return src.text[src.toks[a].b:src.toks[b].a]


BROADCAST = 'crate::vtxt::group_txt, crate::reqwest::header::ax_value, crate::progenitor_client::ax_from_error, crate::progenitor_client::ax_from_header'


def one(w0, e, code, prop):
    text = respace(code)
    for pat, rep in SUBST:
        t2 = re.sub(pat, rep, text)
        if t2 != text:
            w0.rules.add(f'W9 {pat} -> {rep}')
        text = t2
    src = Src(text, e['name'])
    w = Weave(src, prop)
    w.probe = w0.probe
    w.doc = e['name']
    ops = model.read(e)
    w.raw(f'pub mod {e["name"]} {{\nuse vstd::prelude::*;\nuse crate::*;\nuse crate::progenitor_client::{{encode_path, RequestBuilderExt, ByteStream, Error, ResponseValue}};\nuse crate::reqwest;\nbroadcast use {BROADCAST};\n')
    w.raw(types_mod(src.text, e, e['interface'] == 'builder'))
    w.struct('Client')
    client_ty = 'Client'
    v = rs(e['doc']['info']['version'])
    w.fn('api_version', C(ens=[(f'{prop}.version {w.doc}', f'r@ == {v}@')]), ty='Client')
    w.fn('new_with_client', C(ens=[(f'{prop}.base-url {w.doc}', 'r.baseurl@ == $p0@ && r.client == $p1' + (' && r.inner == $p2' if e['inner'] else ''))]), ty='Client')
    for op in ops:
        if e['interface'] != 'builder':
            positional(w, op, prop)
    if e['interface'] == 'builder':
        w2 = Weave(Src(inside(src, 'builder'), e['name']), prop)
        w2.probe, w2.doc, w2.news = w0.probe, w.doc, {}
        w2.raw('pub mod builder {\nuse vstd::prelude::*;\nuse crate::*;\nuse super::types;\nuse crate::reqwest;\nuse crate::progenitor_client::{encode_path, RequestBuilderExt, ByteStream, Error, ResponseValue};\nbroadcast use ' + BROADCAST + ';\n')
        for op in ops:
            builder(w2, op, prop)
        w2.raw('}\n')
        w.raw(w2.text())
        for k in ('contracted', 'uncontracted', 'tags', 'census'):
            getattr(w, k).extend(getattr(w2, k))
        w.rules |= w2.rules
        for op in ops if e['tag'] != 'separate' else []:
            f = next((f for f in src.fns() if f.name == op.oid and f.parent is not None and f.parent.kind == 'impl' and not f.quals), None)
            if f is None:
                raise Lost(f'method {op.oid}')
            w.fn(op.oid, C(ens=w2.news[op.oid]), f=f, ty='Client')
    w.raw('}\n')
    w0.raw(w.text())
    for k in ('contracted', 'uncontracted', 'tags', 'census'):
        getattr(w0, k).extend([f'{w.doc}::{x}' for x in getattr(w, k)] if k in ('contracted', 'uncontracted') else getattr(w, k))
    w0.rules |= w.rules


def build(prop):
    def b(src, probe):
        w = Weave(src, prop)
        w.probe = probe
        w.raw(HEAD + world())
        w.programs = 0
        for e, code, err in src.docs:
            if e['name'].startswith(WHICH[prop]):
                if code is None:
                    raise Lost(f'no client for {e["name"]}: {err}')
                only = os.environ.get('VP_ONLY')
                if only and e['name'] not in only.split(','):
                    continue
                one(w, e, code, prop)
                w.programs += 1
        w.raw('} // verus!\nfn main() {}\n')
        return w
    return b


BUILD = {'G20': build('G20'), 'G21': build('G21')}
