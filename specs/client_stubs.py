"""Verus contracts for the dependencies of progenitor-client (all of them assumptions)."""

HEAD = '''#![feature(pattern)]
#![allow(unused)]
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
'''
TAIL = '''
} // verus!
fn main() {}
'''

# ---------------------------------------------------------------------------------------------
HTTP = r'''
pub mod bytes {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Bytes(());
impl Bytes { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub use bytes::Bytes;

pub mod reqwest {
use vstd::prelude::*;
use super::bytes::Bytes;

#[derive(Copy, Clone)]
pub struct StatusCode(pub u16);
impl vstd::std_specs::cmp::PartialEqSpecImpl for StatusCode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &StatusCode) -> bool { *self == *o }
}
impl PartialEq for StatusCode { fn eq(&self, o: &StatusCode) -> bool { self.0 == o.0 } }
impl Eq for StatusCode {}
impl StatusCode {
    pub const CONTINUE: StatusCode = StatusCode(100);
    pub const SWITCHING_PROTOCOLS: StatusCode = StatusCode(101);
    pub const OK: StatusCode = StatusCode(200);
    pub const CREATED: StatusCode = StatusCode(201);
    pub const ACCEPTED: StatusCode = StatusCode(202);
    pub const NO_CONTENT: StatusCode = StatusCode(204);
    pub const PARTIAL_CONTENT: StatusCode = StatusCode(206);
    pub const NOT_MODIFIED: StatusCode = StatusCode(304);
    pub const BAD_REQUEST: StatusCode = StatusCode(400);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const UPGRADE_REQUIRED: StatusCode = StatusCode(426);
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    pub fn as_u16(&self) -> (r: u16) ensures r == self.0 { self.0 }
    pub fn is_informational(&self) -> (r: bool) ensures r == (100 <= self.0 < 200) { 100 <= self.0 && self.0 < 200 }
    pub fn is_success(&self) -> (r: bool) ensures r == (200 <= self.0 < 300) { 200 <= self.0 && self.0 < 300 }
    pub fn is_redirection(&self) -> (r: bool) ensures r == (300 <= self.0 < 400) { 300 <= self.0 && self.0 < 400 }
    pub fn is_client_error(&self) -> (r: bool) ensures r == (400 <= self.0 < 500) { 400 <= self.0 && self.0 < 500 }
    pub fn is_server_error(&self) -> (r: bool) ensures r == (500 <= self.0 < 600) { 500 <= self.0 && self.0 < 600 }
}

#[verifier::external_body]
pub struct Error(());
impl Error {
    pub uninterp spec fn s_status(&self) -> Option<StatusCode>;
    #[verifier::external_body]
    pub fn status(&self) -> (r: Option<StatusCode>) ensures r == self.s_status() { unimplemented!() }
    #[verifier::external_body] pub fn is_status(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_timeout(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_connect(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_builder(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_request(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_body(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_decode(&self) -> (r: bool) { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;

#[verifier::external_body]
pub struct Upgraded(());

/// the not yet read body of a response, as a stream of chunks
#[verifier::external_body]
pub struct BodyStream(());

#[verifier::external_body]
pub struct Response(());
impl Response {
    pub uninterp spec fn s_status(&self) -> StatusCode;
    pub uninterp spec fn s_headers(&self) -> header::HeaderMap;
    pub uninterp spec fn s_bytes(&self) -> core::result::Result<Bytes, Error>;
    pub uninterp spec fn s_upgrade(&self) -> core::result::Result<Upgraded, Error>;
    pub uninterp spec fn s_stream(&self) -> BodyStream;
    #[verifier::external_body]
    pub fn status(&self) -> (r: StatusCode) ensures r == self.s_status() { unimplemented!() }
    #[verifier::external_body]
    pub fn headers(&self) -> (r: &header::HeaderMap) ensures *r == self.s_headers() { unimplemented!() }
    #[verifier::external_body]
    pub fn headers_mut(&mut self) -> (r: &mut header::HeaderMap)
        ensures *r == old(self).s_headers(), final(self).s_headers() == *final(r), final(self).s_status() == old(self).s_status(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn content_length(&self) -> (r: Option<u64>) { unimplemented!() }
    #[verifier::external_body]
    pub async fn bytes(self) -> (r: core::result::Result<Bytes, Error>) ensures r == self.s_bytes() { unimplemented!() }
    #[verifier::external_body]
    pub async fn upgrade(self) -> (r: core::result::Result<Upgraded, Error>) ensures r == self.s_upgrade() { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes_stream(self) -> (r: BodyStream) ensures r == self.s_stream() { unimplemented!() }
}

pub mod header {
use vstd::prelude::*;
/// a header name: its number, and the lower-case text it stands for
#[derive(Copy, Clone)]
pub struct HeaderName(pub u16);
pub const CONTENT_LENGTH: HeaderName = HeaderName(1);
pub const CONTENT_TYPE: HeaderName = HeaderName(2);
pub const ACCEPT: HeaderName = HeaderName(3);
pub const TRANSFER_ENCODING: HeaderName = HeaderName(4);
pub const CONTENT_RANGE: HeaderName = HeaderName(5);
pub const CONTENT_ENCODING: HeaderName = HeaderName(6);
pub const CONNECTION: HeaderName = HeaderName(7);
pub const UPGRADE: HeaderName = HeaderName(8);
pub const AUTHORIZATION: HeaderName = HeaderName(9);
#[verifier::external_body]
pub struct HeaderMap(());
impl Clone for HeaderMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl HeaderMap {
    /// the first value under a name
    pub uninterp spec fn s_get(&self, n: HeaderName) -> Option<HeaderValue>;
    pub uninterp spec fn s_empty() -> HeaderMap;
    #[verifier::external_body]
    pub fn get(&self, n: HeaderName) -> (r: Option<&HeaderValue>)
        ensures self.s_get(n) is Some == r is Some, r is Some ==> *r->Some_0 == self.s_get(n)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, n: HeaderName) -> (r: bool) ensures r == (self.s_get(n) is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r == Self::s_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures *final(self) == Self::s_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, n: HeaderName) -> (r: Option<HeaderValue>)
        ensures r == old(self).s_get(n), final(self).s_get(n) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, n: HeaderName, v: HeaderValue) -> (r: Option<HeaderValue>)
        ensures r == old(self).s_get(n), final(self).s_get(n) == Some(v) { unimplemented!() }
}
#[verifier::external_body]
pub struct HeaderValue(());
impl HeaderValue {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    /// the value as text, if all of it is visible ASCII
    pub uninterp spec fn s_text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: core::result::Result<&str, ToStrError>)
        ensures self.s_text() is Some == r is Ok, r is Ok ==> r->Ok_0@ == self.s_text()->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_static(s: &'static str) -> (r: Self) ensures r.s_text() == Some(s@) { unimplemented!() }
}
#[verifier::external_body]
pub struct ToStrError(());
#[verifier::external_body]
pub struct InvalidHeaderValue(());
impl InvalidHeaderValue {
    pub uninterp spec fn s_msg(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.s_msg() { unimplemented!() }
}
} // header
} // reqwest

pub mod serde_json {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Error(());
pub type Result<T> = core::result::Result<T, Error>;
pub uninterp spec fn s_decode<T>(b: Seq<u8>) -> core::result::Result<T, Error>;
pub trait ByteView { spec fn bv(&self) -> Seq<u8>; }
impl ByteView for super::bytes::Bytes { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl ByteView for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn from_slice<T, B: ByteView + ?Sized>(b: &B) -> (r: core::result::Result<T, Error>)
    ensures r == s_decode::<T>(b.bv()) { unimplemented!() }
} // serde_json

pub trait DeserializeOwned {}
'''

STREAM = r'''
#[verifier::external_body]
pub struct InnerByteStream(());
/// a boxed stream yields what the stream it boxes yields
pub uninterp spec fn s_boxed(s: reqwest::BodyStream) -> InnerByteStream;
#[verifier::external_body]
pub fn vbox_pin(s: reqwest::BodyStream) -> (r: InnerByteStream) ensures r == s_boxed(s) { unimplemented!() }
'''

# ---------------------------------------------------------------------------------------------
# C01: percent_encoding. The bodies are there only so that rustc can evaluate constants; Verus
# sees the contracts.
PERCENT = r'''
pub mod percent_encoding {
use vstd::prelude::*;
pub struct AsciiSet { mask: [bool; 128] }
impl AsciiSet {
    /// the ASCII bytes that get encoded
    pub uninterp spec fn has(&self, b: u8) -> bool;
    #[verifier::external_body]
    pub const fn add(&self, byte: u8) -> (r: Self) requires byte < 128 ensures forall|b: u8| #[trigger] r.has(b) == (self.has(b) || b == byte)
    { let mut m = self.mask; m[byte as usize] = true; AsciiSet { mask: m } }
    #[verifier::external_body]
    pub const fn remove(&self, byte: u8) -> (r: Self) requires byte < 128 ensures forall|b: u8| #[trigger] r.has(b) == (self.has(b) && b != byte)
    { let mut m = self.mask; m[byte as usize] = false; AsciiSet { mask: m } }
}
#[verifier::external_body]
pub exec const CONTROLS: &'static AsciiSet ensures forall|b: u8| #[trigger] CONTROLS.has(b) == (b < 32 || b == 127) { &AsciiSet { mask: [true; 128] } }
#[verifier::external_body]
pub exec const NON_ALPHANUMERIC: &'static AsciiSet
    ensures forall|b: u8| #[trigger] NON_ALPHANUMERIC.has(b) == (b < 48 || (57 < b && b < 65) || (90 < b && b < 97) || (122 < b && b < 128))
    { &AsciiSet { mask: [true; 128] } }

pub open spec fn hexd(n: u8) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
pub open spec fn enc1(b: u8, set: AsciiSet) -> Seq<u8> {
    if b >= 128 || set.has(b) { seq![37u8, hexd(b / 16), hexd(b % 16)] } else { seq![b] }
}
/// what the crate documents: every non-ASCII byte and every byte of the set becomes %XX, the rest is kept
pub open spec fn enc(s: Seq<u8>, set: AsciiSet) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { enc1(s[0], set) + enc(s.skip(1), set) }
}
pub open spec fn ascii(s: Seq<u8>) -> Seq<char> { s.map_values(|b: u8| b as char) }
#[verifier::external_body]
pub struct PercentEncode(());
impl PercentEncode {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == ascii(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<T>(self) -> (r: String) ensures r@ == ascii(self@) { unimplemented!() }
}
#[verifier::external_body]
pub fn utf8_percent_encode(input: &str, ascii_set: &AsciiSet) -> (r: PercentEncode)
    ensures r@ == enc(vstd::utf8::encode_utf8(input@), *ascii_set) { unimplemented!() }
#[verifier::external_body]
pub fn percent_encode(input: &[u8], ascii_set: &AsciiSet) -> (r: PercentEncode)
    ensures r@ == enc(input@, *ascii_set) { unimplemented!() }
}
use percent_encoding::{AsciiSet, enc, enc1, hexd, ascii};

/// characters that delimit, restructure or terminate a URL path
pub open spec fn forbidden(b: u8) -> bool {
    b < 32 || b == 127 || b == 32 || b == 34 || b == 35 || b == 60 || b == 62 || b == 63 || b == 96 || b == 123 || b == 125
    || b == 47 || b == 92
}
pub open spec fn good_set(set: AsciiSet) -> bool { set.has(37) && forall|b: u8| forbidden(b) ==> #[trigger] set.has(b) }
pub open spec fn is_hex(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 70 }
pub open spec fn unhex(b: u8) -> u8 { if b <= 57 { (b - 48) as u8 } else { (b - 55) as u8 } }
/// percent decoding, as the server does it
pub open spec fn dec(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == 37 && s.len() >= 3 && is_hex(s[1]) && is_hex(s[2]) { seq![(unhex(s[1]) * 16 + unhex(s[2])) as u8] + dec(s.skip(3)) }
    else { seq![s[0]] + dec(s.skip(1)) }
}
/// text that is one path segment: printable ASCII, nothing forbidden, percent signs only in escapes
pub open spec fn segment(s: Seq<u8>) -> bool decreases s.len() {
    s.len() == 0
    || (s[0] == 37 && s.len() >= 3 && is_hex(s[1]) && is_hex(s[2]) && segment(s.skip(3)))
    || (s[0] < 128 && s[0] != 37 && !forbidden(s[0]) && segment(s.skip(1)))
}
pub proof fn lemma_enc(s: Seq<u8>, set: AsciiSet)
    requires good_set(set)
    ensures segment(enc(s, set)), dec(enc(s, set)) == s
    decreases s.len()
{
    if s.len() > 0 {
        lemma_enc(s.skip(1), set);
        let t = enc(s.skip(1), set);
        let h = enc1(s[0], set);
        let e = h + t;
        assert(enc(s, set) == e);
        if s[0] >= 128 || set.has(s[0]) {
            let b = s[0];
            assert(h.len() == 3);
            assert(e.skip(3) =~= t);
            assert(e[0] == 37 && e[1] == hexd(b / 16) && e[2] == hexd(b % 16));
            assert(is_hex(e[1]) && is_hex(e[2]));
            assert(unhex(e[1]) == b / 16 && unhex(e[2]) == b % 16);
            assert((b / 16) * 16 + b % 16 == b);
            assert(dec(e) =~= seq![b] + s.skip(1));
        } else {
            assert(e.skip(1) =~= t);
            assert(e[0] == s[0]);
            if forbidden(s[0]) { assert(set.has(s[0])); }
            assert(dec(e) =~= seq![s[0]] + s.skip(1));
        }
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
/// stated over every set so that the contract of encode_path does not name the one in use
pub broadcast proof fn lemma_enc_any(s: Seq<u8>, set: AsciiSet)
    ensures good_set(set) ==> segment(#[trigger] enc(s, set)) && dec(enc(s, set)) == s
{
    if good_set(set) { lemma_enc(s, set); }
}
'''

# ---------------------------------------------------------------------------------------------
# C12, C13: every error value is one opaque DynError, so that coercion to dyn Error is the identity
DYN = r'''
#[verifier::external_body]
pub struct DynError(());
impl DynError {
    pub uninterp spec fn s_source(&self) -> Option<DynError>;
    pub uninterp spec fn s_text(&self) -> Seq<char>;
    /// length of the chain of sources (finite: an error owns its source)
    pub uninterp spec fn depth(&self) -> nat;
    #[verifier::external_body]
    pub fn source(&self) -> (r: Option<&DynError>)
        ensures self.s_source() is Some == r is Some, r is Some ==> *r->Some_0 == self.s_source()->Some_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.s_text() { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_depth(e: DynError)
    ensures (#[trigger] e.s_source()) is Some ==> e.s_source()->Some_0.depth() < e.depth() {}
'''


def http_dyn():
    t = HTTP
    a = '#[verifier::external_body]\npub struct Error(());\nimpl Error {'
    assert a in t
    t = t.replace(a, 'pub use super::DynError as Error;\nimpl Error {', 1)
    b = '#[verifier::external_body]\npub struct Error(());\npub type Result<T>'
    assert b in t
    t = t.replace(b, 'pub use super::DynError as Error;\npub type Result<T>', 1)
    return DYN + t


FMT = r'''
pub mod vfmt {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Formatter<'a>(core::marker::PhantomData<&'a ()>);
pub struct Error;
pub type Result = core::result::Result<(), Error>;
impl<'a> Formatter<'a> {
    /// text written so far
    pub uninterp spec fn view(&self) -> Seq<char>;
    pub uninterp spec fn s_alt(&self) -> bool;
    /// the sink below has reported an error
    pub uninterp spec fn broken(&self) -> bool;
    #[verifier::external_body]
    pub fn alternate(&self) -> (r: bool) ensures r == self.s_alt() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result) ensures wrote(*old(self), *final(self), r, s@) { unimplemented!() }
}
/// a formatting step succeeds and appends exactly t, or fails because the sink did
pub open spec fn wrote(a: Formatter, b: Formatter, r: Result, t: Seq<char>) -> bool {
    &&& b.s_alt() == a.s_alt()
    &&& r is Ok ==> b@ =~= a@ + t
    &&& r is Err ==> b.broken()
}
pub trait Display { spec fn s_disp(&self, alt: bool) -> Seq<char>; }
pub trait Debug { spec fn s_dbg(&self) -> Seq<char>; }
impl<T: Display + ?Sized> Display for &T { open spec fn s_disp(&self, alt: bool) -> Seq<char> { (**self).s_disp(alt) } }
impl<T: Debug + ?Sized> Debug for &T { open spec fn s_dbg(&self) -> Seq<char> { (**self).s_dbg() } }
impl Display for String { open spec fn s_disp(&self, alt: bool) -> Seq<char> { self@ } }
impl Display for str { open spec fn s_disp(&self, alt: bool) -> Seq<char> { self@ } }
impl Display for super::DynError { open spec fn s_disp(&self, alt: bool) -> Seq<char> { self.s_text() } }
pub uninterp spec fn dbg_bytes(b: super::bytes::Bytes) -> Seq<char>;
pub uninterp spec fn dbg_str(b: Seq<char>) -> Seq<char>;
pub uninterp spec fn dbg_err(b: super::DynError) -> Seq<char>;
pub uninterp spec fn dbg_resp(b: super::reqwest::Response) -> Seq<char>;
pub uninterp spec fn dbg_headers(b: super::reqwest::header::HeaderMap) -> Seq<char>;
pub uninterp spec fn disp_status(b: super::reqwest::StatusCode) -> Seq<char>;
pub uninterp spec fn dbg_status(b: super::reqwest::StatusCode) -> Seq<char>;
impl Debug for super::bytes::Bytes { open spec fn s_dbg(&self) -> Seq<char> { dbg_bytes(*self) } }
impl Debug for String { open spec fn s_dbg(&self) -> Seq<char> { dbg_str(self@) } }
impl Debug for super::DynError { open spec fn s_dbg(&self) -> Seq<char> { dbg_err(*self) } }
impl Debug for super::reqwest::Response { open spec fn s_dbg(&self) -> Seq<char> { dbg_resp(*self) } }
impl Debug for super::reqwest::header::HeaderMap { open spec fn s_dbg(&self) -> Seq<char> { dbg_headers(*self) } }
impl Debug for super::reqwest::StatusCode { open spec fn s_dbg(&self) -> Seq<char> { dbg_status(*self) } }
impl Display for super::reqwest::StatusCode { open spec fn s_disp(&self, alt: bool) -> Seq<char> { disp_status(*self) } }
#[verifier::external_body]
pub fn w_lit(f: &mut Formatter<'_>, s: &str) -> (r: Result) ensures wrote(*old(f), *final(f), r, s@) { unimplemented!() }
#[verifier::external_body]
pub fn w_disp<T: Display + ?Sized>(f: &mut Formatter<'_>, x: &T) -> (r: Result) ensures wrote(*old(f), *final(f), r, x.s_disp(false)) { unimplemented!() }
#[verifier::external_body]
pub fn w_dispalt<T: Display + ?Sized>(f: &mut Formatter<'_>, x: &T) -> (r: Result) ensures wrote(*old(f), *final(f), r, x.s_disp(true)) { unimplemented!() }
#[verifier::external_body]
pub fn w_dbg<T: Debug + ?Sized>(f: &mut Formatter<'_>, x: &T) -> (r: Result) ensures wrote(*old(f), *final(f), r, x.s_dbg()) { unimplemented!() }
}
'''

# ---------------------------------------------------------------------------------------------
# C14
FORM = r'''
pub trait Serialize { }
pub mod serde_urlencoded {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Error(());
impl Error { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn s_urlencode<T: ?Sized>(x: &T) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn to_string<T: super::Serialize + ?Sized>(x: &T) -> (r: Result<String, Error>)
    ensures r is Ok == s_urlencode(x) is Some, r is Ok ==> r->Ok_0@ == s_urlencode(x)->Some_0 { unimplemented!() }
}
#[verifier::external_body]
pub struct RequestBuilder(());
pub uninterp spec fn name_num(h: Seq<char>) -> u16;
pub trait HName { spec fn num(&self) -> u16; }
impl HName for reqwest::header::HeaderName { open spec fn num(&self) -> u16 { self.0 } }
impl HName for &str { open spec fn num(&self) -> u16 { name_num(self@) } }
pub trait HValue { spec fn txt(&self) -> Option<Seq<char>>; }
impl HValue for reqwest::header::HeaderValue { open spec fn txt(&self) -> Option<Seq<char>> { self.s_text() } }
impl HValue for &str { open spec fn txt(&self) -> Option<Seq<char>> { Some(self@) } }
pub trait IntoBody { spec fn btext(&self) -> Seq<char>; }
impl IntoBody for String { open spec fn btext(&self) -> Seq<char> { self@ } }
impl IntoBody for &str { open spec fn btext(&self) -> Seq<char> { self@ } }
pub struct Timeout;
#[verifier::external_body]
pub struct Rest(());
impl RequestBuilder {
    pub uninterp spec fn s_headers(&self) -> Seq<(u16, Option<Seq<char>>)>;
    pub uninterp spec fn s_body(&self) -> Option<Seq<char>>;
    /// method, URL, timeout, version, client, sticky error
    pub uninterp spec fn s_rest(&self) -> Rest;
    #[verifier::external_body]
    pub fn header<K: HName, V: HValue>(self, k: K, v: V) -> (r: Self)
        ensures r.s_headers() == self.s_headers().push((k.num(), v.txt())), r.s_body() == self.s_body(), r.s_rest() == self.s_rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn body<T: IntoBody>(self, b: T) -> (r: Self)
        ensures r.s_headers() == self.s_headers(), r.s_body() == Some(b.btext()), r.s_rest() == self.s_rest() { unimplemented!() }
}
'''
