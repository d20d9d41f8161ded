"""Definitions of the planted bugs (development only; no check reads this)."""
import os, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = 'progenitor-client/src/progenitor_client.rs'

CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
progenitor-client = { path = "/repo/progenitor-client" }
reqwest = { version = "0.12.4", default-features = false, features = ["json", "stream"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
serde_urlencoded = "0.7"
http = "1"
bytes = "1"
url = "2"
futures-core = "0.3"
tokio = { version = "1", features = ["rt", "net", "io-util", "time"] }

[profile.dev]
debug = 0
'''
DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/demo.toml" "$scratch/Cargo.toml"
cp "$here/demo.lock" "$scratch/Cargo.lock"
cp "$here/demo.rs" "$scratch/src/main.rs"
[ -e "$here/rec.rs" ] && cp "$here/rec.rs" "$scratch/src/"
cd "$scratch" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$scratch/target}" RUSTFLAGS=-Awarnings
cargo build --offline --quiet || exit 3
"$CARGO_TARGET_DIR/debug/demo"
'''
PRE = '''#![allow(unused)]
use progenitor_client::*;
use reqwest::header::{HeaderMap, HeaderValue};
use reqwest::{Response, StatusCode};
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
fn response(status: u16, headers: &[(&'static str, &str)], body: &str) -> Response {
    let mut r = http::Response::new(body.to_string());
    *r.status_mut() = StatusCode::from_u16(status).unwrap();
    for (k, v) in headers { r.headers_mut().append(*k, HeaderValue::from_str(v).unwrap()); }
    Response::from(r)
}
'''


def demo(out, d):
    if d.get('kind') == 'gen':
        from importlib import util
        sp = util.spec_from_file_location('gendemo', os.path.join(ROOT, 'tools/gendemo.py'))
        m = util.module_from_spec(sp)
        sp.loader.exec_module(m)
        return {'cargo': m.cargo, 'macro': m.macro}.get(d.get('mocks'), m.demo)(out, d)
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
    open(os.path.join(out, 'demo.toml'), 'w').write(CARGO)
    shutil.copy(os.path.join(ROOT, 'native/client/Cargo.lock'), os.path.join(out, 'demo.lock'))
    s = open(os.path.join(out, 'demo.lock')).read().replace('name = "native-client"', 'name = "demo"')
    open(os.path.join(out, 'demo.lock'), 'w').write(s)
    open(os.path.join(out, 'demo.rs'), 'w').write(PRE + d['demo'])
    if 'mod rec;' in d['demo']:
        shutil.copy(os.path.join(ROOT, 'native/client/src/rec.rs'), os.path.join(out, 'rec.rs'))


MACRO = r'''
fn settings(file: &str, options: serde_json::Value) -> std::result::Result<(GenerationSettings, String), String> {
    let dir = std::path::PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let doc = r#"{"openapi": "3.0.3", "info": {"title": "t", "version": "1"}, "paths": {"/a": {"get": {"operationId": "one", "responses": {"204": {"description": "d"}}}}}}"#;
    std::fs::write(dir.join("doc.json"), doc).unwrap();
    std::fs::write(dir.join("doc.yaml"), format!("# a comment\n{doc}")).unwrap();
    let mut o = options;
    o["spec"] = serde_json::json!(format!("{file:?}"));
    let r = do_generate_api(format!("options {:?}", o.to_string()).parse().unwrap()).map_err(|e| e.to_string())?;
    Ok((SEEN.with(|x| x.borrow().last().cloned()).unwrap(), r.to_string()))
}
'''


SEEDS = {
 'c01-no-double-encoding': dict(property='C01', needs='a value that already contains something that looks like an escape, e.g. "100%25"',
   breaks='the value is left as it is when it looks already encoded, so decoding gives a different value',
   edits=[(CL, 'percent_encoding::utf8_percent_encode(pc, PATH_SET).to_string()', '''let mut out = String::with_capacity(pc.len());
    let mut rest = pc;
    while let Some(at) = rest.find('%') {
        let (head, tail) = rest.split_at(at);
        out.extend(percent_encoding::utf8_percent_encode(head, PATH_SET));
        let hex = tail.as_bytes().get(1..3).map_or(false, |h| h.iter().all(u8::is_ascii_hexdigit));
        // Already escaped; don't escape it again.
        out.push_str(if hex { "%" } else { "%25" });
        rest = &tail[1..];
    }
    out.extend(percent_encoding::utf8_percent_encode(rest, PATH_SET));
    out''')],
   demo='''fn main() {
    for v in ["100%", "100%25", "%zz", "a%2Fb", "plain"] {
        let u = url::Url::parse(&format!("http://h/x/{}/y", encode_path(v))).unwrap();
        let seg: Vec<&str> = u.path_segments().unwrap().collect();
        let got = seg[1].replace("%25", "\\u{1}").replace("%2F", "/").replace("\\u{1}", "%");
        if seg.len() != 3 || got != v { println!("{v:?} arrives as {got:?}"); std::process::exit(1); }
    }
}'''),
 'c02-u64-through-i64': dict(property='C02', needs='an unsigned 64-bit value above i64::MAX',
   breaks='the parameter value is emitted as a negative number',
   edits=[(CL, '    serialize_scalar!(serialize_u64, u64);\n', ''),
          (CL, '''    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {''', '''    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
        self.serialize_i64(v as i64)
    }

    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {''')],
   demo='''fn main() {
    for v in [0u64, 7, u64::MAX] {
        let r = reqwest::Client::new().get("http://h/").query(&QueryParam::new("n", &v)).build().unwrap();
        let want = format!("n={v}");
        if r.url().query() != Some(&want) { println!("{:?} instead of {want}", r.url().query()); std::process::exit(1); }
    }
}'''),
 'c03-element-error-swallowed': dict(property='C03', needs='an element the serializer rejects in the middle of an array',
   breaks='the rejected element is dropped and the request goes out without it instead of the error being returned',
   edits=[(CL, '        self.inner.serialize_element(&v)\n    }', '''        // Elements with no query representation contribute no pair.
        match self.inner.serialize_element(&v) {
            Ok(()) => Ok(()),
            Err(_) => Ok(()),
        }
    }''')],
   demo='''use serde::{Serialize, Serializer};
struct Item(u8);
impl Serialize for Item {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 == 13 { return Err(serde::ser::Error::custom("unlucky")); }
        s.serialize_u8(self.0)
    }
}
fn main() {
    let ok = reqwest::Client::new().get("http://h/").query(&QueryParam::new("n", &vec![Item(1), Item(2)])).build().unwrap();
    if ok.url().query() != Some("n=1&n=2") { println!("{:?}", ok.url()); std::process::exit(1); }
    let bad = reqwest::Client::new().get("http://h/").query(&QueryParam::new("n", &vec![Item(1), Item(13), Item(2)])).build();
    if let Ok(r) = bad { println!("a request was built: {}", r.url()); std::process::exit(1); }
}'''),
 'c04-struct-variant-index': dict(property='C04', needs='a struct variant of an enum and a serializer that uses the variant index',
   breaks='the index handed on is that of the tuple length',
   edits=[(CL, '.serialize_struct_variant(name, variant_index, variant, len)', '.serialize_struct_variant(name, len as u32, variant, len)')],
   demo='''mod rec;
use rec::{Rec, Tree};
use serde::Serialize;
fn main() {
    for v in [Tree::StructVariant("Shape", 3, "Box", 2, vec![("w", Tree::U8(1)), ("h", Tree::U8(2))]), Tree::Struct("P", 1, vec![("a", Tree::U8(1))])] {
        let budget = std::cell::Cell::new(-1);
        let got = QueryParam::new("n", &v).serialize(Rec { budget: &budget }).unwrap();
        if got != v { println!("{got:?}"); std::process::exit(1) }
    }
}'''),
 'c05-empty-body-is-null': dict(property='C05', needs='an empty body for a type that accepts null',
   breaks='an undecodable empty body is reported as a decoded value instead of an error holding the body',
   edits=[(CL, '''        let inner =
            serde_json::from_slice(&full).map_err(|e| Error::InvalidResponsePayload(full, e))?;
''', '''        // Some servers answer with an empty body where they mean null.
        let text: &[u8] = if full.is_empty() { b"null" } else { &full };
        let inner = serde_json::from_slice(text)
            .map_err(|e| Error::InvalidResponsePayload(full.clone(), e))?;
''')],
   demo='''fn main() {
    let r = rt().block_on(ResponseValue::<Option<u32>>::from_response::<()>(response(200, &[], "")));
    match r {
        Err(Error::InvalidResponsePayload(b, _)) if b.is_empty() => {}
        Ok(v) => { println!("an empty body decoded to {:?}", v.into_inner()); std::process::exit(1) }
        Err(e) => { println!("{e}"); std::process::exit(1) }
    }
    let r = rt().block_on(ResponseValue::<Option<u32>>::from_response::<()>(response(200, &[], "5")));
    if r.unwrap().into_inner() != Some(5) { std::process::exit(1) }
}'''),
 'c06-any-1xx-upgrades': dict(property='C06', needs='an informational status other than 101',
   breaks='the response is consumed by an upgrade attempt instead of being handed back',
   edits=[(CL, 'if status == reqwest::StatusCode::SWITCHING_PROTOCOLS {', 'if status.is_informational() {')],
   demo='''fn main() {
    for st in [200u16, 404, 102, 103] {
        match rt().block_on(ResponseValue::<reqwest::Upgraded>::upgrade::<()>(response(st, &[], "b"))) {
            Err(Error::UnexpectedResponse(r)) if r.status().as_u16() == st => {}
            Err(e) => { println!("status {st}: {e}"); std::process::exit(1) }
            Ok(_) => { println!("status {st} upgraded"); std::process::exit(1) }
        }
    }
}'''),
 'c07-empty-drops-length-header': dict(property='C07', needs='an empty response that carries a content-length header',
   breaks='the header is removed from the headers the caller sees',
   edits=[(CL, '''    pub fn empty(response: reqwest::Response) -> Self {
        let status = response.status();
        let headers = response.headers().clone();
''', '''    pub fn empty(response: reqwest::Response) -> Self {
        let status = response.status();
        let mut headers = response.headers().clone();
        if status == reqwest::StatusCode::NO_CONTENT {
            // There is no content whatever the header says.
            headers.remove(reqwest::header::CONTENT_LENGTH);
        }
''')],
   demo='''fn main() {
    for st in [200u16, 204] {
        let rv = ResponseValue::<()>::empty(response(st, &[("content-length", "0"), ("etag", "x")], ""));
        if rv.headers().len() != 2 || rv.status().as_u16() != st { println!("status {st}: headers {:?}", rv.headers()); std::process::exit(1) }
    }
}'''),
 'c09-trimmed-length': dict(property='C09', needs='a header value with surrounding white space that survives header parsing, e.g. an inner tab or space before the digits',
   breaks='garbage around the number is accepted',
   edits=[(CL, '''            .ok()?
            .parse::<u64>()
            .ok()''', '''            .ok()?
            .trim()
            .parse::<u64>()
            .ok()''')],
   demo='''fn main() {
    for (t, w) in [("12", Some(12u64)), ("x", None), (" 12", None), ("12 ", None), ("18446744073709551615", Some(u64::MAX))] {
        let mut h = HeaderMap::new();
        h.insert("content-length", HeaderValue::from_str(t).unwrap());
        let got = ResponseValue::new((), StatusCode::OK, h).content_length();
        if got != w { println!("{t:?} gives {got:?}"); std::process::exit(1) }
    }
}'''),
 'c10-body-error-status': dict(property='C10', needs='a body-read error whose transport error carries a status',
   breaks='the status is not reported',
   edits=[(CL, 'Error::ResponseBodyError(e) => e.status(),', 'Error::ResponseBodyError(e) if e.is_body() => e.status(),\n            Error::ResponseBodyError(_) => None,')],
   demo='''fn main() {
    let e = response(503, &[], "").error_for_status().unwrap_err();
    let e: Error<()> = Error::ResponseBodyError(e);
    if e.status() != Some(StatusCode::SERVICE_UNAVAILABLE) { println!("{:?}", e.status()); std::process::exit(1) }
}'''),
 'c11-untyped-drops-headers': dict(property='C11', needs='a documented error response with headers, converted to an untyped error',
   breaks='the headers are lost except for the content type',
   edits=[(CL, '''                inner: _,
                status,
                headers,
            }) => Error::ErrorResponse(ResponseValue {
                inner: (),
                status,
                headers,
            }),''', '''                inner: _,
                status,
                mut headers,
            }) => {
                // The body is gone, and with it what described it.
                headers.remove(reqwest::header::CONTENT_LENGTH);
                Error::ErrorResponse(ResponseValue {
                    inner: (),
                    status,
                    headers,
                })
            }''')],
   demo='''fn main() {
    let mut h = HeaderMap::new();
    h.insert("content-length", HeaderValue::from_static("3"));
    h.insert("retry-after", HeaderValue::from_static("9"));
    let e: Error<u8> = Error::ErrorResponse(ResponseValue::new(1, StatusCode::CONFLICT, h.clone()));
    match e.into_untyped() {
        Error::ErrorResponse(rv) if rv.headers() == &h && rv.status() == StatusCode::CONFLICT => {}
        Error::ErrorResponse(rv) => { println!("{:?}", rv.headers()); std::process::exit(1) }
        _ => std::process::exit(1),
    }
}'''),
 'c12-payload-source': dict(property='C12', needs='a payload-decoding error caused by a syntax error rather than by data',
   breaks='the decoder error is not reachable as source',
   edits=[(CL, 'Error::InvalidResponsePayload(_b, e) => Some(e),', 'Error::InvalidResponsePayload(b, e) if !b.is_empty() => Some(e),')],
   demo='''use std::error::Error as _;
fn main() {
    for b in ["{", ""] {
        let e = serde_json::from_str::<u8>(b).unwrap_err();
        let t = e.to_string();
        let e: Error<()> = Error::InvalidResponsePayload(bytes::Bytes::copy_from_slice(b.as_bytes()), e);
        if e.source().map(|s| s.to_string()) != Some(t) { println!("body {b:?}: source {:?}", e.source()); std::process::exit(1) }
    }
}'''),
 'c13-chain-skips-repeats': dict(property='C13', needs='a cause chain in which two neighbouring causes have the same text',
   breaks='one of them is not shown',
   edits=[(CL, '''                write!(f, ": {s}")?;
                src = s.source();''', '''                let next = s.source();
                // A wrapper often repeats the text of what it wraps.
                if next.map(|n| n.to_string()) != Some(s.to_string()) {
                    write!(f, ": {s}")?;
                }
                src = next;''')],
   demo='''#[derive(Debug)]
struct L(u8);
impl std::fmt::Display for L { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "level {}", self.0 / 2) } }
static C: [L; 4] = [L(0), L(1), L(2), L(3)];
impl std::error::Error for L { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { C.get(self.0 as usize + 1).map(|x| x as _) } }
struct R;
impl std::io::Read for R { fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Err(std::io::Error::new(std::io::ErrorKind::Other, L(0))) } }
fn main() {
    let e = serde_json::from_reader::<_, u8>(R).unwrap_err();
    let mut want = String::new();
    let mut p = std::error::Error::source(&e);
    while let Some(x) = p { want += &format!(": {x}"); p = x.source(); }
    let e: Error<()> = Error::InvalidResponsePayload(bytes::Bytes::new(), e);
    let (plain, alt) = (format!("{e}"), format!("{e:#}"));
    if alt != format!("{plain}{want}") { println!("{alt}"); std::process::exit(1) }
}'''),
 'c14-body-lossy': dict(property='C14', needs='a form value that cannot be URL-encoded',
   breaks='a request with an empty body is produced instead of an invalid-request error',
   edits=[(CL, '''                serde_urlencoded::to_string(body)
                    .map_err(|_| Error::InvalidRequest("failed to serialize body".to_string()))?,''', '''                match serde_urlencoded::to_string(body) {
                    Ok(text) => text,
                    // Nothing to send.
                    Err(_) if std::mem::size_of_val(body) == 0 => String::new(),
                    Err(_) => {
                        return Err(Error::InvalidRequest(
                            "failed to serialize body".to_string(),
                        ))
                    }
                },''')],
   demo='''#[derive(serde::Serialize)]
struct Marker;
fn main() {
    let rb = || reqwest::Client::new().post("http://h/");
    let r: Result<_, Error<()>> = rb().form_urlencoded(&[("a", "b c")][..]);
    if r.unwrap().build().unwrap().body().unwrap().as_bytes() != Some(b"a=b+c") { std::process::exit(1) }
    #[derive(serde::Serialize)]
    enum E { A }
    let bad: Result<_, Error<()>> = rb().form_urlencoded(&E::A);
    if bad.is_ok() { println!("a request was made of a value that has no form encoding"); std::process::exit(1) }
    let bad: Result<_, Error<()>> = rb().form_urlencoded(&5u8);
    if bad.is_ok() { std::process::exit(1) }
}'''),
 'c08-map-resets-status': dict(property='C08', needs='mapping a response with a status other than a success status',
   breaks='the mapped response has another status',
   edits=[(CL, '''        Ok(ResponseValue {
            inner: f(inner),
            status,
            headers,
        })''', '''        // What was mapped is a value, so the response counts as a success.
        let status = match status.is_redirection() {
            true => reqwest::StatusCode::OK,
            false => status,
        };
        Ok(ResponseValue {
            inner: f(inner),
            status,
            headers,
        })''')],
   demo='''fn main() {
    for st in [200u16, 302, 404] {
        let st = StatusCode::from_u16(st).unwrap();
        let rv = ResponseValue::new(1u8, st, HeaderMap::new()).map::<u16, _, ()>(|x| x as u16).unwrap();
        if rv.status() != st { println!("{st} became {}", rv.status()); std::process::exit(1) }
    }
}'''),
}


SEEDS.update({
 'g01-brace-in-name': dict(property='G01', kind='gen', mod='template.rs', needs='a path whose parameter name starts with an opening brace, e.g. "/a/{{b}"',
  breaks='a malformed path is accepted',
  edits=[('progenitor-impl/src/template.rs', "if a.contains('/') || a.contains('{') {", "if a.contains('/') || a.trim_start_matches('{').contains('{') {")],
  demo='''pub fn run() -> std::result::Result<(), String> {
    for p in ["/a/{b", "/a/{b{c}", "/a/{{b}", "/{{", "a", "", "/a}"] { ensure(parse(p).is_err(), || format!("{p} accepted"))?; }
    for p in ["/a/{b}", "/{a}{b}", "/"] { ensure(parse(p).is_ok(), || format!("{p} rejected"))?; }
    Ok(())
}'''),
 'g04-wildcard-prefix': dict(property='G04', kind='gen', mod='template.rs', needs='two parameters of which one name is a prefix of the other',
  breaks='the pattern marks a second parameter as the one asked for',
  edits=[('progenitor-impl/src/template.rs', 'Component::Parameter(p) if p == param => "{}".to_string(),', 'Component::Parameter(p) if p.starts_with(param) => "{}".to_string(),')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    let t = parse("/x/{id}/y/{id2}").unwrap();
    let w = t.as_wildcard_param("id");
    ensure(w == "^/x/{}/y/.*$", || w.clone())?;
    let w = t.as_wildcard_param("id2");
    ensure(w == "^/x/.*/y/{}$", || w.clone())
}'''),
 'g05-trailing-slash-lost': dict(property='G05', kind='gen', mod='template.rs', needs='a path that ends in a slash after a parameter',
  breaks='the slash is missing from the request URL',
  edits=[('progenitor-impl/src/template.rs', '''                Component::Constant(n) => fmt.push_str(n),
                Component::Parameter(_) => fmt.push_str("{}"),
            }
        }
''', '''                Component::Constant(n) => fmt.push_str(n),
                Component::Parameter(_) => fmt.push_str("{}"),
            }
        }
        // A trailing slash makes no difference to what is addressed.
        let fmt = match fmt.strip_suffix("{}/") {
            Some(head) => format!("{head}{{}}"),
            None => fmt,
        };
''')],
  demo='''fn of(p: &str) -> String {
    let t = parse(p).unwrap();
    let n = t.names();
    t.compile(n.iter().map(|x| (x, x)).collect(), quote! { self }).to_string()
}
pub fn run() -> std::result::Result<(), String> {
    for (p, w) in [("/a/{b}/", "{}/a/{}/"), ("/a/{b}", "{}/a/{}"), ("/a/", "{}/a/"), ("/", "{}/")] {
        let c = of(p);
        ensure(c.contains(&format!("{w:?}")), || format!("{p}: {c}"))?;
    }
    Ok(())
}'''),
 'g07-success-statuses': dict(property='G07', kind='gen', mod='method.rs', needs='a documented status between 227 and 299',
  breaks='the status is no success',
  edits=[('progenitor-impl/src/method.rs', '''                | OperationResponseStatus::Code(101)
                | OperationResponseStatus::Code(200..=299)
''', '''                | OperationResponseStatus::Code(101 | 200..=226)
''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    for s in 100u16..600 {
        let g = OperationResponseStatus::Code(s).is_success_or_default();
        ensure(g == (s == 101 || s / 100 == 2), || format!("{s}: {g}"))?;
    }
    Ok(())
}'''),
 'g08-header-case': dict(property='G08', kind='gen', mod='method.rs', needs='two header parameters whose names differ only in case',
  breaks='their order depends on the order in the document',
  edits=[('progenitor-impl/src/method.rs', '''                (OperationParameterKind::Header(_), OperationParameterKind::Header(_)) => {
                    a_name.cmp(b_name)
''', '''                (OperationParameterKind::Header(_), OperationParameterKind::Header(_)) => {
                    // Header names are case-insensitive.
                    a_name.to_ascii_lowercase().cmp(&b_name.to_ascii_lowercase())
''')],
  demo='''fn p(n: &str) -> OperationParameter {
    OperationParameter { name: n.to_string(), api_name: n.to_string(), description: None, typ: OperationParameterType::RawBody, kind: OperationParameterKind::Header(true) }
}
pub fn run() -> std::result::Result<(), String> {
    let order = |v: &[&str]| { let mut v: Vec<_> = v.iter().map(|n| p(n)).collect(); sort_params(&mut v, &[]); v.into_iter().map(|p| p.api_name).collect::<Vec<_>>() };
    for v in [["x", "a"], ["X-Id", "x-id"], ["A", "b"], ["b", "A"]] {
        let (x, y) = (order(&v), order(&[v[1], v[0]]));
        ensure(x == y, || format!("{x:?} or {y:?}"))?;
    }
    Ok(())
}'''),
 'g09-second-underscore': dict(property='G09', kind='gen', mod='util.rs', needs='parameters named "url" and "_url"',
  breaks='the helper variable has the name of a parameter',
  edits=[('progenitor-impl/src/util.rs', '''        if !identities.contains(&ident) {
            return ident;
        }

        name.insert_str(0, "_");
''', '''        // Parameter names come sanitized: one underscore tells us apart.
        if name.starts_with('_') || !identities.contains(&ident) {
            return ident;
        }

        name.insert_str(0, "_");
''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    let ids = |v: &[&str]| v.iter().map(|n| quote::format_ident!("{}", n)).collect::<Vec<_>>();
    for v in [&["a"][..], &["url"], &["url", "_url"], &["_url", "__url", "url"]] {
        let l = ids(v);
        let g = unique_ident_from("url", &l);
        ensure(!l.contains(&g), || format!("{g} for {v:?}"))?;
    }
    Ok(())
}'''),
 'g10-emoji-continue': dict(property='G10', kind='gen', mod='util.rs', needs='a name whose first character may continue but not start an identifier, such as a middle dot',
  breaks='the result is no identifier',
  edits=[('progenitor-impl/src/util.rs', 'Some(c) if is_xid_start(c) => out,', "Some(c) if is_xid_continue(c) && !c.is_ascii() || is_xid_start(c) => out,")],
  demo='''pub fn run() -> std::result::Result<(), String> {
    for n in ["abc", "1a", "+1", "type", "\\u{b7}a", "\\u{301}x", "\\u{660}b", "\\u{203f}q", "a\\u{301}"] {
        for c in [Case::Snake, Case::Pascal] {
            let s = sanitize(n, c);
            ensure(syn::parse_str::<syn::Ident>(&s).is_ok(), || format!("{n:?} becomes {s:?}"))?;
        }
    }
    Ok(())
}'''),
 'g12-leading-v': dict(property='G12', kind='gen', mod='lib.rs', needs='a version with a leading v',
  breaks='a version that is not 3.0.x is accepted',
  edits=[('progenitor-impl/src/lib.rs', 'if spec_version.trim().starts_with("3.0.") {', "if spec_version.trim().trim_start_matches(['v', 'V']).starts_with(\"3.0.\") {")],
  demo='''pub fn run() -> std::result::Result<(), String> {
    for (v, ok) in [("3.0.0", true), ("3.0.3", true), (" 3.0.1 ", true), ("3.1.0", false), ("2.0", false), ("v3.0.0", false), ("V3.0.1", false), ("3.0", false), ("", false)] {
        ensure(validate_openapi_spec_version(v).is_ok() == ok, || format!("{v:?}"))?;
    }
    Ok(())
}'''),
 'g13-last-semicolon': dict(property='G13', kind='gen', mod='method.rs', needs='a media type with two parameters',
  breaks='the content type is not recognised',
  edits=[('progenitor-impl/src/method.rs', "let offset = s.find(';').unwrap_or(s.len());", "let offset = s.rfind(';').unwrap_or(s.len());")],
  demo='''pub fn run() -> std::result::Result<(), String> {
    for s in ["application/json", "application/json; charset=utf-8", "application/json;v=1;charset=utf-8"] {
        ensure(matches!(BodyContentType::from_str(s), Ok(BodyContentType::Json)), || s.to_string())?;
    }
    ensure(BodyContentType::from_str("application/jsonx").is_err(), || "jsonx".into())
}'''),
 'g14-nullable-required': dict(property='G14', kind='gen', mod='method.rs', needs='a required query parameter whose type is itself optional (nullable)',
  breaks='the parameter counts as required',
  edits=[('progenitor-impl/src/method.rs', '(inner_type_id, false)', '(inner_type_id, parameter_data.required)')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    let spec = document(serde_json::json!({"/a": {"get": {"operationId": "op", "parameters": [
        {"in": "query", "name": "n", "required": true, "style": "form", "schema": {"type": "string", "nullable": true}},
        {"in": "query", "name": "m", "required": true, "style": "form", "schema": {"type": "string"}},
        {"in": "query", "name": "o", "required": false, "style": "form", "schema": {"type": "string"}}],
        "responses": {"204": {"description": "d"}}}}}), serde_json::json!({}));
    let mut g = Generator::new(&crate::GenerationSettings::new());
    let item = spec.paths.paths["/a"].as_item().unwrap();
    let m = g.process_operation(item.get.as_ref().unwrap(), &spec.components, "/a", "get", &item.parameters).unwrap();
    for p in &m.params { ensure(p.kind.is_required() == (p.name == "m"), || format!("{}: {:?}", p.name, p.kind))?; }
    Ok(())
}'''),
 'g17-path-parameter-wins': dict(property='G17', kind='gen', mod='method.rs', needs='an operation that overrides a parameter of its path item',
  breaks='the parameter of the path item is used',
  edits=[('progenitor-impl/src/method.rs', 'combined_path_parameters.insert(&parameter.parameter_data_ref().name, parameter);', '''combined_path_parameters
                .entry(&parameter.parameter_data_ref().name)
                .or_insert(parameter);''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    let spec = document(serde_json::json!({"/a": {"parameters": [
        {"in": "query", "name": "n", "required": true, "style": "form", "schema": {"type": "string"}},
        {"in": "query", "name": "k", "required": true, "style": "form", "schema": {"type": "string"}}],
        "get": {"operationId": "op", "parameters": [
        {"in": "header", "name": "n", "required": false, "style": "simple", "schema": {"type": "string"}}],
        "responses": {"204": {"description": "d"}}}}}), serde_json::json!({}));
    let mut g = Generator::new(&crate::GenerationSettings::new());
    let item = spec.paths.paths["/a"].as_item().unwrap();
    let m = g.process_operation(item.get.as_ref().unwrap(), &spec.components, "/a", "get", &item.parameters).unwrap();
    let got: Vec<_> = m.params.iter().map(|p| format!("{} {:?}", p.api_name, p.kind)).collect();
    ensure(got == ["k Query(true)", "n Header(false)"], || format!("{got:?}"))
}'''),
 'g18-error-default-popped': dict(property='G18', kind='gen', mod='method.rs', needs='an error range together with a default response',
  breaks='the default arm is missing from the errors',
  edits=[('progenitor-impl/src/method.rs', '''                OperationResponse {
                    status_code: OperationResponseStatus::Range(2),
                    ..
                },
                OperationResponse {
                    status_code: OperationResponseStatus::Default,''', '''                OperationResponse {
                    status_code: OperationResponseStatus::Range(2 | 5),
                    ..
                },
                OperationResponse {
                    status_code: OperationResponseStatus::Default,''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    use OperationResponseStatus as S;
    let spec = document(serde_json::json!({"/a": {"get": {"operationId": "op", "responses": {"204": {"description": "d"}, "default": {"description": "d"}, "5XX": {"description": "d"}}}}}), serde_json::json!({}));
    let mut g = Generator::new(&crate::GenerationSettings::new());
    let item = spec.paths.paths["/a"].as_item().unwrap();
    let m = g.process_operation(item.get.as_ref().unwrap(), &spec.components, "/a", "get", &item.parameters).unwrap();
    let got: Vec<_> = g.extract_responses(&m, S::is_error_or_default).0.iter().map(|r| r.status_code.clone()).collect();
    ensure(got == [S::Range(5), S::Default], || format!("{got:?}"))?;
    let got: Vec<_> = g.extract_responses(&m, S::is_success_or_default).0.iter().map(|r| r.status_code.clone()).collect();
    ensure(got == [S::Code(204), S::Default], || format!("{got:?}"))
}'''),
 'g19-range-success': dict(property='G19', kind='gen', mod='method.rs', needs='a pagination extension on an operation with two typed success responses of which one is a range',
  breaks='a stream is generated although the page type is not unique',
  edits=[('progenitor-impl/src/method.rs', '''                        OperationResponseStatus::Code(200..=299)
                        | OperationResponseStatus::Range(2),
                        OperationResponseKind::Type(type_id),''', '''                        OperationResponseStatus::Code(200..=299),
                        OperationResponseKind::Type(type_id),''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    let page = serde_json::json!({"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string"}}});
    let page = serde_json::json!({"$ref": "#/components/schemas/Page"});
    let comps = serde_json::json!({"schemas": {"Page": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string"}}}}});
    let r = |j: &serde_json::Value| serde_json::json!({"description": "d", "content": {"application/json": {"schema": j}}});
    for (resp, want) in [(serde_json::json!({"200": r(&page)}), true), (serde_json::json!({"2XX": r(&page)}), true), (serde_json::json!({"200": r(&page), "2XX": r(&page)}), false)] {
        let spec = document(serde_json::json!({"/a": {"get": {"operationId": "op", "x-dropshot-pagination": {"required": []}, "parameters": [
            {"in": "query", "name": "page_token", "required": false, "style": "form", "schema": {"type": "string"}},
            {"in": "query", "name": "limit", "required": false, "style": "form", "schema": {"type": "integer"}}], "responses": resp}}}), comps.clone());
        let mut g = Generator::new(&crate::GenerationSettings::new());
        let c = spec.components.as_ref().unwrap();
        g.type_space.add_ref_types(c.schemas.iter().map(|(n, s)| (n.clone(), s.to_schema()))).unwrap();
        let item = spec.paths.paths["/a"].as_item().unwrap();
        let m = g.process_operation(item.get.as_ref().unwrap(), &spec.components, "/a", "get", &item.parameters).unwrap();
        ensure(m.dropshot_paginated.is_some() == want, || format!("paginated: {} for {resp}", !want))?;
    }
    Ok(())
}'''),
 'g20-query-by-rust-name': dict(property='G20', kind='gen', mod='lib.rs', needs='a builder or positional method with an array query parameter whose document name is no Rust name',
  breaks='the parameter is sent under its Rust name',
  edits=[('progenitor-impl/src/method.rs', '''                    let qn = &param.api_name;
''', '''                    // A suffix only marks that the parameter may repeat.
                    let qn = param.api_name.strip_suffix("[]").unwrap_or(&param.api_name);
''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    for n in ["plain", "page-size", "tag[]", "a.b"] {
        let spec = document(serde_json::json!({"/a": {"get": {"operationId": "op", "parameters": [
            {"in": "query", "name": n, "required": true, "style": "form", "schema": {"type": "array", "items": {"type": "string"}}}],
            "responses": {"204": {"description": "d"}}}}}), serde_json::json!({}));
        let t = generate(&spec, false)?.replace(' ', "");
        ensure(t.contains(&format!("{n:?}")), || format!("{n} is not sent under its name"))?;
    }
    Ok(())
}'''),
 'g20-error-range-end': dict(property='G20', kind='gen', mod='lib.rs', needs='a response with status 499 or 599 where a 4XX or 5XX response is documented',
  breaks='the response is reported as unexpected',
  edits=[('progenitor-impl/src/method.rs', 'let max = min + 99;', '// up to the next hundred\n                    let max = min + 98;')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    for r in [4u16, 5] {
        let spec = document(serde_json::json!({"/a": {"get": {"operationId": "op", "responses": {"204": {"description": "d"}, format!("{r}XX"): {"description": "d"}}}}}), serde_json::json!({}));
        let t = generate(&spec, false)?.replace(' ', "").replace("u16", "");
        ensure(t.contains(&format!("{r}00..={r}99")), || format!("the arm of {r}XX"))?;
    }
    Ok(())
}'''),
 'g20-accept-for-errors': dict(property='G20', kind='gen', mod='lib.rs', needs='an operation without a success body whose errors are typed',
  breaks='JSON errors are not asked for',
  edits=[('progenitor-impl/src/method.rs', '''            (OperationResponseKind::Type(_), _)
                | (OperationResponseKind::None, OperationResponseKind::Type(_))
''', '''            (OperationResponseKind::Type(_), _)
                | (OperationResponseKind::Raw, OperationResponseKind::Type(_))
''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    let j = serde_json::json!({"description": "d", "content": {"application/json": {"schema": {"type": "string"}}}});
    let n = serde_json::json!({"description": "d"});
    for (s, e, want) in [(&j, &n, true), (&j, &j, true), (&n, &j, true), (&n, &n, false)] {
        let spec = document(serde_json::json!({"/a": {"get": {"operationId": "op", "responses": {"200": s, "4XX": e}}}}), serde_json::json!({}));
        let t = generate(&spec, false)?.replace(' ', "");
        ensure(t.contains("header::ACCEPT") == want, || format!("accept header: {} for {s} {e}", !want))?;
    }
    Ok(())
}'''),
 'g21-default-text-body': dict(property='G21', kind='gen', mod='lib.rs', needs='a builder for an operation with a raw body that is never set',
  breaks='an empty body is sent instead of the error',
  edits=[('progenitor-impl/src/method.rs', '''                OperationParameterType::RawBody => {
                    let err_msg = format!("{} was not initialized", param.name);
                    Ok(quote! { Err(#err_msg.to_string()) })
                }''', '''                OperationParameterType::RawBody
                    if param.kind == OperationParameterKind::Body(BodyContentType::OctetStream) =>
                {
                    // No bytes have been provided yet.
                    Ok(quote! { Ok(reqwest::Body::from("")) })
                }
                OperationParameterType::RawBody => {
                    let err_msg = format!("{} was not initialized", param.name);
                    Ok(quote! { Err(#err_msg.to_string()) })
                }''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    for ct in [("text/plain", serde_json::json!({"type": "string"})), ("application/octet-stream", serde_json::json!({"type": "string", "format": "binary"}))] {
        let spec = document(serde_json::json!({"/a": {"post": {"operationId": "op", "requestBody": {"required": true, "content": {ct.0: {"schema": ct.1}}}, "responses": {"204": {"description": "d"}}}}}), serde_json::json!({}));
        let t = generate(&spec, true)?.replace(' ', "");
        ensure(!t.contains("body:Ok("), || format!("a {} body has a default", ct.0))?;
    }
    Ok(())
}'''),
 'g22-step-keeps-query': dict(property='G22', kind='gen', mod='lib.rs', needs='a builder page stream with a further query parameter and more than one page',
  breaks='the parameter of the first page is repeated with every page token',
  edits=[('progenitor-impl/src/method.rs', '''                if param.api_name.as_str() != "limit"
                    && matches!(param.kind, OperationParameterKind::Query(_))
                {
                    // Query parameters (other than "limit") are None; having''', '''                if page_data.first_page_params.contains(&param.api_name)
                    || param.api_name.as_str() != "limit"
                        && page_data.first_page_params.is_empty()
                        && matches!(param.kind, OperationParameterKind::Query(_))
                {
                    // Query parameters (other than "limit") are None; having''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    let page = serde_json::json!({"$ref": "#/components/schemas/Page"});
    let comps = serde_json::json!({"schemas": {"Page": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string"}}}}});
    for req in [serde_json::json!([]), serde_json::json!(["order"])] {
        let q = |n: &str| serde_json::json!({"in": "query", "name": n, "required": false, "style": "form", "schema": {"type": "string"}});
        let spec = document(serde_json::json!({"/a": {"get": {"operationId": "op", "x-dropshot-pagination": {"required": req}, "parameters": [q("page_token"), q("limit"), q("order"), q("zone")],
            "responses": {"200": {"description": "d", "content": {"application/json": {"schema": page}}}}}}}), comps.clone());
        let t = generate(&spec, true)?.replace(' ', "");
        let at = t.find("letnext=Self{").ok_or("no template")?;
        let head = &t[at..at + t[at..].find("..").ok_or("no end")?];
        ensure(head.contains("order:Ok(None)") && head.contains("zone:Ok(None)"), || head.to_string())?;
    }
    Ok(())
}'''),
 'g23-ids-per-path': dict(property='G23', kind='gen', mod='lib.rs', needs='a document with two equal operation ids in different path items',
  breaks='the duplicate is not reported',
  edits=[('progenitor-impl/src/lib.rs', 'if !opids.insert(oid.to_string()) {', 'if !opids.insert((p.0.to_string(), oid.to_string())) {')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    let o = |n: &str| serde_json::json!({"operationId": n, "responses": {"204": {"description": "d"}}});
    for (a, b, ok) in [("x", "y", true), ("x", "x", false)] {
        let one = document(serde_json::json!({"/a": {"get": o(a), "put": o(b)}}), serde_json::json!({}));
        ensure(validate_openapi(&one).is_ok() == ok, || format!("{a} {b} in one path"))?;
        let two = document(serde_json::json!({"/a": {"get": o(a)}, "/b": {"get": o(b)}}), serde_json::json!({}));
        ensure(validate_openapi(&two).is_ok() == ok, || format!("{a} {b} in two paths"))?;
    }
    Ok(())
}'''),
 'g11-crate-rename-sticks': dict(property='G11', kind='gen', mod='lib.rs', needs='with_crate called twice for one crate, first with and then without a rename',
  breaks='the rename of the first call survives the second',
  edits=[('progenitor-impl/src/lib.rs', '''        self.crates.insert(
            crate_name.to_string(),
            CrateSpec {
                version,
                rename: rename.cloned(),
            },
        );
        self''', '''        let crate_name = crate_name.to_string();
        let rename = rename
            .or_else(|| self.crates.get(&crate_name)?.rename.as_ref())
            .cloned();
        self.crates.insert(crate_name, CrateSpec { version, rename });
        self''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    let mut s = GenerationSettings::new();
    let other = "other".to_string();
    s.with_crate("c", CrateVers::Any, Some(&other));
    ensure(s.crates["c"].rename.as_deref() == Some("other"), || "lost".into())?;
    s.with_crate("c", CrateVers::Never, None);
    ensure(s.crates["c"].rename.is_none() && s.crates.len() == 1, || format!("{:?}", s.crates))
}'''),
 'g16-repeated-boolean': dict(property='G16', kind='gen', mod='to_schema.rs', needs='a boolean schema whose enumeration lists one value twice',
  breaks='the enumeration is dropped',
  edits=[('progenitor-impl/src/to_schema.rs', '''                instance_type: instance_type(schemars::schema::InstanceType::Boolean, nullable),
                enum_values: enumeration.convert(),''', '''                instance_type: instance_type(schemars::schema::InstanceType::Boolean, nullable),
                // Listing both values says nothing.
                enum_values: match enumeration.len() {
                    0 | 1 => enumeration.convert(),
                    _ => None,
                },''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    for (e, want) in [(serde_json::json!([true]), true), (serde_json::json!([false]), true), (serde_json::json!([true, true]), true)] {
        let s: openapiv3::Schema = serde_json::from_value(serde_json::json!({"type": "boolean", "enum": e})).unwrap();
        let j = s.to_schema().into_object();
        let mut v = j.enum_values.unwrap_or_default();
        v.dedup();
        ensure(v.len() == 1, || format!("{e}: {v:?}"))?;
    }
    Ok(())
}'''),
 'g16-not-nullable': dict(property='G16', kind='gen', mod='to_schema.rs', needs='a nullable negated schema',
  breaks='null is not accepted',
  edits=[('progenitor-impl/src/to_schema.rs', '''                        not: Some(Box::new(not.convert())),
                        ..Default::default()
                    })),
                    extensions,
                    ..Default::default()
                },
                nullable,''', '''                        not: Some(Box::new(not.convert())),
                        ..Default::default()
                    })),
                    extensions,
                    ..Default::default()
                },
                // A negation of something that is not null admits null.
                nullable && not.as_item().map_or(false, |s| s.schema_data.nullable),''')],
  demo='''pub fn run() -> std::result::Result<(), String> {
    for (n, inner) in [(false, false), (true, true), (true, false)] {
        let s: openapiv3::Schema = serde_json::from_value(serde_json::json!({"nullable": n, "not": {"type": "string", "nullable": inner}})).unwrap();
        let j = s.to_schema().into_object();
        let wrapped = j.subschemas.as_ref().map_or(false, |s| s.one_of.is_some());
        ensure(wrapped == n, || format!("nullable {n}, inner {inner}: wrapped {wrapped}"))?;
    }
    Ok(())
}'''),
})

MOCKDEMO = '''pub fn run() -> std::result::Result<(), String> {
    let spec = document(%s, serde_json::json!({}));
    let t = crate::Generator::new(&crate::GenerationSettings::new()).httpmock(&spec, "crate").map_err(|e| e.to_string())?;
    std::fs::write(std::env::var("VP_OUT").unwrap(), t.to_string()).map_err(|e| e.to_string())
}'''
SEEDS.update({
 'g26-none-prefix': dict(property='G26', kind='gen', mod='lib.rs', needs='an optional query parameter set to None on a mock, and a request with another query parameter whose name begins with its name',
  breaks='the mock does not match a request without that parameter',
  edits=[('progenitor-impl/src/httpmock.rs', '|(key, _)| key == #name)', "// also its indexed forms, name[0], name[1] ..\n                                                    |(key, _)| key.starts_with(#name))")],
  demo=MOCKDEMO % '''serde_json::json!({"/a": {"get": {"operationId": "list", "parameters": [
        {"in": "query", "name": "page", "style": "form", "schema": {"type": "string"}}, {"in": "query", "name": "page_token", "style": "form", "schema": {"type": "string"}}],
        "responses": {"204": {"description": "d"}}}}})''',
  run='''fn main() {
    let asks = |q: &[(&str, &str)]| {
        let s = MockServer::default();
        s.list(|when, then| { let _ = (when.page(None), then); });
        let w = s.0.borrow().clone().unwrap().0;
        w.fits(&HttpMockRequest { path: "/a".into(), query_params: Some(q.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()) })
    };
    let ok = asks(&[]) && asks(&[("x", "1")]) && !asks(&[("page", "1")]) && asks(&[("page_token", "t")]) && !asks(&[("page_token", "t"), ("page", "2")]);
    if !ok { println!("a mock of requests without page misjudges one"); std::process::exit(1) }
}
'''),
 'g26-range-below': dict(property='G26', kind='gen', mod='lib.rs', needs='a mock reply for a documented range given a status below the range',
  breaks='the undocumented status is accepted',
  edits=[('progenitor-impl/src/httpmock.rs', 'assert_eq!(status / 100u16, #status_type);', 'assert!(status < (#status_type + 1u16) * 100u16);')],
  demo=MOCKDEMO % '''serde_json::json!({"/a": {"get": {"operationId": "look", "responses": {"2XX": {"description": "d"}, "4XX": {"description": "d"}, "5XX": {"description": "d"}}}}})''',
  run='''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let answers = |class: u16, n: u16| std::panic::catch_unwind(|| {
        let s = MockServer::default();
        s.look(|when, then| { let _ = (when, match class { 2 => then.success(n), 4 => then.client_error(n), _ => then.server_error(n) }); });
        let t = s.0.borrow().clone().unwrap().1;
        let got = *t.0.borrow();
        got
    }).unwrap_or(None);
    for class in [2u16, 4, 5] {
        for n in 100..=700u16 {
            let want = (n / 100 == class).then_some(n);
            if answers(class, n) != want { println!("{class}XX with {n}: {:?}", answers(class, n)); std::process::exit(1) }
        }
    }
}
'''),
 'g25-first-content': dict(property='G25', kind='gen', mod='method.rs', needs='a response with several contents of which JSON is not the first',
  breaks='the response is raw instead of typed',
  edits=[('progenitor-impl/src/method.rs', 'response.content.iter().find_map(|(x, v)| {', '// the document lists what it prefers first\n                    let typ = response.content.first();\n                    let typ = if let Some(mt) = typ.into_iter().find_map(|(x, v)| {')],
  demo=''''''),
 'g25-described-channel': dict(property='G25', kind='gen', mod='method.rs', needs='a websocket channel whose response documents a content that is not JSON',
  breaks='the response is raw instead of an upgrade',
  edits=[('progenitor-impl/src/method.rs', '''} else if dropshot_websocket {
                        OperationResponseKind::Upgrade
                    } else if response.content.first().is_some() {
                        OperationResponseKind::Raw''', '''} else if response.content.first().is_some() {
                        OperationResponseKind::Raw
                    } else if dropshot_websocket {
                        OperationResponseKind::Upgrade''')],
  demo=''''''),
})
KINDS = '''fn kinds(op: serde_json::Value) -> Vec<(String, String)> {
    let op: openapiv3::Operation = serde_json::from_value(op).unwrap();
    let mut g = crate::Generator::new(&crate::GenerationSettings::new());
    let m = g.process_operation(&op, &None, "/a", "get", &[]).unwrap();
    m.responses.iter().map(|r| (match &r.status_code { OperationResponseStatus::Code(n) => n.to_string(), OperationResponseStatus::Range(n) => format!("{n}XX"), OperationResponseStatus::Default => "default".into() },
        match &r.typ { OperationResponseKind::Type(_) => "typed", OperationResponseKind::None => "none", OperationResponseKind::Raw => "raw", OperationResponseKind::Upgrade => "upgrade" }.to_string())).collect()
}
fn has(k: &[(String, String)], code: &str, kind: &str) -> std::result::Result<(), String> {
    ensure(k.iter().any(|(a, b)| a == code && b == kind), || format!("{code} is not {kind}: {k:?}"))
}
'''
SEEDS['g25-first-content']['edits'][0] = ('progenitor-impl/src/method.rs', 'response.content.iter().find_map(|(x, v)| {', 'response.content.first().into_iter().find_map(|(x, v)| {')
SEEDS['g25-first-content']['demo'] = KINDS + '''pub fn run() -> std::result::Result<(), String> {
    let j = serde_json::json!({"schema": {"type": "string"}});
    let k = kinds(serde_json::json!({"operationId": "o", "responses": {
        "200": {"description": "d", "content": {"application/json": j, "text/plain": j}},
        "201": {"description": "d", "content": {"application/cbor": j, "application/json": j}},
        "202": {"description": "d", "content": {"text/plain": j}}, "204": {"description": "d"}}}));
    has(&k, "200", "typed")?; has(&k, "201", "typed")?; has(&k, "202", "raw")?; has(&k, "204", "none")
}'''
SEEDS['g25-described-channel']['demo'] = KINDS + '''pub fn run() -> std::result::Result<(), String> {
    let a = kinds(serde_json::json!({"operationId": "o", "x-dropshot-websocket": {}, "responses": {"default": {"description": "d"}}}));
    has(&a, "default", "upgrade")?; has(&a, "101", "upgrade")?;
    let b = kinds(serde_json::json!({"operationId": "o", "x-dropshot-websocket": {}, "responses": {"default": {"description": "d", "content": {"*/*": {"schema": {}}}}}}));
    has(&b, "default", "upgrade")
}'''
CLIDEMO = '''pub fn run() -> std::result::Result<(), String> {
    let spec = document(%s, %s);
    let t = crate::Generator::new(&crate::GenerationSettings::new()).cli(&spec, "crate").map_err(|e| e.to_string())?;
    let f: syn::File = syn::parse2(t).map_err(|e| e.to_string())?;
    let mut out = String::new();
    for i in &f.items {
        if let syn::Item::Impl(i) = i {
            for m in &i.items {
                if let syn::ImplItem::Fn(m) = m {
                    if m.sig.ident.to_string().starts_with("cli_") { out += &quote::quote!(#m).to_string(); out.push('\\n') }
                }
            }
        }
    }
    std::fs::write(std::env::var("VP_OUT").unwrap(), out).map_err(|e| e.to_string())
}'''
SEEDS.update({
 'g27-clash-no-file': dict(property='G27', kind='gen', mod='lib.rs', mocks='clap', needs='a command whose body has a required property with the same name as a parameter of the operation',
  breaks='the command accepts a call that gives the property no value and no body file',
  edits=[('progenitor-impl/src/cli.rs', '''        } else if required {
            args.body_required()''', '''        } else if required && !scalar {
            // There is no way to write the value as an argument.
            args.body_required()''')],
  demo=CLIDEMO % ('''serde_json::json!({"/a/{name}": {"post": {"operationId": "clash", "parameters": [{"in": "path", "name": "name", "required": true, "schema": {"type": "string"}}],
        "requestBody": {"required": true, "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Thing"}}}}, "responses": {"204": {"description": "d"}}}},
        "/b": {"post": {"operationId": "plain", "requestBody": {"required": true, "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Thing"}}}}, "responses": {"204": {"description": "d"}}}}})''',
   '''serde_json::json!({"schemas": {"Thing": {"type": "object", "required": ["name"], "properties": {"name": {"type": "string"}, "size": {"type": "integer", "format": "int64"}}}}})'''),
  run='''fn main() {
    // the file is needed exactly when a required property cannot be given as an argument
    if !cli_clash().accepts(&["name", "json-body"]) || cli_clash().accepts(&["name"]) || !cli_plain().accepts(&["name"]) || !cli_plain().accepts(&["json-body"]) || cli_plain().accepts(&["size"]) {
        println!("a command accepts a call without the body's name, or refuses one with it"); std::process::exit(1)
    }
}
'''),
 'g27-first-page-name': dict(property='G27', kind='gen', mod='lib.rs', mocks='clap', needs='a paginated operation whose first page needs a query parameter with a name in camel case',
  breaks='the command does not require the parameter',
  edits=[('progenitor-impl/src/cli.rs', 'required.contains(&param.api_name));', 'required.contains(&param.name));')],
  demo=CLIDEMO % ('''serde_json::json!({"/a": {"get": {"operationId": "list", "x-dropshot-pagination": {"required": ["sortBy", "more"]}, "parameters": [
        {"in": "query", "name": "sortBy", "style": "form", "schema": {"type": "string"}}, {"in": "query", "name": "more", "style": "form", "schema": {"type": "string"}},
        {"in": "query", "name": "limit", "style": "form", "schema": {"type": "integer", "format": "uint32", "minimum": 1}}, {"in": "query", "name": "page_token", "style": "form", "schema": {"type": "string"}}],
        "responses": {"200": {"description": "d", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Page"}}}}}}}})''',
   '''serde_json::json!({"schemas": {"Page": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string"}}}}})'''),
  run='''fn main() {
    if !cli_list().accepts(&["sort-by", "more"]) || cli_list().accepts(&["sort-by"]) || cli_list().accepts(&["more"]) || !cli_list().accepts(&["more", "sort-by", "limit"]) {
        println!("the listing runs without a parameter its first page needs, or not with both"); std::process::exit(1)
    }
}
'''),
})
CRATE = '''import json, os, subprocess, sys, tomllib
OK = {"200": {"description": "d", "content": {"application/json": {"schema": {"type": "string"}}}}}
def crate(paths, schemas={}, **k):
    with open("in.json", "w") as f:
        json.dump({"openapi": "3.0.3", "info": {"title": "t", "version": "1"}, "paths": paths, "components": {"schemas": schemas}}, f)
    a = dict(input="in.json", output="out", name="n", version="1.0.0", registry_name=None, license_name="L", interface="positional", tags="merged", include_client=False, **k)
    subprocess.run([sys.argv[1]], env=dict(os.environ, VP_ARGS=json.dumps(a), VP_USES=""), check=True, stdout=subprocess.DEVNULL)
    return tomllib.load(open("out/Cargo.toml", "rb")), open("out/src/lib.rs").read()
'''
SEEDS.update({
 'g28-old-tail': dict(property='G28', kind='gen', mocks='cargo', needs='the command writes over a crate whose files were longer', breaks='the end of the earlier contents is left behind the new ones',
  edits=[('cargo-progenitor/src/main.rs', '''        .create(true)
        .truncate(true)
        .write(true)''', '''        .create(true)
        .write(true)''')],
  demo=CRATE + '''
many = {f"/a{i}": {"get": {"operationId": f"get_{i}", "responses": OK}} for i in range(9)}
few = {"/b": {"get": {"operationId": "get_b", "responses": OK}}}
t1, c1 = crate(few)
crate(many)
t2, c2 = crate(few)
if (t1, c1) != (t2, c2):
    sys.exit("what was there before shows in the crate")
'''),
 'g28-no-futures': dict(property='G28', kind='gen', mocks='cargo', needs='a document with a paginated operation', breaks='the crate does not depend on futures, which its code uses',
  edits=[('cargo-progenitor/src/main.rs', '    if builder.uses_futures() {', '    if builder.uses_futures() && !deps.iter().any(|d| d.starts_with("futures")) {')],
  demo=CRATE + '''
q = lambda n, **s: {"in": "query", "name": n, "style": "form", "schema": s}
t, c = crate({"/a": {"get": {"operationId": "list", "x-dropshot-pagination": {"required": []}, "parameters": [q("limit", type="integer", format="uint32", minimum=1), q("page_token", type="string")],
    "responses": {"200": {"description": "d", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Page"}}}}}}}},
    {"Page": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string"}}}})
if "futures" not in t["dependencies"]:
    sys.exit(f"the code uses futures, but the crate depends on {list(t['dependencies'])}")
'''),
})
SEEDS.update({
 'g29-default-impls': dict(property='G29', kind='gen', mocks='macro', needs='a replacement whose traits are listed', breaks='FromStr and Display are no longer taken as implemented when another trait is named',
  edits=[('progenitor-macro/src/token_utils.rs', 'let mut impls = DEFAULT_IMPLS.into_iter().collect::<HashSet<_>>();', 'let mut impls = DEFAULT_IMPLS\n            .into_iter()\n            .filter(|_| self.colon_token.is_none())\n            .collect::<HashSet<_>>();')],
  demo=MACRO + '''
pub fn run() -> std::result::Result<(), String> {
    let (s, _) = settings("doc.json", serde_json::json!({"replace": {"T": "a::B: Default"}}))?;
    let mut v: Vec<String> = s.replace["T"].1.iter().map(|x| format!("{x:?}")).collect();
    v.sort();
    if v != ["Default", "Display", "FromStr"] { return Err(format!("a::B is taken to implement {v:?}")); }
    Ok(())
}
'''),
 'g29-yaml-elsewhere': dict(property='G29', kind='gen', mocks='macro', needs='a YAML document, with the compiler started elsewhere than in the directory of the manifest', breaks='a YAML document is looked for in the current directory',
  edits=[('progenitor-macro/src/lib.rs', """            f = open_file(path.clone(), spec.span())?;
            serde_yaml""", """            f = open_file(PathBuf::from(spec.value()), spec.span())?;
            serde_yaml""")],
  demo=MACRO + '''
pub fn run() -> std::result::Result<(), String> {
    settings("doc.json", serde_json::json!({}))?;
    settings("doc.yaml", serde_json::json!({})).map(|_| ())
}
'''),
 'g29-patch-derives': dict(property='G29', kind='gen', mocks='macro', needs='a patch with several derives', breaks='only the last of the derives of a patch is kept',
  edits=[('progenitor-macro/src/lib.rs', """        a.derives.iter().for_each(|derive| {
            s.with_derive""", """        a.derives.last().into_iter().for_each(|derive| {
            s.with_derive""")],
  demo=MACRO + '''
pub fn run() -> std::result::Result<(), String> {
    let (s, _) = settings("doc.json", serde_json::json!({"patch": {"T": {"derives": ["Hash", "a::B"]}}}))?;
    let v = format!("{:?}", s.patch["T"]);
    if !v.contains("Hash") || !v.contains("B") { return Err(format!("T is to be generated with {v}")); }
    Ok(())
}
'''),
})
