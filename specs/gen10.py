"""G26: the mocking extensions made by the real generator, for all values."""
import os, re
from vp.weave import Weave, C, find_closures
from vp.rustlex import Src, Lost, norm, base
import native as NV
from native.gencode import model, runner, mocks
from specs import gen6
from specs.gen6 import respace, rs, cat, fmt, HEAD, inside

FILES = dict(G26='progenitor-impl/src/httpmock.rs')
WHICH = {'G26': ('mock_p', 'mockr_p')}
NOTE = dict(G26='The functions under contract are those of the mocking extension the real generator makes on every run from the document listed in the evidence: proved for all values and statuses, bounded in the documents. '
                'httpmock, regex and the generated data types are taken by their contracts; whether a pattern text is a valid regular expression is assumed in the contracts and seen in the bounded run.')
LEVEL = dict.fromkeys(FILES, 'translation_validation')
TECHNIQUE = dict.fromkeys(FILES, 'the real generator is run on every check; contracts derived from the document on every function of the mocking extension it made, discharged by Verus (z3)')

_cache = {}


def load(root, prop):
    if root not in _cache:
        got, err = runner.generate(prop, root, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')), os.path.join(os.path.dirname(NV.HERE), '.work'), NV.build, tag='proof', which=WHICH[prop])
        if err:
            raise Lost('no generated code: ' + err[:500])
        _cache[root] = got
    s = Src('', 'generated')
    s.docs = _cache[root]
    return s


WORLD = r'''
pub use vtxt::*;
#[verifier::external_body] pub struct JV(());
pub uninterp spec fn text_json(s: Seq<char>) -> JV;
pub uninterp spec fn list_json<T>(s: Seq<T>) -> JV;
pub trait VBody { spec fn vb(&self) -> JV; }
impl VBody for str { open spec fn vb(&self) -> JV { text_json(self@) } }
impl VBody for String { open spec fn vb(&self) -> JV { text_json(self@) } }
impl<T> VBody for Vec<T> { open spec fn vb(&self) -> JV { list_json(self@) } }
impl<T: VBody + ?Sized> VBody for &T { open spec fn vb(&self) -> JV { (**self).vb() } }
impl<T> VInto<Option<T>> for Option<T> { open spec fn into_spec(self) -> Option<T> { self } fn vp_into(self) -> Option<T> { self } }
/// comparing texts
#[verifier::external_body] pub fn vp_same<A: VText + ?Sized, B: VText + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.vtext() == b.vtext()) { unimplemented!() }
/// a failing assertion: it must not fail on what the document allows
#[verifier::external_body] pub fn vp_refuse(documented: bool) requires !documented ensures false { unimplemented!() }
pub mod serde_json { use vstd::prelude::*; #[verifier::external_body] pub struct Value(()); }
pub mod regex { use vstd::prelude::*;
#[verifier::external_body] pub struct Regex(());
#[verifier::external_body] #[derive(Debug)] pub struct Error(());
pub uninterp spec fn valid(s: Seq<char>) -> bool;
impl Regex { pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(s: &str) -> (r: core::result::Result<Regex, Error>) ensures r is Ok == valid(s@), r matches Ok(x) ==> x@ == s@ { unimplemented!() } }
}
/// what a mock demands of a request, and what it answers
pub ghost enum Need { Method(httpmock::Method), Path(Seq<char>), Query(Seq<char>, Seq<char>), NoQuery(Seq<char>), Json(JV), JsonValue(serde_json::Value), Text(Seq<char>) }
pub ghost struct Reply { pub status: Option<int>, pub headers: Seq<(Seq<char>, Seq<char>)>, pub json: Option<JV>, pub value: Option<serde_json::Value> }
pub open spec fn blank() -> Reply { Reply { status: None, headers: Seq::empty(), json: None, value: None } }
pub open spec fn answers(a: Reply, b: Reply) -> bool { a.status == b.status && a.headers =~= b.headers && a.json == b.json && a.value == b.value }
pub type Pairs = Vec<(String, String)>;
pub open spec fn named(q: Pairs, n: Seq<char>) -> bool { exists|i: int| 0 <= i < q@.len() && (#[trigger] q@[i]).0@ == n }
pub mod httpmock {
use vstd::prelude::*;
use vstd::multiset::Multiset;
use super::*;
pub enum Method { GET, HEAD, POST, PUT, DELETE, CONNECT, OPTIONS, TRACE, PATCH }
pub struct HttpMockRequest { pub query_params: Option<VPairs> }
/// the pairs of a query, in a form that can be searched
pub struct VPairs(pub Pairs);
pub struct VPairsIter<'a>(pub &'a Pairs);
impl VPairs { pub fn iter(&self) -> (r: VPairsIter<'_>) ensures *r.0 == self.0 { VPairsIter(&self.0) } }
impl<'a> VPairsIter<'a> {
    #[verifier::external_body] pub fn find<F: Fn(&(String, String)) -> bool>(self, f: F) -> (r: Option<&'a (String, String)>) requires forall|x: (String, String)| #[trigger] f.requires((&x,))
        ensures match r { Some(x) => f.ensures((x,), true) && exists|i: int| 0 <= i < self.0@.len() && *x == #[trigger] self.0@[i], None => forall|i: int| 0 <= i < self.0@.len() ==> f.ensures((&#[trigger] self.0@[i],), false) } { unimplemented!() }
    #[verifier::external_body] pub fn any<F: Fn(&(String, String)) -> bool>(self, f: F) -> (r: bool) requires forall|x: (String, String)| #[trigger] f.requires((&x,))
        ensures r ==> exists|i: int| 0 <= i < self.0@.len() && f.ensures((&#[trigger] self.0@[i],), true), !r ==> forall|i: int| 0 <= i < self.0@.len() ==> f.ensures((&#[trigger] self.0@[i],), false) { unimplemented!() }
}
pub open spec fn carries(r: HttpMockRequest, n: Seq<char>) -> bool { r.query_params matches Some(q) && named(q.0, n) }
#[verifier::external_body] pub struct When(());
impl When {
    pub uninterp spec fn view(&self) -> Multiset<Need>;
    #[verifier::external_body] pub fn method(self, m: Method) -> (r: Self) ensures r@ == self@.insert(Need::Method(m)) { unimplemented!() }
    #[verifier::external_body] pub fn path_matches(self, p: regex::Regex) -> (r: Self) ensures r@ == self@.insert(Need::Path(p@)) { unimplemented!() }
    #[verifier::external_body] pub fn query_param<A: VText, B: VText>(self, n: A, v: B) -> (r: Self) ensures r@ == self@.insert(Need::Query(n.vtext(), v.vtext())) { unimplemented!() }
    #[verifier::external_body] pub fn json_body_obj<T: VBody>(self, v: &T) -> (r: Self) ensures r@ == self@.insert(Need::Json(v.vb())) { unimplemented!() }
    #[verifier::external_body] pub fn json_body(self, v: serde_json::Value) -> (r: Self) ensures r@ == self@.insert(Need::JsonValue(v)) { unimplemented!() }
    #[verifier::external_body] pub fn body<A: VText>(self, v: A) -> (r: Self) ensures r@ == self@.insert(Need::Text(v.vtext())) { unimplemented!() }
    #[verifier::external_body] pub fn matches<F: Fn(&HttpMockRequest) -> bool>(self, f: F) -> (r: Self) requires forall|q: HttpMockRequest| #[trigger] f.requires((&q,))
        ensures forall|n: Seq<char>| without(f, n) ==> r@ == #[trigger] self@.insert(Need::NoQuery(n)) { unimplemented!() }
}
/// the function accepts exactly the requests without that query parameter
pub open spec fn without<F: Fn(&HttpMockRequest) -> bool>(f: F, n: Seq<char>) -> bool { forall|q: HttpMockRequest, b: bool| #[trigger] f.ensures((&q,), b) ==> b == !carries(q, n) }
#[verifier::external_body] pub struct Then(());
impl Then {
    pub uninterp spec fn view(&self) -> Reply;
    #[verifier::external_body] pub fn status(self, s: u16) -> (r: Self) ensures r@ == (Reply { status: Some(s as int), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn header<A: VText, B: VText>(self, n: A, v: B) -> (r: Self) ensures r@ == (Reply { headers: self@.headers.push((n.vtext(), v.vtext())), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn json_body_obj<T: VBody>(self, v: &T) -> (r: Self) ensures r@ == (Reply { json: Some(v.vb()), value: None, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn json_body(self, v: serde_json::Value) -> (r: Self) ensures r@ == (Reply { json: None, value: Some(v), ..self@ }) { unimplemented!() }
}
#[verifier::external_body] pub struct Mock(());
#[verifier::external_body] pub struct MockServer(());
impl MockServer {
    #[verifier::external_body] pub fn mock<F: FnOnce(When, Then)>(&self, f: F) -> (r: Mock) requires forall|w: When, t: Then| w@ == Multiset::<Need>::empty() && t@ == blank() ==> #[trigger] f.requires((w, t))
        ensures exists|w: When, t: Then| w@ == Multiset::<Need>::empty() && t@ == blank() && #[trigger] f.ensures((w, t), ()) { unimplemented!() }
}
}
'''

SUBST = [(r'\bimpl MockServerExt for\b', 'impl'), (r'(?<!\w)::httpmock::', 'crate::httpmock::'), (r'(?<![\w>:])regex::Regex', 'crate::regex::Regex'), (r'\.to_string\(\)', '.vp_text()'), (r'\bT: Into<', 'T: VInto<'), (r'\bT : Into < ', 'T: VInto<'),
         (r'\.into\(\)', '.vp_into()'), (r'\.as_ref\(\)', '.as_ref()'), (r'(?<![.\w])(\w+) == ("(?:[^"\\]|\\.)*")', r'vp_same(\1, \2)')]


def text_world():
    """the texts of the world of generated clients"""
    t = gen6.WORLD
    a = t.index('/// text, and values as text')
    b = t.index('pub use vtxt::*;')
    return t[a:b]


def pattern(op, own=None, rest='[^/]*'):
    """the pattern of a path: the wildcard, or the value of one parameter (with the others left open)"""
    out = [('t', '^')]
    for k, t in model.pieces(op.path):
        out.append(('t', t) if k == 't' else ('s', 'value.vtext()') if t == own else ('t', rest))
    out.append(('t', '$'))
    return out


def when(w, op, mod):
    ty = model.pascal(op.oid) + 'When'
    w.struct(ty)
    get = lambda n: next((f for f in w.src.fns() if f.name == n and f.parent is not None and f.parent.kind == 'impl' and base(norm(f.parent.self_ty)) == ty), None)
    need = lambda n: get(n) or lost(f'{ty}::{n}')
    tag = lambda t, n='': f'G26.{t} {op.oid}' + (f'.{n}' if n else '')
    pat = ''.join(t for _, t in pattern(op))
    first = f'.insert(Need::Method(crate::httpmock::Method::{op.method.upper()})).insert(Need::Path({rs(pat)}@))'
    w.fn('new', C(req=[(tag('new-pre'), f'crate::regex::valid({rs(pat)}@)')], ens=[(tag('new'), f'r.0@ =~= $p0@{first}')]), f=need('new'), ty=ty)
    w.fn('into_inner', C(ens=[(tag('inner'), 'r == self.0')]), f=need('into_inner'), ty=ty)
    for p in op.params:
        f = need(p.name)
        c = dict()
        if p.where == 'path':
            # the pattern of `new` goes on holding, so the other segments may be left open in either way
            pts = [cat(pattern(op, p.api, x)).replace('value.vtext()', '$p0.vtext()') for x in ('[^/]*', '.*')]
            pts = pts[:1] if pts[0] == pts[1] else pts
            c = dict(req=[(tag('path-pre', p.name), ' && '.join(f'crate::regex::valid({pt})' for pt in pts))],
                     ens=[(tag('path', p.name), ' || '.join(f'r.0@ =~= self.0@.insert(Need::Path({pt}))' for pt in pts))], fmt={'format': fmt})
        elif p.where == 'query' and not p.opt:
            c = dict(ens=[(tag('query', p.name), f'r.0@ =~= self.0@.insert(Need::Query({rs(p.api)}@, $p0.vtext()))')])
        elif p.where == 'query':
            t = mocks.rtype(op, p.schema, 'vp').replace('vp::', '')
            t = t.replace('&', "&'a ")
            G = re.findall(r"(?<!')\b\w+", f.generics or '')
            if len(G) < 1:
                lost(f'generics of {p.name}')
            G = [g for g in G if g != 'a'][0]
            v = f"<{G} as VInto<Option<{t}>>>::into_spec($p0)"
            c = dict(ens=[(tag('query', p.name), f'r.0@ =~= match {v} {{ Some(x) => self.0@.insert(Need::Query({rs(p.api)}@, x.vtext())), None => self.0@.insert(Need::NoQuery({rs(p.api)}@)) }}')],
                     closures=closures(w, f, p.api))
        elif p.kind in ('json', 'form'):
            c = dict(ens=[(tag('body', p.name), 'r.0@ =~= self.0@.insert(Need::Json($p0.vb()))')])
        else:
            c = dict(ens=[(tag('body', p.name), 'r.0@ =~= self.0@.insert(' + ('Need::JsonValue($p0)' if p.kind == 'octets' else 'Need::Text($p0.vtext())') + ')')])
        w.fn(p.name, C(**c), f=f, ty=ty)
    return first, pat


def lost(m):
    raise Lost(m)


def closures(w, f, api):
    """the closures that look for a query parameter, from the outside in"""
    out = []
    a, b = f.body
    cls = find_closures(w.src, a + 1, b)
    n = f'{rs(api)}@'
    for cl in cls:
        t = w.src.txt(*cl['body'])
        ps = w.src.txt(*cl['params'])
        inside = sum(1 for x in cls if cl['body'][0] <= x['start'] < cl['body'][1])
        if '.query_params' in t:
            out.append(dict(ptypes=['&crate::httpmock::HttpMockRequest'], ret='bool', ens=f'cr == !crate::httpmock::carries(*$c0, {n})'))
        elif inside and '.find(' in t:
            out.append(dict(ptypes=['&crate::httpmock::VPairs'], ret='Option<&(String, String)>', ens=f'cr is Some == named($c0.0, {n})'))
        elif inside and '.any(' in t:
            out.append(dict(ptypes=['&crate::httpmock::VPairs'], ret='bool', ens=f'cr == named($c0.0, {n})'))
        elif 'vp_same' in t:
            out.append(dict(ptypes=['&(String, String)'], ret='bool', ens=f'cr == ($c0.0@ == {n})'))
        else:
            lost('closure ' + t)
    return out


def then(w, op, mod):
    ty = model.pascal(op.oid) + 'Then'
    w.struct(ty)
    get = lambda n: next((f for f in w.src.fns() if f.name == n and f.parent is not None and f.parent.kind == 'impl' and base(norm(f.parent.self_ty)) == ty), None)
    need = lambda n: get(n) or lost(f'{ty}::{n}')
    tag = lambda t, n='': f'G26.{t} {op.oid}' + (f'.{n}' if n else '')
    w.fn('new', C(ens=[(tag('then-new'), 'r.0 == $p0')]), f=need('new'), ty=ty)
    w.fn('into_inner', C(ens=[(tag('then-inner'), 'r == self.0')]), f=need('into_inner'), ty=ty)
    for code, kind in op.rs:
        if code == 'default':
            name, lo, hi = 'default_response', 0, 65535
        elif code.endswith('XX'):
            name, lo = ['informational', 'success', 'redirect', 'client_error', 'server_error'][int(code[0]) - 1], int(code[0]) * 100
            hi = lo + 99
        else:
            name, lo, hi = mocks.reason(code), int(code), int(code)
        f = need(name)
        st = f'{lo}' if lo == hi else '$p0 as int'
        v = '$p0' if lo == hi else '$p1'
        rep = f'Reply {{ status: Some({st}), ..self.0@ }}'
        if kind[0] == 'typed':
            rep = f'Reply {{ status: Some({st}), headers: self.0@.headers.push(("content-type"@, "application/json"@)), json: Some({v}.vb()), value: None }}'
        elif kind[0] == 'raw':
            rep = f'Reply {{ status: Some({st}), headers: self.0@.headers.push(("content-type"@, "application/json"@)), json: None, value: Some({v}) }}'
        doc = 'true' if lo == hi else f'{lo} <= $p0 && $p0 <= {hi}'
        par = re.sub(r'^mut ', '', f.params[0][0]) if f.params else ''
        g = doc.replace("$p0", par)
        msg = r'(?:,\s*(?:"[^;]*)?)?'
        sub = [(r'\bdebug_assert(_eq|_ne)?!\s*\([^;]*\)\s*;', ''), (rf'(?<!\w)assert_eq!\s*\(([^;,]*), ([^;,]*?){msg}\s*\)(?=\s*;)', rf'if !(\1 == \2) {{ vp_refuse({g}); }}'),
               (rf'(?<!\w)assert!\s*\(([^;,"]*?){msg}\s*\)(?=\s*;)', rf'if !(\1) {{ vp_refuse({g}); }}'), (r'panic!\s*\([^;]*\)', f'vp_refuse({g})')]
        w.fn(name, C(ens=[(tag('answer', name), f'{doc} && answers(r.0@, {rep})')], subst=sub), f=f, ty=ty)


def build(prop):
    def b(src, probe):
        w0 = Weave(src, prop)
        w0.probe = probe
        w0.raw(HEAD + text_world() + WORLD)
        w0.programs = 0
        for e, code, err in src.docs:
            if code is None or 'code_ext' not in e:
                raise Lost(f'no mocking extension for {e["name"]}: {err}')
            one(w0, e, prop)
            w0.programs += 1
        w0.raw('} // verus!\nfn main() {}\n')
        return w0
    return b


def sub(w0, src, doc, prop):
    w = Weave(src, prop)
    w.probe, w.doc = w0.probe, doc
    return w


def merge(a, b, pre=''):
    a.raw(b.text())
    for k in ('contracted', 'uncontracted', 'tags', 'census'):
        getattr(a, k).extend([pre + x for x in getattr(b, k)] if k in ('contracted', 'uncontracted') else getattr(b, k))
    a.rules |= b.rules


def one(w0, e, prop):
    text = respace(e['code_ext'])
    for pat, rep in SUBST:
        t2 = re.sub(pat, rep, text)
        if t2 != text:
            w0.rules.add(f'W9 {pat} -> {rep}')
        text = t2
    src = Src(text, e['name'])
    ops = model.read(e)
    w = sub(w0, src, e['name'], prop)
    w.raw(f'pub mod {e["name"]} {{\nuse vstd::prelude::*;\nuse vstd::multiset::Multiset;\nuse crate::*;\n')
    w.raw(types(text))
    w2 = sub(w0, Src(inside(src, 'operations'), e['name']), e['name'], prop)
    w2.raw('pub mod operations {\nuse vstd::prelude::*;\nuse crate::*;\nuse super::types;\nbroadcast use crate::vtxt::group_txt;\n')
    firsts = {}
    for op in ops:
        firsts[op.oid] = when(w2, op, e['name'])
        then(w2, op, e['name'])
    w2.raw('}\n')
    merge(w, w2)
    w.raw('} // ' + e['name'] + '\n')
    w.raw(f'pub mod server_{e["name"]} {{ use vstd::prelude::*; use vstd::multiset::Multiset; use crate::*; use crate::{e["name"]}::operations;\n')
    for op in ops:
        f = next((f for f in src.fns() if f.name == op.oid and f.parent is not None and f.parent.kind == 'impl' and norm(f.parent.self_ty).endswith('::MockServer')), None)
        if f is None:
            raise Lost(f'mock method {op.oid}')
        P = model.pascal(op.oid)
        first, pat = firsts[op.oid]
        W, T = f'operations::{P}When', f'operations::{P}Then'
        made = lambda g: f'exists|w: {W}, t: {T}| #[trigger] {g}.ensures((w, t), ()) && w.0@ =~= Multiset::<Need>::empty(){first} && t.0@ == blank()'
        w.fn(op.oid, C(req=[('G26.mock-pre ' + op.oid, f'crate::regex::valid({rs(pat)}@) && (forall|w: {W}, t: {T}| #[trigger] $p0.requires((w, t)))')],
                       ens=[('G26.mock ' + op.oid, made('$p0'))],
                       closures=[dict(ptypes=['crate::httpmock::When', 'crate::httpmock::Then'], ret='()', req='($c0@ == Multiset::<Need>::empty() && $c1@ == blank())', ens='(' + made('$p0') + ')')]),
             f=f, ty='crate::httpmock::MockServer')
    w.raw('}\n')
    merge(w0, w, e['name'] + '::')


def types(code):
    out = ['pub mod types { use vstd::prelude::*; use crate::*;']
    for n in sorted(set(re.findall(r'types::([A-Z]\w*)', code))):
        out.append(f'#[verifier::external_body] pub struct {n}(());')
        out.append(f'impl {n} {{ pub uninterp spec fn s_text(&self) -> Seq<char>; pub uninterp spec fn s_json(&self) -> JV; }}')
        out.append(f'impl VText for {n} {{ open spec fn vtext(&self) -> Seq<char> {{ self.s_text() }} #[verifier::external_body] fn vp_text(&self) -> String {{ unimplemented!() }} }}')
        out.append(f'impl VBody for {n} {{ open spec fn vb(&self) -> JV {{ self.s_json() }} }}')
    out.append('}')
    return '\n'.join(out) + '\n'


BUILD = {'G26': build('G26')}
