"""G27: the command line made by the real generator, for all arguments, files, overrides and outcomes."""
import os, re
from vp.weave import Weave, C, find_closures
from vp.rustlex import Src, Lost, Item, norm, base
import native as NV
from native.gencode import model, runner, cmds
from specs import gen6, gen7
from specs.gen6 import respace, rs, HEAD, inside, LOG
from specs.gen10 import text_world, lost, sub, merge

FILES = dict(G27='progenitor-impl/src/cli.rs')
WHICH = {'G27': ('cli_b', 'clir_b')}
NOTE = dict(G27='The functions under contract are those of the command line the real generator makes on every run from the documents listed in the evidence: proved for all arguments, files, overrides and outcomes, bounded in the documents. '
                'clap, futures, the generated builders (G21, G22) and the generated data types are taken by their contracts: what clap refuses and how it prints help is seen in the bounded run only.')
LEVEL = dict.fromkeys(FILES, 'translation_validation')
TECHNIQUE = dict.fromkeys(FILES, 'the real generator is run on every check; contracts derived from the document on every function of the command line it made, discharged by Verus (z3)')

_cache = {}


def load(root, prop):
    if root not in _cache:
        got, err = runner.generate(prop, root, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')), os.path.join(os.path.dirname(NV.HERE), '.work'), NV.build, tag='proof', which=WHICH[prop])
        if err:
            raise Lost('no generated code: ' + err[:500])
        _cache[root] = got
    s = Src('', 'generated')
    s.docs = _cache[root]
    return s


WORLD = r'''
pub use vtxt::*;
use vstd::multiset::Multiset;
/// a value of any type
#[verifier::external_body] pub struct Any(());
pub uninterp spec fn erase<T>(t: T) -> Any;
pub uninterp spec fn tyname<T>() -> Any;
pub trait VClone: Sized { fn vp_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn vp_clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body] pub struct NonZeroU32(());
impl NonZeroU32 { pub uninterp spec fn view(&self) -> u32; #[verifier::external_body] pub fn get(&self) -> (r: u32) ensures r == self@, r > 0 { unimplemented!() } }
impl VText for NonZeroU32 { open spec fn vtext(&self) -> Seq<char> { dec(self@ as int) } #[verifier::external_body] fn vp_text(&self) -> String { unimplemented!() } }
#[verifier::external_body] pub struct PathBuf(());
/// files and what serde reads from a text; the command ends the program when they cannot be read
pub uninterp spec fn contents(p: PathBuf) -> Seq<char>;
pub uninterp spec fn parsed<T>(s: Seq<char>) -> T;
#[verifier::external_body] pub struct IoError(());
pub mod serde_json { use vstd::prelude::*;
#[verifier::external_body] pub struct Error(());
#[verifier::external_body] pub fn from_str<T>(s: &str) -> (r: core::result::Result<T, Error>) ensures r matches Ok(v) ==> v == crate::parsed::<T>(s@) { unimplemented!() }
}
#[verifier::external_body] pub fn read_to_string(p: &PathBuf) -> (r: core::result::Result<String, IoError>) ensures r matches Ok(s) ==> s@ == contents(*p) { unimplemented!() }
#[verifier::external_body] pub struct NoValue(());
pub trait VUnwrap<T>: Sized { spec fn fine(self) -> bool; spec fn got(self) -> core::result::Result<T, ()>; fn vp_unwrap(self) -> (r: T) requires self.fine() ensures self.got() == Ok::<T, ()>(r); }
impl<T> VUnwrap<T> for core::result::Result<T, IoError> { open spec fn fine(self) -> bool { true } open spec fn got(self) -> core::result::Result<T, ()> { match self { Ok(v) => Ok(v), Err(_) => Err(()) } } #[verifier::external_body] fn vp_unwrap(self) -> T { unimplemented!() } }
impl<T> VUnwrap<T> for core::result::Result<T, serde_json::Error> { open spec fn fine(self) -> bool { true } open spec fn got(self) -> core::result::Result<T, ()> { match self { Ok(v) => Ok(v), Err(_) => Err(()) } } #[verifier::external_body] fn vp_unwrap(self) -> T { unimplemented!() } }
impl<T> VUnwrap<T> for core::result::Result<T, NoValue> { open spec fn fine(self) -> bool { self is Ok } open spec fn got(self) -> core::result::Result<T, ()> { match self { Ok(v) => Ok(v), Err(_) => Err(()) } } #[verifier::external_body] fn vp_unwrap(self) -> T { unimplemented!() } }
pub trait VMapOr<T>: Sized { spec fn opt(self) -> Option<T>; fn vp_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) requires self.opt() is Some ==> f.requires((self.opt()->Some_0,)) ensures match self.opt() { Some(v) => f.ensures((v,), r), None => r == d }; }
impl<T> VMapOr<T> for Option<T> { open spec fn opt(self) -> Option<T> { self } fn vp_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { match self { Some(v) => f(v), None => d } } }
pub mod anyhow { use vstd::prelude::*;
#[verifier::external_body] pub struct Error(());
pub type Result<T> = core::result::Result<T, Error>;
impl Error { pub uninterp spec fn of(&self) -> crate::Any; #[verifier::external_body] pub fn new<E>(e: E) -> (r: Error) ensures r.of() == crate::erase(e) { unimplemented!() } }
}
/// the types of arguments
pub trait VKind { spec fn kind() -> int; }
impl VKind for String { open spec fn kind() -> int { 1 } }
impl VKind for i64 { open spec fn kind() -> int { 2 } }
impl VKind for i32 { open spec fn kind() -> int { 3 } }
impl VKind for u8 { open spec fn kind() -> int { 4 } }
impl VKind for f64 { open spec fn kind() -> int { 5 } }
impl VKind for bool { open spec fn kind() -> int { 6 } }
impl VKind for NonZeroU32 { open spec fn kind() -> int { 7 } }
impl VKind for PathBuf { open spec fn kind() -> int { 8 } }
/// what an argument takes: a type, and the only texts where there are such
pub ghost struct Takes { pub kind: int, pub only: Option<Seq<Seq<char>>> }
pub ghost struct AV { pub name: Seq<char>, pub long: Option<Seq<char>>, pub takes: Option<Takes>, pub required: bool, pub unless: Option<Seq<char>>, pub help: Option<Seq<char>> }
pub ghost struct CV { pub args: Multiset<AV>, pub about: Option<Seq<char>>, pub long: Option<Seq<char>> }
/// the help of the file arguments is not documented
pub open spec fn told(n: Seq<char>) -> bool { n != "json-body"@ && n != "json-body-template"@ }
pub open spec fn flag() -> AV { AV { name: "json-body-template"@, long: Some("json-body-template"@), takes: None, required: false, unless: None, help: None } }
pub open spec fn file(must: bool) -> AV { AV { name: "json-body"@, long: Some("json-body"@), takes: Some(Takes { kind: 8, only: None }), required: must, unless: None, help: None } }
pub open spec fn arg(n: Seq<char>, t: Takes, required: bool, unless: bool, help: Option<Seq<char>>) -> AV { AV { name: n, long: Some(n), takes: Some(t), required: required, unless: if unless { Some("json-body"@) } else { None }, help: help } }
pub open spec fn alike(a: CV, b: CV) -> bool { a.args =~= b.args && a.about == b.about && a.long == b.long }
pub mod clap { use vstd::prelude::*; use vstd::multiset::Multiset; use super::*;
pub enum ArgAction { Set, Append, SetTrue, SetFalse, Count }
#[verifier::external_body] pub struct ValueParser(());
impl ValueParser { pub uninterp spec fn view(&self) -> Takes; }
#[verifier::external_body] pub fn value_parser<T: VKind>() -> (r: ValueParser) ensures r@ == (Takes { kind: T::kind(), only: None }) { unimplemented!() }
#[verifier::external_body] pub struct PossibleValuesParser(());
impl PossibleValuesParser { pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn new<const N: usize>(v: [String; N]) -> (r: Self) ensures r@ =~= v@.map_values(|s: String| s@), forall|w: Seq<Seq<char>>| #[trigger] written(w) && w =~= v@.map_values(|s: String| s@) ==> r@ == w { unimplemented!() } }
/// marks the values of an enumeration in the document
pub open spec fn written(v: Seq<Seq<char>>) -> bool { true }
pub open spec fn reads<T: VText, F: Fn(String) -> T>(f: F, v: Seq<Seq<char>>) -> bool { forall|s: String, t: T| v.contains(s@) && #[trigger] f.ensures((s,), t) ==> t.vtext() == s@ }
#[verifier::external_body] pub fn map<T: VText + VKind, F: Fn(String) -> T>(p: PossibleValuesParser, f: F) -> (r: ValueParser) requires forall|s: String| p@.contains(s@) ==> #[trigger] f.requires((s,))
    ensures reads(f, p@) ==> r@ == (Takes { kind: T::kind(), only: Some(p@) }) { unimplemented!() }
#[verifier::external_body] pub struct Arg(());
impl Arg { pub uninterp spec fn view(&self) -> AV;
    #[verifier::external_body] pub fn new(n: &'static str) -> (r: Self) ensures r@ == (AV { name: n@, long: None, takes: None, required: false, unless: None, help: None }) { unimplemented!() }
    #[verifier::external_body] pub fn long(self, n: &'static str) -> (r: Self) ensures r@ == (AV { long: Some(n@), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn value_name(self, n: &'static str) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn value_parser(self, p: ValueParser) -> (r: Self) ensures r@ == (AV { takes: Some(p@), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn required(self, b: bool) -> (r: Self) ensures r@ == (AV { required: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn required_unless_present(self, n: &'static str) -> (r: Self) ensures r@ == (AV { unless: Some(n@), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn help(self, n: &'static str) -> (r: Self) ensures r@ == (AV { help: if told(self@.name) { Some(n@) } else { self@.help }, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn action(self, a: ArgAction) -> (r: Self) requires a == ArgAction::SetTrue ensures r@ == (AV { takes: None, ..self@ }) { unimplemented!() }
}
#[verifier::external_body] pub struct Command(());
impl Command { pub uninterp spec fn view(&self) -> CV;
    #[verifier::external_body] pub fn new(n: &'static str) -> (r: Self) ensures r@ == (CV { args: Multiset::empty(), about: None, long: None }) { unimplemented!() }
    #[verifier::external_body] pub fn arg(self, a: Arg) -> (r: Self) ensures r@ == (CV { args: self@.args.insert(a@), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn about(self, n: &'static str) -> (r: Self) ensures r@ == (CV { about: Some(n@), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn long_about(self, n: &'static str) -> (r: Self) ensures r@ == (CV { long: Some(n@), ..self@ }) { unimplemented!() }
}
/// what was given for the arguments of a command; asking for an argument it does not have, or for another type, ends the program
#[verifier::external_body] pub struct ArgMatches(());
pub open spec fn declares(s: Multiset<AV>, n: Seq<char>, k: int) -> bool { exists|a: AV| #[trigger] s.count(a) > 0 && a.name == n && (a.takes matches Some(t) && t.kind == k) }
impl ArgMatches { pub uninterp spec fn of(&self) -> Multiset<AV>; pub uninterp spec fn one<T>(&self, n: Seq<char>) -> Option<T>;
    #[verifier::external_body] pub fn get_one<T: VKind>(&self, n: &str) -> (r: Option<&T>) requires declares(self.of(), n@, T::kind()) ensures r is Some == self.one::<T>(n@) is Some, r matches Some(v) ==> Some(*v) == self.one::<T>(n@) { unimplemented!() }
}
}
/// what a builder was given: arguments by their number in the document, and the body
#[verifier::external_body] pub struct Given(());
pub uninterp spec fn given<V>(v: V) -> Given;
pub ghost enum Bod { Parts(Map<int, Given>), Whole(Given), Other }
pub ghost struct BView { pub args: Map<int, Given>, pub body: Bod }
pub open spec fn put<T>(m: Map<int, Given>, k: int, o: Option<T>) -> Map<int, Given> { match o { Some(v) => m.insert(k, given(v)), None => m } }
pub open spec fn same(a: BView, b: BView) -> bool { a.args =~= b.args && match (a.body, b.body) { (Bod::Parts(x), Bod::Parts(y)) => x =~= y, (x, y) => x == y } }
pub open spec fn blank() -> BView { BView { args: Map::empty(), body: Bod::Parts(Map::empty()) } }
/// what happens while a command runs
pub ghost enum Ev { Hook(int, BView, BView, anyhow::Result<()>), Sent(int, Any, BView, Any), Next(int, Any, BView, int, Any), Good(Any), NoItem(Any), Bad(Any), Start(Any), Item(Any), EndGood(Any), EndBad(Any) }
pub tracked struct Log { pub ghost evs: Seq<Ev> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ResponseValue<T>(T);
#[verifier::external_body] #[verifier::reject_recursive_types(E)] pub struct Error<E>(E);
#[verifier::external_body] pub struct ByteStream(());
pub struct VpDefaults;
pub mod futures { use vstd::prelude::*; use super::*;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(E)] pub struct Strm<T, E>(T, E);
impl<T, E> Strm<T, E> { pub uninterp spec fn op(&self) -> int; pub uninterp spec fn vp_client(&self) -> Any; pub uninterp spec fn asked(&self) -> BView; /// at most so many items are given
    pub uninterp spec fn most(&self) -> Option<int>; }
#[verifier::external_body] pub fn take<T, E>(s: Strm<T, E>, n: usize) -> (r: Strm<T, E>) requires s.most() is None ensures r.op() == s.op(), r.vp_client() == s.vp_client(), r.asked() == s.asked(), r.most() == Some(n as int) { unimplemented!() }
#[verifier::external_body] pub async fn try_next<T, E>(s: &mut Strm<T, E>, Tracked(l): Tracked<&mut Log>) -> (r: core::result::Result<Option<T>, E>) requires old(s).most() is Some
    ensures final(s).op() == old(s).op(), final(s).vp_client() == old(s).vp_client(), final(s).asked() == old(s).asked(), final(s).most() == old(s).most(), final(l).evs == old(l).evs.push(Ev::Next(old(s).op(), old(s).vp_client(), old(s).asked(), old(s).most()->Some_0, erase(r))) { unimplemented!() }
}
/// the items were asked for and listed, one by one
pub open spec fn one_item<I, E>(evs: Seq<Ev>, k: int, c: Any, q: BView, max: int) -> bool { evs.len() >= 2 && exists|v: I| evs[evs.len() - 2] == Ev::Next(k, c, q, max, #[trigger] erase(Ok::<Option<I>, E>(Some(v)))) && evs[evs.len() - 1] == Ev::Item(erase(v)) }
pub open spec fn listed<I, E>(evs: Seq<Ev>, base: Seq<Ev>, k: int, c: Any, q: BView, max: int) -> bool decreases evs.len() {
    if evs.len() <= base.len() { evs == base } else { one_item::<I, E>(evs, k, c, q, max) && listed::<I, E>(evs.drop_last().drop_last(), base, k, c, q, max) } }
/// a command that sends one request
pub open spec fn sends<S, E>(k: int, c: Any, item: bool, want: BView, a: Seq<Ev>, b: Seq<Ev>, r: anyhow::Result<()>) -> bool {
    let n = a.len() as int;
    b.len() > n && b.take(n) =~= a && (b[n] matches Ev::Hook(k0, q0, q1, h) && k0 == k && same(q0, want) && match h {
        Err(e) => b.len() == n + 1 && r == Err::<(), anyhow::Error>(e),
        Ok(_) => b.len() == n + 3 && exists|o: core::result::Result<ResponseValue<S>, Error<E>>| b[n + 1] == Ev::Sent(k, c, q1, #[trigger] erase(o)) && match o {
            Ok(v) => r is Ok && b[n + 2] == if item { Ev::Good(erase(v)) } else { Ev::NoItem(erase(v)) },
            Err(e) => (r matches Err(x) && x.of() == erase(e)) && b[n + 2] == Ev::Bad(erase(e)) } }) }
/// a command that lists the items of pages
pub open spec fn lists<S, I, E>(k: int, c: Any, want: BView, max: int, a: Seq<Ev>, b: Seq<Ev>, r: anyhow::Result<()>) -> bool {
    let n = a.len() as int;
    b.len() > n && b.take(n) =~= a && (b[n] matches Ev::Hook(k0, q0, q1, h) && k0 == k && same(q0, want) && match h {
        Err(e) => b.len() == n + 1 && r == Err::<(), anyhow::Error>(e),
        Ok(_) => exists|mid: Seq<Ev>| #[trigger] listed::<I, Error<E>>(mid, a.push(b[n]).push(Ev::Start(tyname::<S>())), k, c, q1, max) && match r {
            Ok(_) => b == mid.push(Ev::Next(k, c, q1, max, erase(Ok::<Option<I>, Error<E>>(None)))).push(Ev::EndGood(tyname::<S>())),
            Err(x) => exists|e: Error<E>| b == mid.push(Ev::Next(k, c, q1, max, #[trigger] erase(Err::<Option<I>, Error<E>>(e)))).push(Ev::EndBad(erase(e))) && x.of() == erase(e) } }) }
'''

VPL = 'Tracked(&mut *vp_log)'
CALLS = r'\.(success_item|success_no_item|error|list_start|list_item|list_end_success|list_end_error|execute_\w+|execute|send)'
SUBST = [(r'(?<!\w)::std::', 'std::'), (r'\bstd::num::NonZeroU32\b', 'crate::NonZeroU32'), (r'\bstd::string::String\b', 'String'), (r'\bstd::vec::Vec\b', 'Vec'), (r'\bstd::path::PathBuf\b', 'crate::PathBuf'), (r'\bstd::fs::read_to_string\b', 'crate::read_to_string'),
         (r'(?<!\w)::clap::value_parser!\s*\(([^()]*)\)', r'crate::clap::value_parser::<\1>()'), (r'(?<!\w)::clap::builder::TypedValueParser::map\b', 'crate::clap::map'), (r'(?<!\w)::clap::builder::', 'crate::clap::'), (r'(?<!\w)::clap::', 'crate::clap::'),
         (r'\bTypedValueParser::map\b', 'map'), (r'\bfutures::StreamExt::take\b', 'crate::futures::take'), (r'\bfutures::TryStreamExt::try_next\s*\(([^()]*)\)', rf'crate::futures::try_next(\1, {VPL})'),
         (r'(?<![\w:])anyhow::', 'crate::anyhow::'), (r'(?<![\w:])serde_json::', 'crate::serde_json::'), (r'\.to_string\(\)', '.vp_text()'), (r'\.unwrap\(\)', '.vp_unwrap()'), (r'\.clone\(\)', '.vp_clone()'), (r'\.map_or\b', '.vp_map_or'),
         (CALLS + r'((?:::\s*<[^()]*>)?)\s*\(\s*\)', rf'.\1\2({VPL})'), (CALLS + r'((?:::\s*<[^()]*>)?)\s*\(((?!Tracked)[^()]+?),?\s*\)', rf'.\1\2(\3, {VPL})')]


def kind_of(op, schema):
    s = model.resolve(op.doc, schema)
    if 'enum' in s:
        return 'types::' + schema['$ref'].rsplit('/', 1)[1]
    if s.get('minimum') == 1:
        return 'crate::NonZeroU32'
    return {'string': 'String', 'number': 'f64', 'boolean': 'bool', 'integer': {'int32': 'i32', 'uint8': 'u8'}.get(s.get('format'), 'i64')}[s['type']]


def takes(op, schema):
    s = model.resolve(op.doc, schema)
    t = kind_of(op, schema)
    if 'enum' in s:
        return f'Takes {{ kind: <{t} as VKind>::kind(), only: Some(seq![{", ".join(rs(x) + "@" for x in s["enum"])}]) }}'
    return f'Takes {{ kind: <{t} as VKind>::kind(), only: None }}'


class Arg:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def arguments(op, raw):
    """the documented arguments of a command, whether it takes a file and whether it must be given"""
    props, need = cmds.prop_words(op) if op.body else ([], False)
    first = raw.get('x-dropshot-pagination', {}).get('required', []) if op.paged else []
    raws = {(p['in'], p['name']): p for p in map(lambda p: model.resolve(op.doc, p), raw.get('parameters', []))}
    out = []
    for k, p in enumerate(op.params):
        if p.where != 'body' and not (op.paged and p.api == 'page_token'):
            out.append(Arg(word=cmds.kebab(p.api), where='args', k=k, set=p.name, schema=p.schema, required=not p.opt or p.api in first, unless=False, help=raws.get((p.where, p.api), {}).get('description')))
    s = model.resolve(op.doc, op.body.schema) if op.body else {}
    names = list(s.get('properties', {}))
    for w, n, sc, r in props:
        out.append(Arg(word=w, where='body', k=names.index(n), set=model.snake(n), schema=sc, required=False, unless=r, help=sc.get('description')))
    out.sort(key=lambda a: a.word)
    return out, need


def enums(doc):
    return {n: s['enum'] for n, s in doc['components'].get('schemas', {}).items() if 'enum' in s}


def types(doc, code, ext):
    out = ['pub mod types { use vstd::prelude::*; use crate::*;']
    es = enums(doc)
    for i, (n, vs) in enumerate(sorted(es.items())):
        out.append(f'pub enum {n} {{ {", ".join(model.pascal(v) for v in vs)} }}')
        out.append(f'impl VKind for {n} {{ open spec fn kind() -> int {{ {100 + i} }} }}')
        out.append(f'impl VText for {n} {{ open spec fn vtext(&self) -> Seq<char> {{ match self {{ {", ".join(f"{n}::{model.pascal(v)} => {rs(v)}@" for v in vs)} }} }} #[verifier::external_body] fn vp_text(&self) -> String {{ unimplemented!() }} }}')
        out.append(f'impl {n} {{ pub open spec fn known(s: Seq<char>) -> bool {{ {" || ".join(f"s == {rs(v)}@" for v in vs)} }}\n'
                   f'#[verifier::external_body] pub fn try_from(s: String) -> (r: core::result::Result<{n}, NoValue>) ensures r is Ok == Self::known(s@), r matches Ok(v) ==> v.vtext() == s@ {{ unimplemented!() }} }}')
    for n in sorted(set(re.findall(r'(?<!\w)types::([A-Z]\w*)', code + ext)) - set(es)):
        out.append(f'#[verifier::external_body] pub struct {n}(());')
    out.append('pub mod builder { use vstd::prelude::*; use crate::*;')
    for n in sorted(set(re.findall(r'types::builder::([A-Z]\w*)', code))):
        out.append(f'#[verifier::external_body] pub struct {n}(());\nimpl {n} {{ pub uninterp spec fn view(&self) -> Map<int, Given>;')
        for k, p in enumerate(doc['components']['schemas'][n].get('properties', {})):
            out.append(f'#[verifier::external_body] pub fn {model.snake(p)}<V>(self, v: V) -> (r: Self) ensures r@ == self@.insert({k}, given(v)) {{ unimplemented!() }}')
        out.append('}')
    out.append('} }')
    return '\n'.join(out) + '\n'


def builders(src, ops):
    """the builders, by their contracts; -> text, and per operation the types of success, error, item and body"""
    b = Src(inside(src, 'builder'), 'builder')
    bw = Weave(b, '')
    out, ty = [], {}
    for i, op in enumerate(ops):
        P = model.pascal(op.oid)
        it = [x for x in b.items if x.kind == 'struct' and x.name == P]
        impl = lambda n: next((f for f in b.fns() if f.name == n and f.parent is not None and f.parent.kind == 'impl' and not f.parent.trait and base(norm(f.parent.self_ty)) == P), None)
        send = impl('send')
        if len(it) != 1 or send is None:
            raise Lost(f'builder {P}')
        S, E = gen6.split_ret(b.txt(*send.ret))
        fl = {n: norm(t) for n, t in bw._fields(*it[0].body)}
        d = dict(S=S, E=E, B=None)
        out.append(f'#[verifier::external_body] pub struct {P}(());\nimpl {P} {{ pub uninterp spec fn view(&self) -> BView; pub uninterp spec fn vp_client(&self) -> Any;')
        for k, p in enumerate(op.params):
            if p.where != 'body':
                out.append(f'#[verifier::external_body] pub fn {p.name}<V>(self, v: V) -> (r: Self) ensures r.vp_client() == self.vp_client(), r@ == (BView {{ args: self@.args.insert({k}, given(v)), ..self@ }}) {{ unimplemented!() }}')
        if op.body:
            out.append('#[verifier::external_body] pub fn body<V>(self, v: V) -> (r: Self) ensures r.vp_client() == self.vp_client(), r@ == (BView { body: Bod::Whole(given(v)), ..self@ }) { unimplemented!() }')
            m = re.fullmatch(r'Result<types::builder::(\w+),String,?>', fl.get('body', ''))
            if m:
                d['B'] = B = 'types::builder::' + m.group(1)
                out.append(f'#[verifier::external_body] pub fn body_map<F: FnOnce({B}) -> {B}>(self, f: F) -> (r: Self) requires forall|b: {B}| #[trigger] f.requires((b,)) ensures r.vp_client() == self.vp_client(), r@.args == self@.args, '
                           f'match self@.body {{ Bod::Parts(m) => exists|b: {B}, o: {B}| b@ == m && #[trigger] f.ensures((b,), o) && r@.body == Bod::Parts(o@), _ => r@.body is Other }} {{ unimplemented!() }}')
        R = f'core::result::Result<ResponseValue<{S}>, Error<{E}>>'
        out.append(f'#[verifier::external_body] pub async fn send(self, {LOG}) -> (r: {R}) ensures final(vp_log).evs == old(vp_log).evs.push(Ev::Sent({i}, self.vp_client(), self@, erase(r))) {{ unimplemented!() }}')
        if op.paged:
            st = impl('stream') or lost('stream of ' + P)
            d['T'], e2 = gen7.streamed(b, st)
            if not re.fullmatch(r'Error<(.*)>', norm(e2)):
                raise Lost('stream of ' + P)
            out.append(f'#[verifier::external_body] pub fn stream(self) -> (r: crate::futures::Strm<{d["T"]}, {e2}>) ensures r.op() == {i}, r.vp_client() == self.vp_client(), r.asked() == self@, r.most() is None {{ unimplemented!() }}')
        out.append('}')
        ty[op.oid] = d
    return 'pub mod builder { use vstd::prelude::*; use crate::*; use super::types;\n' + '\n'.join(out) + '\n}\n', ty


def typed(t):
    for p, r in SUBST[:5]:
        t = re.sub(p, r, t)
    return t


def config(ops):
    ev = lambda n: f'ensures final(vp_log).evs == old(vp_log).evs.push({n})'
    out = ['pub trait CliConfig: Sized {']
    for n, t, e in (('success_item<V>', '&ResponseValue<V>', 'Good'), ('success_no_item', '&ResponseValue<()>', 'NoItem'), ('error<V>', '&Error<V>', 'Bad'), ('list_item<V>', '&V', 'Item'), ('list_end_error<V>', '&Error<V>', 'EndBad')):
        out.append(f'fn {n}(&self, value: {t}, {LOG}) {ev(f"Ev::{e}(erase(*value))")};')
    for n, e in (('list_start', 'Start'), ('list_end_success', 'EndGood')):
        out.append(f'fn {n}<V>(&self, {LOG}) {ev(f"Ev::{e}(tyname::<V>())")};')
    for i, op in enumerate(ops):
        out.append(f'fn execute_{op.oid}(&self, matches: &crate::clap::ArgMatches, request: &mut builder::{model.pascal(op.oid)}, {LOG}) -> (r: crate::anyhow::Result<()>) ensures final(request).vp_client() == old(request).vp_client(), final(vp_log).evs == old(vp_log).evs.push(Ev::Hook({i}, old(request)@, final(request)@, r));')
    return '\n'.join(out) + '\n}\n'


def closures(w, f, B, names):
    out = []
    a, b = f.body
    for cl in find_closures(w.src, a + 1, b):
        t = w.src.txt(*cl['body']).strip()
        if cl['block']:
            t = t[1:-1].strip()
        ps = w.src.txt(*cl['params']).strip()
        m = re.fullmatch(re.escape(ps) + r'\s*\.(\w+)\((.*?)(\.vp_clone\(\))?\)', t, re.S)
        if m and m.group(1) in names and B:
            v = m.group(2)
            v = f'*{v}' if m.group(3) else v
            out.append(dict(ptypes=[B], ret=B, ens=f'cr@ == $c0@.insert({names[m.group(1)]}, given({v}))'))
            continue
        if re.search(r'\.get\(\)', t):
            out.append(dict(ptypes=['&crate::NonZeroU32'], ret='usize', ens='cr == $c0@'))
            continue
        m = re.match(r'(types::\w+)::try_from', t.replace(' ', ''))
        if m:
            out.append(dict(ptypes=['String'], ret=m.group(1), req=f'{m.group(1)}::known($c0@)', ens='cr.vtext() == $c0@'))
            continue
        lost('closure ' + t)
    return out


def chain(xs, e='Multiset::<AV>::empty()'):
    for x in xs:
        e += f'.insert({x})'
    return e


def one(w0, e, prop):
    text = respace(e['code_ext'])
    for pat, rep in SUBST:
        t2 = re.sub(pat, rep, text)
        if t2 != text:
            w0.rules.add(f'W9 {pat} -> {rep}')
        text = t2
    src = Src(text, e['name'])
    ops = model.read(e)
    code = Src(respace(e['code']), e['name'])
    btext, ty = builders(code, ops)
    raws = {o['operationId']: o for item in e['doc']['paths'].values() for k, o in item.items() if k in model.METHODS}
    w = sub(w0, src, e['name'], prop)
    w.raw(f'pub mod {e["name"]} {{\nuse vstd::prelude::*;\nuse vstd::multiset::Multiset;\nuse crate::*;\nbroadcast use {{vstd::multiset::group_multiset_axioms, crate::vtxt::group_txt}};\n')
    w.raw(types(e['doc'], code.text, text))
    w.raw(typed(btext))
    w.raw('#[verifier::external_body] pub struct Client(());\nimpl Client {\n' + '\n'.join(
        f'#[verifier::external_body] pub fn {op.oid}(&self) -> (r: builder::{model.pascal(op.oid)}) ensures r@ == blank(), r.vp_client() == erase(*self) {{ unimplemented!() }}' for op in ops) + '\n}\n')
    w.raw(config(ops))
    w.struct('Cli')
    variants = [model.pascal(op.oid) for op in ops]
    it = [x for x in src.items if x.kind == 'enum' and x.name == 'CliCommand']
    if len(it) != 1:
        raise Lost('CliCommand')
    w.raw(src.text[it[0].a:it[0].b] + '\n')
    find = lambda n: next((f for f in src.fns() if f.name == n and f.parent is not None and base(norm(f.parent.self_ty)) == 'Cli'), None) or lost(n)
    tag = lambda t, n='': f'{prop}.{t} {e["name"]}' + (f'.{n}' if n else '')
    f = find('new')
    w.fn('new', C(ens=[(tag('cli-new'), 'r.client == $p0 && r.config == $p1')]), f=f, ty='Cli')
    for i, op in enumerate(ops):
        d = {k: v and typed(v) for k, v in ty[op.oid].items()}
        args, need = arguments(op, raws[op.oid])
        opt = lambda x: f'Some({rs(x)}@)' if x else 'None'
        b = lambda x: 'true' if x else 'false'
        avs = [f'arg({rs(a.word)}@, {takes(op, a.schema)}, {b(a.required)}, {b(a.unless)}, {opt(a.help)})' for a in args]
        if op.body:
            avs += [f'file({b(need)})', 'flag()']
        w.raw(f'pub open spec fn takes_{op.oid}() -> Multiset<AV> {{ {chain(avs)} }}\n'
              f'pub open spec fn doc_{op.oid}() -> CV {{ CV {{ args: takes_{op.oid}(), about: {opt(raws[op.oid].get("summary"))}, long: {opt(raws[op.oid].get("description"))} }} }}\n')
        helped = sorted({a.word for a in args if a.help})
        st = f'proof {{ {gen6.literals(helped + ["json-body", "json-body-template"])} }}' if helped or op.body else ''
        st += ''.join(f' proof {{ assert(crate::clap::written(seq![{", ".join(rs(v) + "@" for v in vs)}])); }}' for vs in enums(e['doc']).values())
        f = find('cli_' + op.oid)
        w.fn(f.name, C(ens=[(tag('command', op.oid), f'alike(r@, doc_{op.oid}())')], start=st, closures=closures(w, f, None, {})), f=f, ty='Cli')
        # what runs
        want = {'args': 'Map::<int, Given>::empty()', 'body': 'Map::<int, Given>::empty()'}
        have = []
        for a, av in zip(args, avs):
            t = kind_of(op, a.schema)
            want[a.where] = f'put({want[a.where]}, {a.k}, m.one::<{t}>({rs(a.word)}@))'
            have.append(f'assert(takes_{op.oid}().count({av}) > 0);')
        body = f'Bod::Parts({want["body"]})'
        if op.body:
            have.append(f'assert(takes_{op.oid}().count(file({b(need)})) > 0);')
            bt = body_type(op)
            body = f'match m.one::<crate::PathBuf>("json-body"@) {{ Some(p) => Bod::Whole(given(parsed::<{bt}>(contents(p)))), None => {body} }}'
        w.raw(f'pub open spec fn want_{op.oid}(m: crate::clap::ArgMatches) -> BView {{ BView {{ args: {want["args"]}, body: {body} }} }}\n')
        if op.paged:
            ran = f'lists::<{d["S"]}, {d["T"]}, {d["E"]}>({i}, erase(c), want_{op.oid}(m), match m.one::<crate::NonZeroU32>("limit"@) {{ Some(n) => n@ as int, None => usize::MAX as int }}, a, b, r)'
        else:
            ran = f'sends::<{d["S"]}, {d["E"]}>({i}, erase(c), {b(op.ok_kind[0] == "typed")}, want_{op.oid}(m), a, b, r)'
        w.raw(f'pub open spec fn ran_{op.oid}(m: crate::clap::ArgMatches, c: Client, a: Seq<Ev>, b: Seq<Ev>, r: crate::anyhow::Result<()>) -> bool {{ {ran} }}\n')
        f = find('execute_' + op.oid)
        setters = {a.set: a.k for a in args if a.where == 'body'}
        c = dict(req=[(tag('run-pre', op.oid), f'$p0.of() == takes_{op.oid}()')], ens=[(tag('run', op.oid), f'ran_{op.oid}(*$p0, self.client, old(vp_log).evs, final(vp_log).evs, r)')],
                 start=f'proof {{ {" ".join(have)} }} let ghost vp_a = vp_log.evs;', closures=closures(w, f, d['B'], setters), subst=[(r'^\(\s*&\s*self', f'(&self'), (r',?\s*\)$', f', {LOG})')])
        if op.paged:
            q = 'vp_log.evs'
            I = f'{d["T"]}, Error<{d["E"]}>'
            mx = '(match $p0.one::<crate::NonZeroU32>("limit"@) { Some(n) => n@ as int, None => usize::MAX as int })'
            c['locals'] = dict(strm=r'let mut (\w+) = crate::futures::take')
            c['loops'] = [dict(kind='loop', before='let ghost vp_base = vp_log.evs;', inv=[
                (tag('listing', op.oid), f'listed::<{I}>({q}, vp_base, {i}, erase(self.client), $strm.asked(), {mx}) && $strm.op() == {i} && $strm.vp_client() == erase(self.client) && $strm.most() == Some({mx})'),
                (tag('listing-start', op.oid), f'vp_a == old(vp_log).evs && {q}.len() >= vp_base.len() && {q}.take(vp_base.len() as int) =~= vp_base && vp_base.len() == vp_a.len() + 2 && vp_base =~= vp_a.push(vp_base[vp_a.len() as int]).push(Ev::Start(tyname::<{d["S"]}>())) && (vp_base[vp_a.len() as int] matches Ev::Hook(k0, q0, q1, h) && k0 == {i} && same(q0, want_{op.oid}(*$p0)) && q1 == $strm.asked() && h is Ok)')],
                body_start=f'let ghost vp_mid = vp_log.evs; proof {{ assert(vp_mid.take(vp_base.len() as int).take(vp_a.len() as int) =~= vp_mid.take(vp_a.len() as int)); assert(vp_mid.take(vp_a.len() as int) =~= vp_a); assert(vp_mid[vp_a.len() as int] == vp_mid.take(vp_base.len() as int)[vp_a.len() as int]); assert(vp_base =~= vp_a.push(vp_mid[vp_a.len() as int]).push(Ev::Start(tyname::<{d["S"]}>()))); }}',
                body_end=f'proof {{ assert({q}.drop_last().drop_last() =~= vp_mid); }}')]
        w.fn(f.name, C(**c), f=f, ty='Cli')
        f = next((c for x in src.items if x.kind == 'trait' and x.name == 'CliConfig' for c in x.children if c.kind == 'fn' and c.name == 'execute_' + op.oid), None) or lost('override of ' + op.oid)
        f.parent = Item(kind='impl', name='', a=0, b=0, ti=0, te=0, body=None, generics='', trait=None, self_ty='VpDefaults', where='', children=[])
        w.fn(f.name, C(ens=[(tag('default-hook', op.oid), 'r is Ok && final($p1)@ == old($p1)@ && final($p1).vp_client() == old($p1).vp_client()')]), f=f, ty='VpDefaults', header='impl VpDefaults_' + e['name'])
    w.raw(f'pub struct VpDefaults_{e["name"]};\n')
    arms = lambda g: 'match $p0 { ' + ', '.join(f'CliCommand::{v} => {g(op)}' for v, op in zip(variants, ops)) + ' }'
    f = find('get_command')
    w.fn('get_command', C(ens=[(tag('commands'), arms(lambda op: f'alike(r@, doc_{op.oid}())'))]), f=f, ty='Cli')
    f = find('execute')
    w.fn('execute', C(req=[(tag('execute-pre'), arms(lambda op: f'$p1.of() == takes_{op.oid}()'))], ens=[(tag('execute'), arms(lambda op: f'ran_{op.oid}(*$p1, self.client, old(vp_log).evs, final(vp_log).evs, r)'))],
                      subst=[(r',?\s*\)$', f', {LOG})')]), f=f, ty='Cli')
    w.raw('}\n')
    merge(w0, w, e['name'] + '::')


def body_type(op):
    s = op.body.schema
    if '$ref' in s:
        return 'types::' + s['$ref'].rsplit('/', 1)[1]
    if s.get('type') == 'array':
        return f'Vec<{kind_of(op, s["items"])}>'
    lost('body type')


def build(prop):
    def b(src, probe):
        w0 = Weave(src, prop)
        w0.probe = probe
        w0.raw(HEAD + text_world() + WORLD)
        w0.programs = 0
        for e, code, err in src.docs:
            if code is None or 'code_ext' not in e:
                raise Lost(f'no command line for {e["name"]}: {err}')
            only = os.environ.get('VP_ONLY')
            if only and e['name'] not in only.split(','):
                continue
            one(w0, dict(e, code=code), prop)
            w0.programs += 1
        w0.raw('} // verus!\nfn main() {}\n')
        return w0
    return b


BUILD = {'G27': build('G27')}
