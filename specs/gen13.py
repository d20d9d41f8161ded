"""G29: the options of generate_api! reach the generator, and its code is what the macro gives."""
import os, re
from vp.weave import Weave, C, Edit, apply_edits, lower_for, receiver
from vp.rustlex import Src, Lost, lex, match_delims
from .gen import start, done, LIB
from . import gen12

MACRO = 'progenitor-macro/src/lib.rs'
FILES = dict(G29=MACRO)
NOTE = dict(G29='The generator and its settings are taken by their contracts (what a setting does: G11), syn and serde_tokenstream as functions of the given tokens (which texts are valid options is not part of it, '
                'but names and versions of crates are: G24), maps as their entries in an order of their own, the file system as texts by path, error messages as texts that may be anything.')
LOOPS = dict(crates='crates', derives='derives', patch='patch', replace='replace', convert='convert')
ONLY = ('do_generate_api', 'into_name_and_impls')
UTILS = 'progenitor-macro/src/token_utils.rs'


def functions(toks, m, names):
    out = []
    for i, t in enumerate(toks):
        if t.k == 'id' and t.s == 'fn' and toks[i + 1].s in names:
            j = i
            while toks[j].s != '{':
                j = m[j] + 1 if toks[j].s in ('(', '[') else j + 1
            out.append((j, m[j]))
    return out


def closure(toks, m, j):
    """|p| body that starts at token j -> pattern, first body token"""
    if toks[j].s == '||':
        return (j, j), j + 1
    if toks[j].s != '|':
        return None, None
    e = j + 1
    while toks[e].s != '|':
        e = m[e] + 1 if toks[e].s in '([{' else e + 1
    return (j, e), e + 1


def lower(t):
    """effects of closures: `e.map(|p| b);` as a statement is `if let Some(p) = e { b; }`; `e.for_each(|p| b);` is
    `for p in e { b; }`; `e.map_or_else(|p| b, |q| c)` on a result is a match; what `map_err` makes of an error is dropped"""
    while True:
        toks = lex(t)
        m = match_delims(toks)
        fs = functions(toks, m, ONLY) + functions(toks, m, ('from',))
        hit = None
        for i in range(1, len(toks) - 3):
            if not any(a < i < b for a, b in fs) or toks[i].k != 'id' or toks[i - 1].s != '.' or toks[i + 1].s != '(':
                continue
            close = m[i + 1]
            if toks[i].s == 'map_err':
                hit = [Edit(toks[i].a, toks[close].b, 'vp_err()')]
                break
            k = receiver(toks, m, i - 1)
            recv = t[toks[k].a:toks[i - 1].a]
            pat, b = closure(toks, m, i + 2)
            if not pat:
                continue
            if toks[i].s == 'map_or_else':
                e = b
                while toks[e].s != ',':
                    e = m[e] + 1 if toks[e].s in '([{' else e + 1
                p2, b2 = closure(toks, m, e + 1)
                if not p2:
                    raise Lost('map_or_else')
                end = toks[close].a if toks[close - 1].s != ',' else toks[close - 1].a
                hit = [Edit(toks[k].a, toks[close].b, f'(match {recv} {{ Ok({t[toks[p2[0]].b:toks[p2[1]].a]}) => {{ {t[toks[b2].a:end]} }}, Err({t[toks[pat[0]].b:toks[pat[1]].a]}) => {{ {t[toks[b].a:toks[e].a]} }} }})')]
                break
            stmt = toks[k - 1].s in (';', '{', '}') and toks[close + 1].s in (';', '}')
            if toks[i].s in ('map', 'for_each') and stmt:
                if toks[i].s == 'map' and toks[close + 1].s != ';':
                    continue
                end = toks[close].a if toks[close - 1].s != ',' else toks[close - 1].a
                p, body = t[toks[pat[0]].b:toks[pat[1]].a].strip(), t[toks[b].a:end]
                head = f'if let Some({p}) = {recv}' if toks[i].s == 'map' else f'for {p} in {recv}'
                hit = [Edit(toks[k].a, toks[close + 1].b if toks[close + 1].s == ';' else toks[close].b, f'{head} {{ {body}; }}')]
                break
        if not hit:
            return t
        t = apply_edits(t, 0, len(t), hit)


def lower_quote(t):
    """one sequence of literal texts (one space between tokens) and interpolated values"""
    toks = lex(t)
    m = match_delims(toks)
    ed = []
    for i in range(len(toks) - 2):
        if toks[i].k == 'id' and toks[i].s == 'quote' and toks[i + 1].s == '!' and toks[i + 2].s in '({[':
            parts, cur, j = [], [], i + 3
            while j < m[i + 2]:
                if toks[j].s == '#' and toks[j + 1].k == 'id':
                    parts += [('lit', ' '.join(cur)), ('val', toks[j + 1].s)]
                    cur = []
                    j += 2
                    continue
                cur.append(toks[j].s)
                j += 1
            parts.append(('lit', ' '.join(cur)))
            e = None
            for k, x in parts:
                x = f'vtext::lit({gen12.rstr(x)})' if k == 'lit' else f'vtext::shown(&({x}))'
                e = x if e is None else f'vtext::cat({e}, {x})'
            ed.append(Edit(toks[i].a, toks[m[i + 2]].b, f'Toks::of({e})'))
    return apply_edits(t, 0, len(t), ed)


def load(root, prop):
    f = FILES[prop]
    t = open(os.path.join(root, f)).read()
    u = open(os.path.join(root, UTILS)).read().split('#[cfg(test)]')[0]
    for x in ('Path', 'Ident', 'TraitBoundModifier', 'Colon', 'Plus'):
        u = re.sub(rf'(?<![:\w]){x}\b', f'syn::{x}', u)
    t = lower_quote(lower(t + '\n' + u))
    s = Src(lower_for(t, ONLY + ('from',)), f)
    s.lib = Src(open(os.path.join(root, LIB)).read(), LIB)
    return s


VFS = gen12.STUBS[gen12.STUBS.index('/// paths and what is in the files'):gen12.STUBS.index('use vtext::')]
VTEXT = gen12.STUBS[gen12.STUBS.index('pub mod vtext {'):]
STUBS = r"""
#[verifier::external_body] pub struct SynError(());
pub type Res<T> = core::result::Result<T, SynError>;
pub trait VErr<T> { spec fn good(&self) -> Option<T>; fn vp_err(self) -> (r: Res<T>) ensures (match r { Ok(x) => Some(x), Err(_) => None }) == self.good(); }
impl<T, E> VErr<T> for core::result::Result<T, E> { open spec fn good(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } } #[verifier::external_body] fn vp_err(self) -> (r: Res<T>) { unimplemented!() } }
@VFS@
pub mod vm { use vstd::prelude::*; use super::vfs;
pub uninterp spec fn manifest() -> Option<Seq<char>>;
pub uninterp spec fn cwd() -> vfs::PathV;
#[verifier::external_body] #[derive(Debug)] pub struct VarError(());
#[verifier::external_body] pub fn manifest_dir() -> (r: core::result::Result<String, VarError>) ensures (match r { Ok(s) => Some(s@), Err(_) => None }) == manifest() { unimplemented!() }
#[verifier::external_body] pub fn current_dir() -> (r: core::result::Result<vfs::PathBuf, VarError>) ensures r matches Ok(p) && p@ == cwd() { unimplemented!() }
#[verifier::external_body] pub fn new_path<T: vfs::VPath>(s: T) -> (r: vfs::PathBuf) ensures r@ == s.path() { unimplemented!() }
pub uninterp spec fn spelled(p: vfs::PathV) -> Seq<char>;
#[verifier::external_body] pub fn to_string_lossy(p: &vfs::PathBuf) -> (r: String) ensures r@ == spelled(p@) { unimplemented!() }
}
pub use vm::manifest_dir;
@VTEXT@
use vtext::{VLines, VText};
use vfs::{PathBuf, Path, VPath};
/// tokens, as their text
#[verifier::external_body] pub struct Toks(());
impl View for Toks { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for Toks { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl Toks { #[verifier::external_body] pub fn of(s: String) -> (r: Toks) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_text(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
impl Shown for Toks { open spec fn shown(&self) -> Seq<char> { self@ } }
pub trait VToks { spec fn toks(&self) -> Seq<char>; fn vp_toks(&self) -> (r: Toks) ensures r@ == self.toks(); }
pub mod syn { use vstd::prelude::*; use super::{VToks, Toks};
#[verifier::external_body] pub struct Type(());
#[verifier::external_body] pub struct Path(());
#[verifier::external_body] pub struct Ident(());
pub struct Colon(()); pub struct Plus(()); pub struct Question(());
pub enum TraitBoundModifier { None, Maybe(Question) }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(P)] pub struct Punctuated<T, P>(core::marker::PhantomData<(T, P)>);
impl<T, P> Punctuated<T, P> { pub uninterp spec fn seq(&self) -> Seq<T>; }
pub uninterp spec fn ttype(x: Type) -> Seq<char>; pub uninterp spec fn tpath(x: Path) -> Seq<char>; pub uninterp spec fn tident(x: Ident) -> Seq<char>;
impl VToks for Type { open spec fn toks(&self) -> Seq<char> { ttype(*self) } #[verifier::external_body] fn vp_toks(&self) -> (r: Toks) { unimplemented!() } }
impl VToks for Path { open spec fn toks(&self) -> Seq<char> { tpath(*self) } #[verifier::external_body] fn vp_toks(&self) -> (r: Toks) { unimplemented!() } }
impl VToks for Ident { open spec fn toks(&self) -> Seq<char> { tident(*self) } #[verifier::external_body] fn vp_toks(&self) -> (r: Toks) { unimplemented!() } } }
#[verifier::external_body] pub struct LitStr(());
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Span(());
impl LitStr { pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
pub struct ParseWrapper<T>(pub T);
impl<T> ParseWrapper<T> { pub fn into_inner(self) -> (r: T) ensures r == self.0 { self.0 } }
impl<T: VToks> VToks for ParseWrapper<T> { open spec fn toks(&self) -> Seq<char> { self.0.toks() } #[verifier::external_body] fn vp_toks(&self) -> (r: Toks) { unimplemented!() } }
/// entries in an order of the map's own
#[verifier::external_body] #[verifier::accept_recursive_types(V)] #[verifier::reject_recursive_types(K)] pub struct HashMap<K, V>(core::marker::PhantomData<(K, V)>);
impl<K, V> HashMap<K, V> { pub uninterp spec fn entries(&self) -> Seq<(K, V)>; }
#[verifier::external_body] #[verifier::accept_recursive_types(V)] #[verifier::reject_recursive_types(K)] pub struct OrderedMap<K, V>(core::marker::PhantomData<(K, V)>);
impl<K, V> OrderedMap<K, V> { pub uninterp spec fn entries(&self) -> Seq<(K, V)>; }
pub trait VInto2<I>: Sized { spec fn all(&self) -> Seq<I>; fn vp_into_iter(self) -> (r: VIter<I>) ensures r@ == self.all(); }
impl<K, V> VInto2<(K, V)> for HashMap<K, V> { open spec fn all(&self) -> Seq<(K, V)> { self.entries() } #[verifier::external_body] fn vp_into_iter(self) -> (r: VIter<(K, V)>) { unimplemented!() } }
impl<K, V> VInto2<(K, V)> for OrderedMap<K, V> { open spec fn all(&self) -> Seq<(K, V)> { self.entries() } #[verifier::external_body] fn vp_into_iter(self) -> (r: VIter<(K, V)>) { unimplemented!() } }
impl<T> VInto2<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<K, V> VEach<(K, V)> for HashMap<K, V> { open spec fn each(&self) -> Seq<(K, V)> { self.entries() } #[verifier::external_body] fn vp_each(self) -> (r: VIter<(K, V)>) { unimplemented!() } }
impl<K, V> VEach<(K, V)> for OrderedMap<K, V> { open spec fn each(&self) -> Seq<(K, V)> { self.entries() } #[verifier::external_body] fn vp_each(self) -> (r: VIter<(K, V)>) { unimplemented!() } }
impl<T> VEach<T> for Vec<T> { open spec fn each(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_each(self) -> (r: VIter<T>) { unimplemented!() } }
impl<T> VEach<T> for syn::Punctuated<T, syn::Plus> { open spec fn each(&self) -> Seq<T> { self.seq() } #[verifier::external_body] fn vp_each(self) -> (r: VIter<T>) { unimplemented!() } }
pub trait VHere<T> { spec fn here(&self) -> Seq<T>; fn vp_here(&self) -> (r: VIter<&T>) ensures r@.len() == self.here().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.here()[i]; }
impl<T> VHere<T> for Option<T> { open spec fn here(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } } #[verifier::external_body] fn vp_here(&self) -> (r: VIter<&T>) { unimplemented!() } }
impl<T> VHere<T> for Vec<T> { open spec fn here(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_here(&self) -> (r: VIter<&T>) { unimplemented!() } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum InterfaceStyle { Positional, Builder }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum TagStyle { Merged, Separate }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum UnknownPolicy { Generate, Allow, Deny }
#[verifier::external_body] pub struct CrateVers(());
#[verifier::external_body] pub struct SchemaObject(());
/// typify's
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum TypeImpl { FromStr, FromStringIrrefutable, Display, Default }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T>(core::marker::PhantomData<T>);
impl<T> View for HashSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
/// an order of the set's own
pub uninterp spec fn order<T>(s: Set<T>) -> Seq<T>;
impl<T> HashSet<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures r == !old(self)@.contains(x), final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &T) -> (r: bool) ensures r == old(self)@.contains(*x), final(self)@ == old(self)@.remove(*x) { unimplemented!() } }
impl<T> VInto2<T> for HashSet<T> { open spec fn all(&self) -> Seq<T> { order(self@) } #[verifier::external_body] fn vp_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<T, const N: usize> VInto2<T> for [T; N] { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<T> VInto2<T> for syn::Punctuated<T, syn::Plus> { open spec fn all(&self) -> Seq<T> { self.seq() } #[verifier::external_body] fn vp_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<T> VIter<T> { #[verifier::external_body] pub fn vp_set(self) -> (r: HashSet<T>) ensures forall|x: T| #[trigger] r@.contains(x) == self@.contains(x) { unimplemented!() } }
pub struct ClosureOrPath(pub Toks);
pub ghost struct PatchV { pub rename: Option<Seq<char>>, pub derives: Seq<Seq<char>> }
#[verifier::external_body] pub struct TypePatch(());
impl View for TypePatch { type V = PatchV; uninterp spec fn view(&self) -> PatchV; }
pub trait VTextual { spec fn told(&self) -> Seq<char>; }
impl VTextual for String { open spec fn told(&self) -> Seq<char> { self@ } }
impl VTextual for Toks { open spec fn told(&self) -> Seq<char> { self@ } }
impl VTextual for &str { open spec fn told(&self) -> Seq<char> { (*self)@ } }
impl VTextual for &String { open spec fn told(&self) -> Seq<char> { (**self)@ } }
impl TypePatch {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == (PatchV { rename: None, derives: Seq::empty() }) { unimplemented!() }
    #[verifier::external_body] pub fn with_rename<S: VTextual>(&mut self, x: S) -> (r: &mut Self) ensures r@ == (PatchV { rename: Some(x.told()), ..old(self)@ }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn with_derive<S: VTextual>(&mut self, x: S) -> (r: &mut Self) ensures r@ == (PatchV { derives: old(self)@.derives.push(x.told()), ..old(self)@ }), *final(self) == *final(r) { unimplemented!() }
}
/// the settings of a generator (G11)
pub ghost struct Sv { pub interface: InterfaceStyle, pub tag: TagStyle, pub inner_type: Option<Seq<char>>, pub pre_hook: Option<Seq<char>>, pub pre_hook_async: Option<Seq<char>>, pub post_hook: Option<Seq<char>>, pub post_hook_async: Option<Seq<char>>,
    pub map_type: Option<Seq<char>>, pub unknown: UnknownPolicy, pub crates: Map<Seq<char>, (CrateVers, Option<Seq<char>>)>, pub derives: Seq<Seq<char>>, pub patch: Map<Seq<char>, PatchV>, pub replace: Map<Seq<char>, (Seq<char>, Seq<TypeImpl>)>, pub convert: Seq<(SchemaObject, Seq<char>, Seq<TypeImpl>)> }
pub open spec fn nothing_set() -> Sv { Sv { interface: InterfaceStyle::Positional, tag: TagStyle::Merged, inner_type: None, pre_hook: None, pre_hook_async: None, post_hook: None, post_hook_async: None, map_type: None, unknown: UnknownPolicy::Generate,
    crates: Map::empty(), derives: Seq::empty(), patch: Map::empty(), replace: Map::empty(), convert: Seq::empty() } }
#[verifier::external_body] pub struct GenerationSettings(());
impl View for GenerationSettings { type V = Sv; uninterp spec fn view(&self) -> Sv; }
pub open spec fn otext(s: Option<&String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
impl GenerationSettings {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == nothing_set() { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == nothing_set() { unimplemented!() }
@WITH@
}
pub uninterp spec fn code(s: Sv, d: OpenAPI) -> Option<Seq<char>>;
#[verifier::external_body] pub struct OpenAPI(());
#[verifier::external_body] pub struct GenError(());
#[verifier::external_body] pub struct Generator(());
impl Generator { pub uninterp spec fn sv(&self) -> Sv;
    #[verifier::external_body] pub fn new(s: &GenerationSettings) -> (r: Self) ensures r.sv() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn generate_tokens(&mut self, d: &OpenAPI) -> (r: core::result::Result<Toks, GenError>)
        ensures final(self).sv() == old(self).sv(), match r { Ok(c) => code(old(self).sv(), *d) == Some(c@), Err(_) => code(old(self).sv(), *d) is None } { unimplemented!() } }
pub uninterp spec fn json_of(t: Seq<char>) -> Option<OpenAPI>;
pub uninterp spec fn yaml_of(t: Seq<char>) -> Option<OpenAPI>;
/// the document in the file: JSON if it is JSON, else YAML
pub open spec fn document(p: vfs::PathV) -> Option<OpenAPI> { match vfs::input(p) { Some(t) => if json_of(t) is Some { json_of(t) } else { yaml_of(t) }, None => None } }
pub mod serde_json { use vstd::prelude::*; #[verifier::external_body] pub struct Error(()); #[verifier::external_body] pub fn from_reader(f: super::vfs::Reader) -> (r: core::result::Result<super::OpenAPI, Error>) ensures match r { Ok(a) => super::json_of(f@) == Some(a), Err(_) => super::json_of(f@) is None } { unimplemented!() } }
pub mod serde_yaml { use vstd::prelude::*; #[verifier::external_body] pub struct Error(()); #[verifier::external_body] pub fn from_reader(f: super::vfs::Reader) -> (r: core::result::Result<super::OpenAPI, Error>) ensures match r { Ok(a) => super::yaml_of(f@) == Some(a), Err(_) => super::yaml_of(f@) is None } { unimplemented!() } }
"""
SPEC = r"""
pub open spec fn given_impls() -> Set<TypeImpl> { Set::empty().insert(TypeImpl::FromStr).insert(TypeImpl::Display) }
/// FromStr and Display, and what is named with or without a question mark after them, in order
pub open spec fn kept(s: Seq<ImplTrait>) -> Set<TypeImpl> decreases s.len() {
    if s.len() == 0 { given_impls() } else { let k = kept(s.drop_last()); match s.last().impl_name { None => k, Some(x) => match s.last().modifier { syn::TraitBoundModifier::None => k.insert(x), syn::TraitBoundModifier::Maybe(_) => k.remove(x) } } } }
impl TypeAndImpls { pub open spec fn name(&self) -> Seq<char> { syn::tpath(self.type_name) } pub open spec fn impls(&self) -> Seq<TypeImpl> { order(kept(self.impls.seq())) } }
/// what the given tokens are: a text, or options
pub uninterp spec fn lit(t: Seq<char>) -> Option<LitStr>;
pub uninterp spec fn options(t: Seq<char>) -> Option<MacroSettings>;
#[verifier::external_body] pub fn vp_parse_lit(t: Toks) -> (r: Res<LitStr>) ensures (match r { Ok(l) => Some(l), Err(_) => None }) == lit(t@) { unimplemented!() }
#[verifier::external_body] pub fn vp_options(t: &Toks) -> (r: Res<MacroSettings>) ensures (match r { Ok(l) => Some(l), Err(_) => None }) == options(t@) { unimplemented!() }
pub open spec fn hook(h: Option<ParseWrapper<ClosureOrPath>>) -> Option<Seq<char>> { match h { Some(h) => Some(h.0.0@), None => None } }
pub open spec fn named(h: Option<ParseWrapper<syn::Type>>) -> Option<Seq<char>> { match h { Some(h) => Some(h.toks()), None => None } }
pub open spec fn f_crates(m: Map<Seq<char>, (CrateVers, Option<Seq<char>>)>, s: Seq<(CrateName, MacroCrateSpec)>) -> Map<Seq<char>, (CrateVers, Option<Seq<char>>)> decreases s.len() {
    if s.len() == 0 { m } else { let (n, c) = s.last(); let m = f_crates(m, s.drop_last()); match c.original { Some(o) => m.insert(o@, (c.version, Some(n.0@))), None => m.insert(n.0@, (c.version, None)) } } }
pub open spec fn f_derives(m: Seq<Seq<char>>, s: Seq<ParseWrapper<syn::Path>>) -> Seq<Seq<char>> decreases s.len() { if s.len() == 0 { m } else { f_derives(m, s.drop_last()).push(s.last().toks()) } }
pub open spec fn patch_of(p: MacroPatch) -> PatchV { PatchV { rename: match p.rename { Some(r) => Some(r@), None => None }, derives: f_derives(Seq::empty(), p.derives@) } }
pub open spec fn f_patch(m: Map<Seq<char>, PatchV>, s: Seq<(ParseWrapper<syn::Ident>, MacroPatch)>) -> Map<Seq<char>, PatchV> decreases s.len() { if s.len() == 0 { m } else { f_patch(m, s.drop_last()).insert(s.last().0.toks(), patch_of(s.last().1)) } }
pub open spec fn f_replace(m: Map<Seq<char>, (Seq<char>, Seq<TypeImpl>)>, s: Seq<(ParseWrapper<syn::Ident>, ParseWrapper<TypeAndImpls>)>) -> Map<Seq<char>, (Seq<char>, Seq<TypeImpl>)> decreases s.len() {
    if s.len() == 0 { m } else { f_replace(m, s.drop_last()).insert(s.last().0.toks(), (s.last().1.0.name(), s.last().1.0.impls())) } }
pub open spec fn f_convert(m: Seq<(SchemaObject, Seq<char>, Seq<TypeImpl>)>, s: Seq<(SchemaObject, ParseWrapper<TypeAndImpls>)>) -> Seq<(SchemaObject, Seq<char>, Seq<TypeImpl>)> decreases s.len() {
    if s.len() == 0 { m } else { f_convert(m, s.drop_last()).push((s.last().0, s.last().1.0.name(), s.last().1.0.impls())) } }
/// the settings that the options ask for
pub open spec fn wanted(o: MacroSettings) -> Sv { Sv { interface: o.interface, tag: o.tags, inner_type: named(o.inner_type), pre_hook: hook(o.pre_hook), pre_hook_async: hook(o.pre_hook_async), post_hook: hook(o.post_hook), post_hook_async: hook(o.post_hook_async),
    map_type: named(o.map_type), unknown: o.unknown_crates, crates: f_crates(Map::empty(), o.crates.entries()), derives: f_derives(Seq::empty(), o.derives@), patch: f_patch(Map::empty(), o.patch.entries()),
    replace: f_replace(Map::empty(), o.replace.entries()), convert: f_convert(Seq::empty(), o.convert.entries()) } }
pub open spec fn wants(t: Seq<char>) -> Option<(LitStr, Sv)> { match lit(t) { Some(l) => Some((l, nothing_set())), None => match options(t) { Some(o) => Some((o.spec.0, wanted(o))), None => None } } }
pub open spec fn base() -> vfs::PathV { match vm::manifest() { Some(s) => vfs::at(s, Seq::empty()), None => vm::cwd() } }
pub open spec fn place(l: LitStr) -> vfs::PathV { vfs::at(base().root, base().parts.push(l.text())) }
/// the code of the document, with the file as an input of the compilation
pub open spec fn whole(c: Seq<char>, p: Seq<char>) -> Seq<char> { "use progenitor :: progenitor_client ;"@ + c + "const _ : & str = include_str ! ("@ + p + ") ;"@ }
"""


def withs():
    out = ''
    for f, ty, spec in (('interface', 'InterfaceStyle', 'x'), ('tag', 'TagStyle', 'x'), ('inner_type', 'Toks', 'Some(x@)'), ('pre_hook', 'Toks', 'Some(x@)'), ('pre_hook_async', 'Toks', 'Some(x@)'), ('post_hook', 'Toks', 'Some(x@)'),
                        ('post_hook_async', 'Toks', 'Some(x@)'), ('map_type', 'T', 'Some(x.told())'), ('unknown', 'UnknownPolicy', 'x'), ('derives', 'T', 'old(self)@.derives.push(x.told())')):
        n = dict(unknown='unknown_crates', derives='derive').get(f, f)
        g = '<T: VTextual>' if ty == 'T' else ''
        out += f'    #[verifier::external_body] pub fn with_{n}{g}(&mut self, x: {ty}) -> (r: &mut Self) ensures r@ == (Sv {{ {f}: {spec}, ..old(self)@ }}), *final(self) == *final(r) {{ unimplemented!() }}\n'
    for f, g, ps, spec in (('crate', '<T: VTextual>', 'n: T, v: CrateVers, o: Option<&String>', 'crates: old(self)@.crates.insert(n.told(), (v, otext(o)))'),
                           ('patch', '<T: VTextual>', 'n: T, p: &TypePatch', 'patch: old(self)@.patch.insert(n.told(), p@)'),
                           ('replacement', '<T: VTextual, U: VTextual>', 'n: T, x: U, i: VIter<TypeImpl>', 'replace: old(self)@.replace.insert(n.told(), (x.told(), i@))'),
                           ('conversion', '<U: VTextual>', 's: SchemaObject, x: U, i: VIter<TypeImpl>', 'convert: old(self)@.convert.push((s, x.told(), i@))')):
        out += f'    #[verifier::external_body] pub fn with_{f}{g}(&mut self, {ps}) -> (r: &mut Self) ensures r@ == (Sv {{ {spec}, ..old(self)@ }}), *final(self) == *final(r) {{ unimplemented!() }}\n'
    return out


def loop(k, f, var, base=None):
    n = f'vp_q{k}.len() - vp_f{k}@.len()'
    step = f'f_{f}(vp_g{k}.{f}, vp_q{k}.take({n}))' if not base else base(f'vp_q{k}.take({n})')
    now = f'{var}@ == (Sv {{ {f}: {step}, ..vp_g{k} }})'
    return dict(kind='loop', before=f'let ghost vp_g{k} = {var}@; let ghost vp_q{k} = vp_f{k}@; proof {{ assert(vp_q{k}.take(0) =~= Seq::empty()); }}',
                inv=[(f'G29.{f}-left', f'vp_f{k}@.len() <= vp_q{k}.len() && vp_f{k}@ == vp_q{k}.skip({n})'), (f'G29.{f}-so-far', now)],
                ens=[(f'G29.{f}-all', f'{var}@ == (Sv {{ {f}: f_{f}(vp_g{k}.{f}, vp_q{k}), ..vp_g{k} }})')], dec=f'vp_f{k}@.len()',
                body_start=f'proof {{ if vp_f{k}@.len() > 0 {{ let k = {n}; assert(vp_f{k}@[0] == vp_q{k}[k]); assert(vp_q{k}.take(k + 1).drop_last() =~= vp_q{k}.take(k)); assert(vp_q{k}.take(k + 1).last() == vp_q{k}[k]); assert(vp_f{k}@.skip(1) =~= vp_q{k}.skip(k + 1)); }} else {{ assert(vp_q{k}.take({n}) =~= vp_q{k}); }} }}')


def build_G29(src, probe):
    w = start(src, probe, 'G29')
    w.raw(STUBS.replace('@VFS@', VFS).replace('@VTEXT@', VTEXT).replace('@WITH@', withs()))
    w.raw('use syn::Punctuated;\n')
    w.struct('ImplTrait')
    w.struct('TypeAndImpls')
    w.struct('CrateName')
    w.struct('MacroCrateSpec')
    w.struct('MacroPatch')
    w.struct('MacroSettings')
    w.raw(SPEC)
    fn = src.find_fn('do_generate_api')
    body = src.text[src.toks[fn.body[0]].a:src.toks[fn.body[1]].b]
    R = [(r'\bResult<(\w+), syn::Error>', r'Res<\1>'), (r'\bproc_macro2?::TokenStream\b', 'Toks'), (r'\bTokenStream\b', 'Toks'), (r'\bquote::', ''),
         (r'\bsyn::parse::<LitStr>\(', 'vp_parse_lit('), (r'\bserde_tokenstream::from_tokenstream(?:::<MacroSettings>)?\(', 'vp_options('), (r'\.to_token_stream\(\)', '.vp_toks()'), (r'\.to_string\(\)', '.to_text()'),
         (r'\.into_iter\(\)', '.vp_into_iter()'), (r'\.into\(\)', '.vp_into()'), (r'\bstd::env::var\(\s*"CARGO_MANIFEST_DIR"\s*\)', 'vm::manifest_dir()'), (r'\bstd::env::current_dir\(\)', 'vm::current_dir()'),
         (r'\bPath::new\(&(\w+)\)\.to_path_buf\(\)', r'vm::new_path(\1)'), (r'\bPathBuf::from\((\w+)\)', r'vm::new_path(\1)'), (r'\.join\((?:&)?([\w.()]+?)\)(?=[;.])', r'.vp_join(vm_str(&\1))'), (r'\b(\w+)\.to_string_lossy\(\)', r'vm::to_string_lossy(&\1)')]
    w.raw('#[verifier::external_body] pub fn vm_str(s: &String) -> (r: &str) ensures r@ == s@ { unimplemented!() }\n')
    w.raw('#[verifier::external_body] pub fn open_file(p: PathBuf, s: Span) -> (r: Res<vfs::Reader>) ensures (match r { Ok(f) => Some(f@), Err(_) => None }) == vfs::input(p@) { unimplemented!() }\n')
    fors = [(m.group(1), m.group(2)) for m in re.finditer(r'let mut vp_f(\d+) = \((.*?)\)\.vp_each\(\);', body, re.S)]
    var = re.search(r'let mut (\w+) = GenerationSettings::(?:default|new)\(\)', body)
    var = var.group(1) if var else 'settings'
    loops = []
    for k, e in fors:
        x = re.match(r'\s*&?\s*(\w+)\b', e)
        loops.append(loop(k, LOOPS[x.group(1)], var) if x and x.group(1) in LOOPS else None)
    n = 'vp_q0.len() - vp_f0@.len()'
    w.fn('into_name_and_impls', C(
        ens=[('G29.name-and-impls', 'r.0@ == self.name() && r.1@ == self.impls()')],
        locals=dict(s=r'let mut (\w+) =(?!\s*\(self)'),
        loops=[dict(kind='loop', before='let ghost vp_q0 = vp_f0@; let ghost vp_p = self.impls.seq(); proof { assert($s@ =~= given_impls()) by { let d = seq![TypeImpl::FromStr, TypeImpl::Display]; assert(d[0] == TypeImpl::FromStr && d[1] == TypeImpl::Display); } assert(vp_q0.take(0) =~= Seq::empty()); }',
                    inv=[('G29.impls-left', f'vp_f0@.len() <= vp_q0.len() && vp_f0@ == vp_q0.skip({n})'), ('G29.impls-so-far', f'$s@ =~= kept(vp_q0.take({n}))')],
                    ens=[('G29.impls-all', '$s@ == kept(vp_q0)')], dec='vp_f0@.len()',
                    body_start=f'proof {{ if vp_f0@.len() > 0 {{ let k = {n}; assert(vp_f0@[0] == vp_q0[k]); assert(vp_q0.take(k + 1).drop_last() =~= vp_q0.take(k)); assert(vp_q0.take(k + 1).last() == vp_q0[k]); assert(vp_f0@.skip(1) =~= vp_q0.skip(k + 1)); }} else {{ assert(vp_q0.take({n}) =~= vp_q0); }} }}')],
        subst=[(r'impl Iterator<Item = TypeImpl>', 'VIter<TypeImpl>'), (r'\bconst (\w+): ', r'let \1: '), (r'\.collect::<HashSet<[^>]*>>\(\)', '.vp_set()'), (r'\.into_iter\(\)', '.vp_into_iter()'), (r'\.to_token_stream\(\)', '.vp_toks()'), (r'\.to_string\(\)', '.to_text()')]), ty='TypeAndImpls')
    I = '$p0@'
    # Patch
    def patch_loop(k, e):
        q, f, s, n = f'vp_q{k}', f'vp_f{k}@', f'vp_s{k}', f'vp_q{k}.len() - vp_f{k}@.len()'
        d = dict(kind='loop', before=f'let ghost {q} = {f}; let ghost {s} = $s@;', dec=f'{f}.len()')
        of = 'rename.here()' if re.search(r'\brename\b', e) else 'derives@'
        now = (f'rename: if {f}.len() < {q}.len() {{ Some($p0.rename->0@) }} else {{ {s}.rename }}' if of != 'derives@' else f'derives: f_derives({s}.derives, $p0.derives@.take({n}))')
        d['inv'] = [(f'G29.patch-so-far-{k}', f'{f}.len() <= {q}.len() && {q}.len() == $p0.{of}.len() && {f} == {q}.skip({n}) && (forall|i: int| 0 <= i < {q}.len() ==> *(#[trigger] {q}[i]) == $p0.{of}[i]) && $s@ == (PatchV {{ {now}, ..{s} }})')]
        d['ens'] = [(f'G29.patch-all-{k}', f'{f}.len() == 0')]
        if of == 'derives@':
            d['before'] += ' proof { assert($p0.derives@.take(0) =~= Seq::empty()); }'
            d['body_start'] = f'proof {{ if {f}.len() > 0 {{ let k = {n}; assert({f}[0] == {q}[k]); assert($p0.derives@.take(k + 1).drop_last() =~= $p0.derives@.take(k)); assert($p0.derives@.take(k + 1).last() == $p0.derives@[k]); assert({f}.skip(1) =~= {q}.skip(k + 1)); }} }}'
            d['after'] = 'proof { assert($p0.derives@.take($p0.derives@.len() as int) =~= $p0.derives@); }'
        else:
            d['body_start'] = f'proof {{ if {f}.len() > 0 {{ let k = {n}; assert({f}[0] == {q}[k]); assert({f}.skip(1) =~= {q}.skip(k + 1)); }} }}'
        return d
    pf = src.find_fn('from', 'TypePatch', 'From')
    ptext = src.text[src.toks[pf.body[0]].a:src.toks[pf.body[1]].b]
    w.fn('from', C(
        ens=[('G29.patch-kept', 'r@ == patch_of($p0)')],
        locals=dict(s=r'let mut (\w+) = (?:Self|TypePatch)::default'),
        loops=[patch_loop(m.group(1), m.group(2)) for m in re.finditer(r'let mut vp_f(\d+) = \((.*?)\)\.vp_each\(\);', ptext, re.S)],
        subst=[(r'\.iter\(\)', '.vp_here()'), (r'\.to_token_stream\(\)', '.vp_toks()'), (r'\.to_string\(\)', '.to_text()')]), ty='TypePatch', trait='From', as_inherent=True, header='impl TypePatch')
    w.raw("""pub trait VInto<T> { spec fn made(&self, r: T) -> bool; fn vp_into(self) -> (r: T) ensures self.made(r); }
impl VInto<TypePatch> for MacroPatch { open spec fn made(&self, r: TypePatch) -> bool { r@ == patch_of(*self) } fn vp_into(self) -> (r: TypePatch) { TypePatch::from(self) } }
impl VInto<Toks> for Toks { open spec fn made(&self, r: Toks) -> bool { r@ == self@ } #[verifier::external_body] fn vp_into(self) -> (r: Toks) { unimplemented!() } }
""")
    w.fn('do_generate_api', C(
        ens=[('G29.code-given', f'r matches Ok(c) ==> wants({I}) is Some && document(place((wants({I})->0).0)) is Some && code((wants({I})->0).1, document(place((wants({I})->0).0))->0) is Some && c@ =~= whole(code((wants({I})->0).1, document(place((wants({I})->0).0))->0)->0, vm::spelled(place((wants({I})->0).0)))'),
             ('G29.nothing-refused', f'r is Err ==> wants({I}) is None || document(place((wants({I})->0).0)) is None || code((wants({I})->0).1, document(place((wants({I})->0).0))->0) is None')],
        subst=R, loops=loops))
    return w


BUILD = {'G29': lambda s, p: done(build_G29(s, p))}
