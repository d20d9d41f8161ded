"""G28: the crate that cargo-progenitor writes."""
import os, re
from vp.weave import Weave, C, Edit, apply_edits, lower_for
from vp.rustlex import Src, Lost, lex, match_delims
from . import gen_stubs as S
from .gen import start, done, FORMAT, LIB

MAIN = 'cargo-progenitor/src/main.rs'
FILES = dict(G28=MAIN)
NOTE = dict(G28='The generator is taken by its contracts (settings: G11; what its code uses: its own uses_* answers, and typify\'s), clap by the type of its arguments (defaults and names of options are not part of it), '
                'rustfmt as a function of the text, the file system as a map from paths to contents whose calls may fail at any point.')


def drop_prints(t):
    toks = lex(t)
    m = match_delims(toks)
    ed = [Edit(toks[i].a, toks[m[i + 2] + 1].b, '') for i in range(len(toks) - 3) if toks[i].k == 'id' and toks[i].s in ('println', 'eprintln', 'print', 'eprint') and toks[i + 1].s == '!' and toks[m[i + 2] + 1].s == ';']
    return apply_edits(t, 0, len(t), ed)


def unroll_vec(t):
    # vec![a, b]: pushed one by one
    toks = lex(t)
    m = match_delims(toks)
    ed = []
    for i in range(len(toks) - 3):
        if toks[i].s == 'vec' and toks[i + 1].s == '!' and toks[i + 2].s == '[':
            parts, a, j = [], i + 3, i + 3
            while j <= m[i + 2]:
                if j == m[i + 2] or toks[j].s == ',':
                    if j > a:
                        parts.append(t[toks[a].a:toks[j - 1].b])
                    a = j + 1
                elif toks[j].s in '([{':
                    j = m[j]
                j += 1
            ed.append(Edit(toks[i].a, toks[m[i + 2]].b, '{ let mut vp_v: Vec<String> = vtext::none(); ' + ''.join(f'vp_v.push({x}); ' for x in parts) + 'vp_v }'))
    return apply_edits(t, 0, len(t), ed)


def chars(t):
    return rstr(t) + '@'


def fmt(pieces, pre):
    # literal parts as one sequence each
    ps = []
    for k, t in pieces:
        if k == 'disp' and re.fullmatch(r'"(?:[^"\\]|\\.)*"', t.strip()):
            k, t = 'lit', t.strip()[1:-1]
        if k not in ('lit', 'disp'):
            raise Lost('a debug format')
        if k == 'lit' and ps and ps[-1][0] == 'lit':
            ps[-1] = ('lit', ps[-1][1] + S.unescape(t))
        else:
            ps.append((k, S.unescape(t) if k == 'lit' else t))
    e = None
    for k, t in ps:
        if k == 'lit':
            x = f'vtext::lit({rstr(t)})'
        else:
            x = f'vtext::shown(&({t}))'
        e = x if e is None else f'vtext::cat({e}, {x})'
    return e or 'vtext::lit("")'


def rstr(t):
    return '"' + t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'


def load(root, prop):
    f = FILES[prop]
    t = unroll_vec(drop_prints(open(os.path.join(root, f)).read()))
    # ghost state of the file system
    t = re.sub(r'\bfn main\(\)', 'fn main(Tracked(vp_fs): Tracked<&mut Fs>)', t, 1)
    t = re.sub(r'\bfn save<P>\(', 'fn save<P>(Tracked(vp_fs): Tracked<&mut Fs>, ', t, 1)
    t = re.sub(r'(?<!fn )\bsave\((?=[^)])', 'save(Tracked(&mut *vp_fs), ', t)
    t = re.sub(r'\b((?:std::)?fs::create_dir_all|create_dir_all)\((?=[^)])', 'vfs::create_dir_all(Tracked(&mut *vp_fs), ', t)
    t = re.sub(r'\.(open|write_all|flush)\(', r'.\1(Tracked(&mut *vp_fs), ', t).replace('vp_fs), )', 'vp_fs))')
    t = re.sub(r'\.write\((?!true|false|Tracked)', r'.write(Tracked(&mut *vp_fs), ', t)
    t = re.sub(r'\bstd::fs::write\((?=[^)])', 'vfs::write(Tracked(&mut *vp_fs), ', t)
    s = Src(lower_for(t, ('main',)), f)
    s.lib = Src(open(os.path.join(root, LIB)).read(), LIB)
    return s


STUBS = r"""
pub mod vany { use vstd::prelude::*; use super::vfs;
#[verifier::external_body] pub struct Error(());
impl core::convert::From<vfs::IoError> for Error { #[verifier::external_body] fn from(e: vfs::IoError) -> Error { unimplemented!() } }
impl core::convert::From<super::serde_yaml::Error> for Error { #[verifier::external_body] fn from(e: super::serde_yaml::Error) -> Error { unimplemented!() } }
#[verifier::external_body] pub fn msg() -> Error { unimplemented!() } }
pub type AnyResult<T> = core::result::Result<T, vany::Error>;
/// paths and what is in the files; a file that cannot be created or written to may have any contents afterwards
pub mod vfs { use vstd::prelude::*;
pub ghost struct PathV { pub root: Seq<char>, pub parts: Seq<Seq<char>> }
pub open spec fn at(root: Seq<char>, parts: Seq<Seq<char>>) -> PathV { PathV { root, parts } }
#[verifier::external_body] pub struct IoError(());
pub type Result<T> = core::result::Result<T, IoError>;
#[verifier::external_body] pub struct PathBuf(());
pub type Path = PathBuf;
impl View for PathBuf { type V = PathV; uninterp spec fn view(&self) -> PathV; }
pub trait VPath: Sized { spec fn path(&self) -> PathV; fn as_ref(&self) -> (r: &PathBuf) ensures r@ == self.path(); fn vp_clone(&self) -> (r: Self) ensures r.path() == self.path(); }
impl VPath for PathBuf { open spec fn path(&self) -> PathV { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &PathBuf) { unimplemented!() } #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VPath> VPath for &T { open spec fn path(&self) -> PathV { (**self).path() } #[verifier::external_body] fn as_ref(&self) -> (r: &PathBuf) { unimplemented!() } #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
impl VPath for String { open spec fn path(&self) -> PathV { at(self@, Seq::empty()) } #[verifier::external_body] fn as_ref(&self) -> (r: &PathBuf) { unimplemented!() } #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
impl VPath for &str { open spec fn path(&self) -> PathV { at(self@, Seq::empty()) } #[verifier::external_body] fn as_ref(&self) -> (r: &PathBuf) { unimplemented!() } #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
impl PathBuf {
    #[verifier::external_body] pub fn from<T: VPath>(s: T) -> (r: PathBuf) ensures r@ == s.path() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, s: &str) ensures final(self)@ == at(old(self)@.root, old(self)@.parts.push(s@)) { unimplemented!() }
    #[verifier::external_body] pub fn vp_join(&self, s: &str) -> (r: PathBuf) ensures r@ == at(self@.root, self@.parts.push(s@)) { unimplemented!() }
}
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
pub tracked struct Fs { pub ghost files: Map<PathV, Seq<char>>, pub ghost dirs: Set<PathV> }
/// nothing but p may have changed
pub open spec fn same(a: Map<PathV, Seq<char>>, b: Map<PathV, Seq<char>>, q: PathV) -> bool { a.dom().contains(q) == b.dom().contains(q) && a[q] == b[q] }
pub open spec fn only(a: Fs, b: Fs, p: PathV) -> bool { a.dirs == b.dirs && forall|q: PathV| #![trigger b.files.dom().contains(q)] #![trigger b.files[q]] q != p ==> same(a.files, b.files, q) }
#[verifier::external_body] pub fn create_dir_all<P: VPath>(Tracked(fs): Tracked<&mut Fs>, p: P) -> (r: Result<()>)
    ensures final(fs).files == old(fs).files, r is Ok ==> final(fs).dirs == old(fs).dirs.insert(p.path()) { unimplemented!() }
#[verifier::external_body] pub fn write<P: VPath>(Tracked(fs): Tracked<&mut Fs>, p: P, d: &str) -> (r: Result<()>)
    ensures only(*old(fs), *final(fs), p.path()), r is Ok ==> final(fs).files == old(fs).files.insert(p.path(), d@) { unimplemented!() }
#[derive(PartialEq, Eq)] pub struct OpenOptions { pub create_: bool, pub truncate_: bool, pub write_: bool, pub append_: bool }
/// `path`: what it writes to; `fresh`: what was written since it was emptied
#[verifier::external_body] pub struct File(());
impl File { pub uninterp spec fn path(&self) -> PathV; pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn write_all(&mut self, Tracked(fs): Tracked<&mut Fs>, d: &[u8]) -> (r: Result<()>)
        ensures only(*old(fs), *final(fs), old(self).path()), final(self).path() == old(self).path(),
            r is Ok ==> final(self).text() == (match old(self).text() { Some(t) => Some(t + chars(d)), None => None }) && (old(self).text() matches Some(t) ==> final(fs).files == old(fs).files.insert(old(self).path(), t + chars(d))) { unimplemented!() }
    /// a part of it
    #[verifier::external_body] pub fn write(&mut self, Tracked(fs): Tracked<&mut Fs>, d: &[u8]) -> (r: Result<usize>) ensures only(*old(fs), *final(fs), old(self).path()), final(self).path() == old(self).path() { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self, Tracked(fs): Tracked<&mut Fs>) -> (r: Result<()>)
        ensures final(self).path() == old(self).path(), final(self).text() == old(self).text(), r is Ok ==> *final(fs) == *old(fs), only(*old(fs), *final(fs), old(self).path()) { unimplemented!() } }
pub uninterp spec fn chars(b: &[u8]) -> Seq<char>;
#[verifier::external_body] pub fn bytes(s: &str) -> (r: &[u8]) ensures chars(r) == s@ { unimplemented!() }
impl OpenOptions {
    pub fn new() -> (r: Self) ensures r == (OpenOptions { create_: false, truncate_: false, write_: false, append_: false }) { OpenOptions { create_: false, truncate_: false, write_: false, append_: false } }
    pub fn create(self, b: bool) -> (r: Self) ensures r == (OpenOptions { create_: b, ..self }) { OpenOptions { create_: b, ..self } }
    pub fn truncate(self, b: bool) -> (r: Self) ensures r == (OpenOptions { truncate_: b, ..self }) { OpenOptions { truncate_: b, ..self } }
    pub fn write(self, b: bool) -> (r: Self) ensures r == (OpenOptions { write_: b, ..self }) { OpenOptions { write_: b, ..self } }
    pub fn append(self, b: bool) -> (r: Self) ensures r == (OpenOptions { append_: b, ..self }) { OpenOptions { append_: b, ..self } }
    /// a file that is opened to be written and emptied starts empty; of another nothing is known
    #[verifier::external_body] pub fn open<P: VPath>(self, Tracked(fs): Tracked<&mut Fs>, p: P) -> (r: Result<File>)
        ensures only(*old(fs), *final(fs), p.path()), r matches Ok(f) ==> f.path() == p.path() && (self.create_ && self.truncate_ && self.write_ ==> f.text() == Some(Seq::<char>::empty()) && final(fs).files == old(fs).files.insert(p.path(), Seq::empty())) { unimplemented!() } }
/// what is read: the text of the file, the same each time
pub uninterp spec fn input(p: PathV) -> Option<Seq<char>>;
#[verifier::external_body] pub struct Reader(());
impl View for Reader { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Reader { #[verifier::external_body] pub fn open<P: VPath>(p: P) -> (r: Result<Reader>) ensures r matches Ok(f) ==> input(p.path()) == Some(f@) { unimplemented!() } }
}
use vtext::{VLines, VText};
use vfs::{PathBuf, VPath, Fs, OpenOptions, Reader};
pub uninterp spec fn json_of(t: Seq<char>) -> Option<OpenAPI>;
pub uninterp spec fn yaml_of(t: Seq<char>) -> Option<OpenAPI>;
/// the document in the file: JSON if it is JSON, else YAML
pub open spec fn document(p: vfs::PathV) -> Option<OpenAPI> { match vfs::input(p) { Some(t) => if json_of(t) is Some { json_of(t) } else { yaml_of(t) }, None => None } }
pub mod serde_json { use vstd::prelude::*; #[verifier::external_body] pub struct Error(()); #[verifier::external_body] pub fn from_reader(f: super::vfs::Reader) -> (r: core::result::Result<super::OpenAPI, Error>) ensures match r { Ok(a) => super::json_of(f@) == Some(a), Err(_) => super::json_of(f@) is None } { unimplemented!() } }
pub mod serde_yaml { use vstd::prelude::*; #[verifier::external_body] pub struct Error(()); #[verifier::external_body] pub fn from_reader(f: super::vfs::Reader) -> (r: core::result::Result<super::OpenAPI, Error>) ensures match r { Ok(a) => super::yaml_of(f@) == Some(a), Err(_) => super::yaml_of(f@) is None } { unimplemented!() } }
#[verifier::external_body] pub struct OpenAPI(());
pub mod env_logger { use vstd::prelude::*; #[verifier::external_body] pub fn init() { unimplemented!() } }
pub mod progenitor_client { use vstd::prelude::*; pub uninterp spec fn text() -> Seq<char>; #[verifier::external_body] pub fn code() -> (r: &'static str) ensures r@ == text() { unimplemented!() } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum InterfaceStyle { Positional, Builder }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum TagStyle { Merged, Separate }
/// the settings (G11); `rest`: no other option was set
pub ghost struct Sv { pub interface: InterfaceStyle, pub tag: TagStyle, pub rest: bool }
#[verifier::external_body] pub struct GenerationSettings(());
impl View for GenerationSettings { type V = Sv; uninterp spec fn view(&self) -> Sv; }
impl GenerationSettings {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == (Sv { interface: InterfaceStyle::Positional, tag: TagStyle::Merged, rest: true }) { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == (Sv { interface: InterfaceStyle::Positional, tag: TagStyle::Merged, rest: true }) { unimplemented!() }
    #[verifier::external_body] pub fn with_interface(&mut self, x: InterfaceStyle) -> (r: &mut Self) ensures r@ == (Sv { interface: x, ..old(self)@ }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn with_tag(&mut self, x: TagStyle) -> (r: &mut Self) ensures r@ == (Sv { tag: x, ..old(self)@ }), *final(self) == *final(r) { unimplemented!() }
}
/// what generated code uses
pub ghost struct Uses { pub futures: bool, pub websockets: bool, pub regress: bool, pub uuid: bool, pub chrono: bool, pub serde_json: bool }
pub uninterp spec fn code(s: Sv, d: OpenAPI) -> Option<Seq<char>>;
pub uninterp spec fn uses(s: Sv, d: OpenAPI) -> Uses;
#[verifier::external_body] pub struct Generator(());
impl Generator { pub uninterp spec fn sv(&self) -> Sv; pub uninterp spec fn uses(&self) -> Uses;
    #[verifier::external_body] pub fn new(s: &GenerationSettings) -> (r: Self) ensures r.sv() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn generate_tokens(&mut self, d: &OpenAPI) -> (r: core::result::Result<Code, GenError>)
        ensures final(self).sv() == old(self).sv(), match r { Ok(c) => code(old(self).sv(), *d) == Some(c@) && final(self).uses() == uses(old(self).sv(), *d), Err(_) => code(old(self).sv(), *d) is None } { unimplemented!() }
    #[verifier::external_body] pub fn get_type_space(&self) -> (r: &TypeSpace) ensures r.uses() == self.uses() { unimplemented!() }
    #[verifier::external_body] pub fn uses_futures(&self) -> (r: bool) ensures r == self.uses().futures { unimplemented!() }
    #[verifier::external_body] pub fn uses_websockets(&self) -> (r: bool) ensures r == self.uses().websockets { unimplemented!() } }
#[verifier::external_body] pub struct GenError(());
#[verifier::external_body] pub struct Code(());
impl View for Code { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Shown for Code { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Code { #[verifier::external_body] pub fn to_text(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub struct TypeSpace(());
#[verifier::external_body] pub struct TypeEntry(());
impl TypeEntry { #[verifier::external_body] pub fn describe(&self) -> String { unimplemented!() } }
#[verifier::external_body] pub struct Types(());
impl Types { #[verifier::external_body] pub fn enumerate(self) -> VIter<(usize, TypeEntry)> { unimplemented!() } }
impl TypeSpace { pub uninterp spec fn uses(&self) -> Uses;
    #[verifier::external_body] pub fn iter_types(&self) -> Types { unimplemented!() }
    #[verifier::external_body] pub fn uses_regress(&self) -> (r: bool) ensures r == self.uses().regress { unimplemented!() }
    #[verifier::external_body] pub fn uses_uuid(&self) -> (r: bool) ensures r == self.uses().uuid { unimplemented!() }
    #[verifier::external_body] pub fn uses_chrono(&self) -> (r: bool) ensures r == self.uses().chrono { unimplemented!() }
    #[verifier::external_body] pub fn uses_serde_json(&self) -> (r: bool) ensures r == self.uses().serde_json { unimplemented!() } }
/// debug builds, and the version of this package when it was built
pub uninterp spec fn debug() -> bool;
pub uninterp spec fn built() -> Option<Seq<char>>;
pub mod vbuild { use vstd::prelude::*;
#[verifier::external_body] pub fn debug_assertions() -> (r: bool) ensures r == super::debug() { unimplemented!() }
#[verifier::external_body] pub fn version() -> (r: Option<&'static str>) ensures (match r { Some(s) => Some(s@), None => None }) == super::built() { unimplemented!() } }
pub mod vtext { use vstd::prelude::*;
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn bag(s: Seq<Seq<char>>) -> vstd::multiset::Multiset<Seq<char>> { s.to_multiset() }
/// some order of the lines that their texts alone decide
pub uninterp spec fn sorted(b: vstd::multiset::Multiset<Seq<char>>) -> Seq<Seq<char>>;
pub open spec fn joined(s: Seq<Seq<char>>, by: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), by) + by + s.last() } }
#[verifier::external_body] pub fn none() -> (r: Vec<String>) ensures texts(r@) == Seq::<Seq<char>>::empty(), bag(texts(r@)) == vstd::multiset::Multiset::<Seq<char>>::empty() { unimplemented!() }
#[verifier::external_body] pub fn lit(s: &'static str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn shown<T: super::Shown + ?Sized>(x: &T) -> (r: String) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body] pub fn cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub trait VLines { spec fn lines(&self) -> Seq<Seq<char>>;
    fn vp_push(&mut self, s: String) ensures final(self).lines() == old(self).lines().push(s@), bag(final(self).lines()) == bag(old(self).lines()).insert(s@);
    fn vp_sort(&mut self) ensures final(self).lines() == sorted(bag(old(self).lines()));
    fn vp_join(&self, by: &str) -> (r: String) ensures r@ == joined(self.lines(), by@); }
impl VLines for Vec<String> { open spec fn lines(&self) -> Seq<Seq<char>> { texts(self@) }
    #[verifier::external_body] fn vp_push(&mut self, s: String) { unimplemented!() }
    #[verifier::external_body] fn vp_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vp_join(&self, by: &str) -> (r: String) { unimplemented!() } }
pub trait VText { spec fn text(&self) -> Seq<char>; fn vp_extend(&mut self, c: Chars) ensures final(self).text() == old(self).text() + c@; fn vp_push_str(&mut self, c: &str) ensures final(self).text() == old(self).text() + c@; fn vp_chars(&self) -> (r: Chars) ensures r@ == self.text(); }
impl VText for String { open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_extend(&mut self, c: Chars) { unimplemented!() }
    #[verifier::external_body] fn vp_push_str(&mut self, c: &str) { unimplemented!() }
    #[verifier::external_body] fn vp_chars(&self) -> (r: Chars) { unimplemented!() } }
#[verifier::external_body] pub struct Chars(());
impl View for Chars { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
}
"""
SPEC = r"""
pub uninterp spec fn versions() -> Dependencies;
#[verifier::external_body] pub fn vp_versions() -> (r: &'static Dependencies) ensures *r == versions() { unimplemented!() }
@NEEDED@
pub open spec fn lines(u: Uses, inside: bool) -> Seq<Seq<char>> { vtext::sorted(needed(u, inside)) }
pub uninterp spec fn given() -> Args;
impl CargoCli { #[verifier::external_body] pub fn parse() -> (r: CargoCli) ensures r == CargoCli::Progenitor(given()) { unimplemented!() } }
pub uninterp spec fn tidy(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn reformat_code(s: String) -> (r: String) ensures r@ == tidy(s@) { unimplemented!() }
pub open spec fn style(a: InterfaceArg) -> InterfaceStyle { match a { InterfaceArg::Positional => InterfaceStyle::Positional, InterfaceArg::Builder => InterfaceStyle::Builder } }
pub open spec fn tagging(a: TagArg) -> TagStyle { match a { TagArg::Merged => TagStyle::Merged, TagArg::Separate => TagStyle::Separate } }
pub open spec fn chose(a: Args) -> Sv { Sv { interface: style(a.interface), tag: tagging(a.tags), rest: true } }
pub open spec fn manifest(a: Args, u: Uses) -> Seq<char> {
    let h = @HEAD@;
    let h = match a.registry_name { Some(r) => h + (@PUBLISH@), None => h };
    h + (@DEPS@ + vtext::joined(lines(u, a.include_client), "\n"@) + @END@) }
pub open spec fn source(a: Args, c: Seq<char>) -> Seq<char> { tidy(if a.include_client { @MOD@ + c } else { c }) }
pub open spec fn p_toml(a: Args) -> vfs::PathV { vfs::at(a.output@, Seq::empty().push("Cargo.toml"@)) }
pub open spec fn p_lib(a: Args) -> vfs::PathV { vfs::at(a.output@, Seq::empty().push("src"@).push("lib.rs"@)) }
pub open spec fn p_client(a: Args) -> vfs::PathV { vfs::at(a.output@, Seq::empty().push("src"@).push("progenitor_client.rs"@)) }
/// the files of the crate, and nothing else
pub open spec fn written(a: Args, c: Seq<char>, u: Uses, f: Map<vfs::PathV, Seq<char>>) -> Map<vfs::PathV, Seq<char>> {
    let f = f.insert(p_toml(a), manifest(a, u)).insert(p_lib(a), source(a, c));
    if a.include_client { f.insert(p_client(a), progenitor_client::text()) } else { f } }
pub open spec fn untouched(a: Args, f: Map<vfs::PathV, Seq<char>>, g: Map<vfs::PathV, Seq<char>>) -> bool { forall|q: vfs::PathV| #![trigger g.dom().contains(q)] #![trigger g[q]] q != p_toml(a) && q != p_lib(a) && !(a.include_client && q == p_client(a)) ==> vfs::same(f, g, q) }
pub proof fn paths(a: Args) ensures p_lib(a) != p_client(a), p_toml(a) != p_lib(a), p_toml(a) != p_client(a) {
    reveal_strlit("lib.rs"); reveal_strlit("progenitor_client.rs");
    assert(p_lib(a).parts[1] == "lib.rs"@ && p_client(a).parts[1] == "progenitor_client.rs"@ && "lib.rs"@.len() != "progenitor_client.rs"@.len());
    assert(p_toml(a).parts.len() == 1 && p_lib(a).parts.len() == 2 && p_client(a).parts.len() == 2); }
pub open spec fn generated(a: Args) -> bool { document(vfs::at(a.input@, Seq::empty())) matches Some(d) && code(chose(a), d) is Some }
"""


def pieces(*xs):
    return ' + '.join(chars(x[1:]) if x[0] == '=' else x for x in xs)


def spec():
    d = 'versions().'
    simple = lambda n, v=None: pieces(f'={n} = "', f'{d}{v or n.replace("-", "_")}@', '="')
    rich = lambda n, more: pieces(f'={n} = {{ version = "', f'{d}{n}@', f'=", {more} }}')
    own = 'match built() { Some(v) => if debug() { ' + chars('*') + ' } else { v }, None => ' + chars('*') + ' }'
    N = [('true', simple('bytes')), ('true', simple('futures-core', 'futures')), ('true', rich('reqwest', 'default-features=false, features = ["json", "stream"]')),
         ('true', rich('serde', 'features = ["derive"]')), ('true', simple('serde_urlencoded')),
         ('inside', simple('percent-encoding')), ('!inside', pieces('=progenitor-client = "', f'({own})', '="')),
         ('u.regress', simple('regress')), ('u.uuid', rich('uuid', 'features = ["serde", "v4"]')), ('u.chrono', rich('chrono', 'default-features=false, features = ["serde"]')),
         ('u.futures', simple('futures')), ('u.websockets', simple('base64')), ('u.websockets', simple('rand')), ('u.serde_json || inside', simple('serde_json'))]
    need = '/// the crates that code with these uses needs, with the support code in the crate or as a crate of its own\n'
    need += 'pub open spec fn needed(u: Uses, inside: bool) -> vstd::multiset::Multiset<Seq<char>> {\n    let b = vstd::multiset::Multiset::<Seq<char>>::empty();\n'
    for c, t in N:
        need += f'    let b = if {c} {{ b.insert({t}) }} else {{ b }};\n'
    need += '    b }\n'
    return (SPEC.replace('@NEEDED@', need).replace('@PUBLISH@', pieces('=publish = ["', 'r@', '="]\n'))
            .replace('@HEAD@', pieces('=[package]\nname = "', 'a.name@', '="\nversion = "', 'a.version@', '="\nedition = "2021"\nlicense = "', 'a.license_name@', '="\n'))
            .replace('@DEPS@', pieces('=\n[dependencies]\n')).replace('@END@', pieces('=\n\n')).replace('@MOD@', pieces('=mod progenitor_client;\n\n')))


def build_G28(src, probe):
    w = start(src, probe, 'G28')
    w.raw(STUBS)
    w.enum('InterfaceArg', attrs='#[derive(Clone, Copy)]', expect=['Positional', 'Builder'])
    w.enum('TagArg', attrs='#[derive(Clone, Copy)]', expect=['Merged', 'Separate'])
    w.struct('Args')
    w.enum('CargoCli')
    w.struct('Dependencies')
    w.raw(spec())
    FM = {'format': fmt, 'bail': lambda p, x: 'return Err(vany::msg())'}
    R = [(r'\bResult<', 'AnyResult<')]
    w.glob_subst += [(r'\.to_string\(\)', '.to_text()'), (r'\bstd::path::', ''), (r'cfg!\(\s*debug_assertions\s*\)', 'vbuild::debug_assertions()'), (r'option_env!\(\s*"CARGO_PKG_VERSION"\s*\)', 'vbuild::version()'),
                     (r'\bDEPENDENCIES\b', 'vp_versions()')]
    w.fn('from', C(ens=[('G28.interface', 'r == style($p0)')]), ty='InterfaceStyle', trait='From', as_inherent=True, header='impl InterfaceStyle')
    w.fn('from', C(ens=[('G28.tags', 'r == tagging($p0)')]), ty='TagStyle', trait='From', as_inherent=True, header='impl TagStyle')
    w.raw("""pub trait VInto<T> { spec fn into_(&self) -> T; fn vp_into(self) -> (r: T) ensures r == self.into_(); }
impl VInto<InterfaceStyle> for InterfaceArg { open spec fn into_(&self) -> InterfaceStyle { style(*self) } fn vp_into(self) -> (r: InterfaceStyle) { InterfaceStyle::from(self) } }
impl VInto<TagStyle> for TagArg { open spec fn into_(&self) -> TagStyle { tagging(*self) } fn vp_into(self) -> (r: TagStyle) { TagStyle::from(self) } }
""")
    w.fn('is_non_release', C(ens=[('G28.debug-build', 'r == debug()')]))
    w.fn('save', C(ens=[('G28.save', 'r is Ok ==> final(vp_fs).files =~= old(vp_fs).files.insert($p1.path(), $p2@) && final(vp_fs).dirs == old(vp_fs).dirs'),
                        ('G28.save-only', 'vfs::only(*old(vp_fs), *final(vp_fs), $p1.path())')],
                   start='let ghost vp_o = vp_fs.files; proof { assert(Seq::<char>::empty() + $p2@ =~= $p2@); }',
                   subst=R + [(r'AsRef<Path>', 'VPath'), (r'\b(\w+)\.as_bytes\(\)', r'vfs::bytes(\1)')]))
    w.fn('load_api', C(ens=[('G28.document', 'r matches Ok(d) ==> document($p0.path()) == Some(d)')],
                       subst=R + [(r'AsRef<Path>[^,{]*', 'VPath'), (r'\bFile::open\(', 'Reader::open('), (r'\b(\w+)\.clone\(\)', r'\1.vp_clone()')]))
    gp, ip = (re.sub(r'^mut\s+', '', x[0]) for x in src.find_fn('dependencies').params)
    w.fn('dependencies', C(ens=[('G28.dependencies', 'vtext::texts(r@) == lines($p0.uses(), $p1)')],
                           subst=[(r'\.push\(', '.vp_push('), (r'\b(\w+)\.sort(?:_unstable)?\(\)', rf'{{ proof {{ assert(vtext::bag(\1.lines()) =~= needed({gp}.uses(), {ip})); }} \1.vp_sort() }}')], fmt=FM))
    A = 'given()'
    w.fn('main', C(
        ens=[('G28.crate-written', f'r is Ok ==> generated({A}) && final(vp_fs).files =~= written({A}, code(chose({A}), document(vfs::at({A}.input@, Seq::empty()))->0)->0, uses(chose({A}), document(vfs::at({A}.input@, Seq::empty()))->0), old(vp_fs).files)'),
             ('G28.nothing-without-code', f'!generated({A}) ==> r is Err && *final(vp_fs) == *old(vp_fs)'),
             ('G28.nothing-else', f'untouched({A}, old(vp_fs).files, final(vp_fs).files)')],
        start=f'proof {{ paths({A}); }} let ghost vp_o = *vp_fs;',
        subst=R + [(r'\.into\(\)', '.vp_into()'), (r'\.extend\(', '.vp_extend('), (r'\.push_str\(', '.vp_push_str('), (r'\.chars\(\)', '.vp_chars()'), (r'\.join\(', '.vp_join(')], fmt=FM, loops=[None], rename='vp_main'))
    return w


BUILD = {'G28': lambda s, p: done(build_G28(s, p))}
