"""G24: crate names and versions in the options of the macro."""
import os, re
from vp.weave import Weave, C
from vp.rustlex import Src, Lost
from . import gen_stubs as S
from .gen import start, done, FORMAT, LIB

MACRO = 'progenitor-macro/src/lib.rs'
FILES = dict(G24=MACRO)


def load(root, prop):
    f = FILES[prop]
    s = Src(open(os.path.join(root, f)).read(), f)
    s.lib = Src(open(os.path.join(root, LIB)).read(), LIB)
    return s


CRATES = r"""
/// typify's crate versions: what a text means, if anything, is typify's
#[verifier::external_body] pub struct CrateVers(());
pub uninterp spec fn version_of(s: Seq<char>) -> Option<CrateVers>;
impl CrateVers { #[verifier::external_body] pub fn parse(s: &str) -> (r: Option<CrateVers>) ensures r == version_of(s@) { unimplemented!() } }
pub uninterp spec fn alphanumeric(c: char) -> bool;
pub broadcast axiom fn ax_alnum(c: char) ensures c as int <= 127 ==> #[trigger] alphanumeric(c) == ('a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9');
pub mod vch {
use vstd::prelude::*;
#[verifier::external_body] pub fn alphanumeric(c: char) -> (r: bool) ensures r == super::alphanumeric(c) { c.is_alphanumeric() }
/// s.contains(f): some character is accepted by f; !contains: every character was refused
#[verifier::external_body] pub fn any<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| #[trigger] f.requires((c,))
    ensures r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), true), !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), false) { unimplemented!() }
#[verifier::external_body] pub fn all<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| #[trigger] f.requires((c,))
    ensures !r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), false), r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), true) { unimplemented!() }
#[verifier::external_body] pub fn whole(s: &String) -> (r: &str) ensures r@ == s@ { s }
}
/// serde: a value that is given as text or is not text
pub mod serde {
use vstd::prelude::*;
pub mod de { use vstd::prelude::*; pub enum Unexpected<'a> { Str(&'a str) }
pub trait Error: Sized { fn invalid_value(unexp: Unexpected, exp: &&str) -> Self; } }
pub trait Deserializer<'de>: Sized { type Error: de::Error; spec fn given(&self) -> Option<Seq<char>>; }
#[verifier::external_body] pub fn text<'de, D: Deserializer<'de>>(d: D) -> (r: core::result::Result<String, D::Error>) ensures match r { Ok(s) => d.given() == Some(s@), Err(_) => d.given() is None } { unimplemented!() }
}
/// letters, digits, underscores and dashes only
pub open spec fn crate_name(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> alphanumeric(#[trigger] s[i]) || s[i] == '_' || s[i] == '-' }
pub open spec fn oview(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
/// the part before the first @, if there is one
pub open spec fn renamed_from(s: Seq<char>) -> Option<Seq<char>> { if s.contains('@') { Some(s.take(vstr::cut(s, '@'))) } else { None } }
pub open spec fn version_text(s: Seq<char>) -> Seq<char> { if s.contains('@') { s.skip(vstr::cut(s, '@') + 1) } else { s } }
pub open spec fn crate_option(s: Seq<char>) -> bool { (renamed_from(s) matches Some(n) ==> crate_name(n)) && version_of(version_text(s)) is Some }
"""


def build_G24(src, probe):
    w = start(src, probe, 'G24')
    w.raw(CRATES)
    w.struct('CrateName')
    w.struct('MacroCrateSpec', {'orig': r'Option<String>', 'vers': 'CrateVers'})
    w.glob_subst += [(r'\bString::deserialize\(', 'serde::text(')]
    w.fn('is_crate', is_crate(w))
    R = 'core::result::Result<Self, D::Error>'
    TY = [(r'-> \(r: Result<Self, D::Error>\)', f'-> (r: {R})'), (r'\bResult<Self, D::Error>', R),
          (r'&(\w+)\[\s*\.\.\s*(\w+)\]', r'vstr::upto(&\1, \2)'), (r'&(\w+)\[(\w+) \+ 1\s*\.\.\s*\]', r'vstr::after(&\1, \2)'), (r'\b(\w+)\.as_ref\(\)', r'vch::whole(&\1)')]
    w.fn('deserialize', C(
        ens=[('G24.name-accepted', 'match $p0.given() { Some(s) => (match r { Ok(n) => crate_name(s) && n.0@ == s, Err(_) => !crate_name(s) }), None => r is Err }')],
        gen=lambda g: g.replace('<', "<'de, ", 1), subst=TY), ty='CrateName', trait='Deserialize', as_inherent=True, header='impl CrateName')
    w.fn('deserialize', C(
        ens=[('G24.option-read', 'match $p0.given() { Some(s) => (match r { Ok(o) => crate_option(s) && oview(o.$orig) == renamed_from(s) && Some(o.$vers) == version_of(version_text(s)), Err(_) => !crate_option(s) }), None => r is Err }')],
        start='broadcast use ax_alnum; proof { reveal_strlit("@"); assert forall|s: Seq<char>| true implies #[trigger] s.contains(\'@\') == (vstr::cut(s, \'@\') < s.len()) && 0 <= vstr::cut(s, \'@\') <= s.len() && (s.contains(\'@\') ==> s[vstr::cut(s, \'@\')] == \'@\') by { vstr::cut_first(s, \'@\'); } }',
        gen=lambda g: g.replace('<', "<'de, ", 1), subst=TY), ty='MacroCrateSpec', trait='Deserialize', as_inherent=True, header='impl MacroCrateSpec')
    return done(w)


def is_crate(w):
    f = w.src.find_fn('is_crate')
    t = w.src.text[w.src.toks[f.body[0]].a:w.src.toks[f.body[1]].b]
    good = 'alphanumeric($c0) || $c0 == \'_\' || $c0 == \'-\''
    # the closure says which characters are bad (!contains), or which are good (all)
    ens = f'cr == ({good})' if re.search(r'\.all\(', t) else f'cr == !({good})'
    return C(
        ens=[('G24.crate-name', 'r == crate_name($p0@)')],
        closures=[dict(ptypes=['char'], ret='bool', ens=ens)],
        subst=[(r'\b(\w+)\.contains\(', r'vch::any(\1, '), (r'\b(\w+)\.chars\(\)\s*\.all\(', r'vch::all(\1, '), (r'\b(\w+)\.chars\(\)\s*\.any\(', r'vch::any(\1, '),
               (r'\b(\w+)\.is_alphanumeric\(\)', r'vch::alphanumeric(\1)')])


BUILD = {'G24': build_G24}
