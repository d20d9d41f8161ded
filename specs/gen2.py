"""G09, G10, G17: progenitor-impl/src/util.rs."""
import os, re
from vp.weave import Weave, C
from vp.rustlex import Src, Lost
from . import gen_stubs as S
from .gen import start, done, SLICE, FORMAT, LIB, METHOD, UTIL
from .template import lib_error, ITERS


FILES = dict(G09=UTIL, G10=UTIL, G17=UTIL)


def load(root, prop):
    f = FILES[prop]
    s = Src(open(os.path.join(root, f)).read(), f)
    s.lib = Src(open(os.path.join(root, LIB)).read(), LIB)
    return s


# ---------------------------------------------------------------------------------------------
# what a Rust identifier is: xid_start and xid_continue are Unicode's, known here for ASCII only
IDENT = r'''
pub mod vid {
use vstd::prelude::*;
use super::{Ident, Shown};
pub uninterp spec fn xid_start(c: char) -> bool;
pub uninterp spec fn xid_continue(c: char) -> bool;
pub open spec fn letter(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub broadcast axiom fn ax_start(c: char) ensures c as int <= 127 ==> #[trigger] xid_start(c) == letter(c), xid_start(c) ==> xid_continue(c);
pub broadcast axiom fn ax_continue(c: char) ensures c as int <= 127 ==> #[trigger] xid_continue(c) == (letter(c) || '0' <= c <= '9' || c == '_');
pub broadcast group group_xid { ax_start, ax_continue }
/// the shape of an identifier, reserved or not
pub open spec fn shaped(s: Seq<char>) -> bool { s.len() > 0 && (xid_start(s[0]) || s[0] == '_') && forall|i: int| 0 <= i < s.len() ==> xid_continue(#[trigger] s[i]) }
/// format_ident!("{}", name): panics unless the text has the shape of an identifier
#[verifier::external_body]
pub fn ident<T: Shown>(name: T) -> (r: Ident) requires shaped(name.shown()) ensures r@ == name.shown() { unimplemented!() }
#[verifier::external_body]
pub fn contains(s: &[Ident], x: &Ident) -> (r: bool) ensures r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i])@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn insert_front(s: &mut String, t: &str) ensures final(s)@ == t@ + old(s)@ { unimplemented!() }
}
use vid::{shaped, xid_start, xid_continue};
'''

UNIQUE = r'''
pub open spec fn taken(ids: Seq<Ident>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < ids.len() && (#[trigger] ids[i])@ == n }
/// the name with k underscores in front
pub open spec fn under(k: nat, n: Seq<char>) -> Seq<char> decreases k { if k == 0 { n } else { seq!['_'] + under((k - 1) as nat, n) } }
pub open spec fn longest(ids: Seq<Ident>) -> nat decreases ids.len() { if ids.len() == 0 { 0 } else { let m = longest(ids.drop_last()); if ids.last()@.len() > m { ids.last()@.len() } else { m } } }
pub proof fn not_longer(ids: Seq<Ident>, n: Seq<char>) requires taken(ids, n) ensures n.len() <= longest(ids) decreases ids.len() {
    let i = choose|i: int| 0 <= i < ids.len() && (#[trigger] ids[i])@ == n;
    if i < ids.len() - 1 { assert(ids.drop_last()[i] == ids[i]); not_longer(ids.drop_last(), n); }
}
pub proof fn one_longer(k: nat, n: Seq<char>) ensures under(k, n).len() == k + n.len(), shaped(n) ==> shaped(under(k, n)) decreases k { if k > 0 { one_longer((k - 1) as nat, n); } }
pub open spec fn found(ids: Seq<Ident>, n: Seq<char>, r: Seq<char>, k: nat) -> bool { r == under(k, n) && forall|j: nat| j < k ==> taken(ids, #[trigger] under(j, n)) }
'''


def build_G09(src, probe):
    w = start(src, probe, 'G09', IDENT)
    w.raw(UNIQUE)
    w.glob_subst += [(r'\bproc_macro2::Ident\b', 'Ident'), (r'\bquote::vid::', 'vid::')]
    w.fn('unique_ident_from', C(
        req=[('G09.wanted-name-is-an-identifier', 'shaped($p0@)')],
        ens=[('G09.not-taken', '!taken($p1@, r@)'),
             ('G09.fewest-underscores', 'exists|k: nat| found($p1@, $p0@, r@, k)')],
        locals=dict(n=r'let\s+mut\s+(\w+)\s*=\s*\w+\s*\.\s*(?:to_string|to_owned)\(\)'),
        attrs='#[verifier::loop_isolation(false)]', start='let ghost wanted = $p0@; let ghost mut k: nat = 0;',
        loops=[dict(kind='loop', inv=[('G09.name-so-far', 'found($p1@, wanted, $n@, k) && shaped(wanted)')], dec='longest($p1@) + 1 - $n@.len()')],
        inserts=[(r'loop\s*\{', 'proof { reveal_strlit("_"); assert("_"@ =~= seq![\'_\']); one_longer(k, wanted); assert(found($p1@, wanted, $n@, k)); if taken($p1@, $n@) { not_longer($p1@, $n@); } }'),
                 (r'return\b[^;]*;\s*\}', 'proof { k = k + 1; }')],
        subst=[(r'\b(\w+)\.contains\(', r'vid::contains(\1, '), (r'\b(\w+)\.insert_str\(\s*0\s*,\s*', r'vid::insert_front(&mut \1, '), (r'\b(\w+)\.insert\(\s*0\s*,\s*\'(.)\'', r'vid::insert_front(&mut \1, "\2"')],
        fmt={'format_ident': lambda p, q: S.fmt_ident(p, q).replace('vq::ident(', 'vid::ident(&'), 'format': S.fmt_format}))
    return done(w)


# syn's list of what is not an identifier though shaped like one
RESERVED = """_ abstract as async await become box break const continue crate do dyn else enum extern false final fn for if impl in let loop macro match mod move mut
override priv pub ref return Self self static struct super trait true try type typeof unsafe unsized use virtual where while yield""".split()

CASES = r"""
pub mod vcase {
use vstd::prelude::*;
use super::vid::{xid_start, xid_continue};
/// heck's conversions, told apart only by what is said of them: in text whose characters may continue an identifier, or are dashes,
/// words are cut at the others and letters change case, so the result has only characters that may continue an identifier
#[derive(Clone, Copy)] pub enum VCase { Pascal, Snake }
#[verifier::external_body]
pub fn apply(k: VCase, s: &str) -> (r: String)
    requires forall|i: int| 0 <= i < s@.len() ==> xid_continue(#[trigger] s@[i]) || s@[i] == '-' || s@[i] == '_'
    ensures forall|i: int| 0 <= i < r@.len() ==> xid_continue(#[trigger] r@[i]), s@ == "x"@ ==> r@ == (if k is Pascal { "X"@ } else { "x"@ })
{ unimplemented!() }
pub uninterp spec fn cleaned<P>(s: Seq<char>, p: P, by: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn without(s: &str, c: char, by: &str) -> (r: String) ensures by@.len() == 0 ==> forall|i: int| 0 <= i < r@.len() ==> s@.contains(#[trigger] r@[i]) { unimplemented!() }
/// every character the function accepts is replaced
#[verifier::external_body]
pub fn without_if<F: Fn(char) -> bool>(s: &str, f: F, by: &str) -> (r: String)
    requires forall|c: char| #[trigger] f.requires((c,))
    ensures forall|i: int| 0 <= i < r@.len() ==> f.ensures((#[trigger] r@[i],), false) || by@.contains(r@[i])
{ unimplemented!() }
#[verifier::external_body]
pub fn first(s: &str) -> (r: Option<char>) ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r == Some(s@[0]) { unimplemented!() }
#[verifier::external_body]
pub fn start(c: char) -> (r: bool) ensures r == xid_start(c) { unimplemented!() }
#[verifier::external_body]
pub fn cont(c: char) -> (r: bool) ensures r == xid_continue(c) { unimplemented!() }
}
pub mod vsyn {
use vstd::prelude::*;
use super::vid::shaped;
pub open spec fn reserved(s: Seq<char>) -> bool { $RESERVED }
pub open spec fn ident_text(s: Seq<char>) -> bool { shaped(s) && !reserved(s) }
/// syn::parse_str::<syn::Ident>(s).is_ok(), for text without white space
#[verifier::external_body]
pub fn is_ident(s: &str) -> (r: bool) requires forall|i: int| 0 <= i < s@.len() ==> super::vid::xid_continue(#[trigger] s@[i]) ensures r == ident_text(s@) { unimplemented!() }
$LEMMAS
}
use vsyn::ident_text;
"""


def reserved():
    words = RESERVED
    t = CASES.replace('$RESERVED', ' || '.join(f's == "{x}"@' for x in words))
    # no reserved word of two or more characters ends in an underscore
    lem = 'pub proof fn suffixed(s: Seq<char>) requires s.len() > 0 ensures !reserved(s.push(\'_\')) {\n    let t = s.push(\'_\'); assert(t.last() == \'_\' && t.len() > 1);\n'
    lem += '\n'.join(f'    reveal_strlit("{x}"); ' + (f'assert("{x}"@.len() == 1);' if len(x) == 1 else f'assert("{x}"@[{len(x) - 1}] == \'{x[-1]}\' && "{x}"@.len() == {len(x)}); assert(t != "{x}"@) by {{ if t == "{x}"@ {{ assert(t[{len(x) - 1}] == \'{x[-1]}\'); }} }}') for x in words)
    lem += '\n}\n'
    for v in ('plus1', 'minus1'):
        lem += f'pub proof fn free_{v}() ensures !reserved("{v}"@) {{\n    reveal_strlit("{v}"); assert("{v}"@[{len(v) - 1}] == \'1\' && "{v}"@.len() == {len(v)});\n'
        lem += '\n'.join(f'    reveal_strlit("{x}"); ' + (f'assert("{x}"@[{len(v) - 1}] == \'{x[-1]}\');' if len(x) == len(v) else f'assert("{x}"@.len() != {len(v)});') for x in words)
        lem += '\n}\n'
    return t.replace('$LEMMAS', lem)


def build_G10(src, probe):
    w = start(src, probe, 'G10', IDENT + reserved())
    v = w.enum('Case', expect=['Pascal', 'Snake'])
    if len(v) != 2:
        raise Lost('variants of Case')
    body = src.find_fn('sanitize')
    txt = src.text[src.toks[body.body[0]].a:src.toks[body.body[1]].b]
    m = re.search(r'let\s+(\w+)\s*=\s*match\s+\w+\s*\{', txt)
    conv = m.group(1) if m else 'to_case'
    w.fn('sanitize', C(
        ens=[('G10.identifier', 'ident_text(r@)'),
             ('G10.plus-one', '$p0@ == "+1"@ ==> r@ == "plus1"@'),
             ('G10.minus-one', '$p0@ == "-1"@ ==> r@ == "minus1"@')],
        start='proof { vsyn::free_plus1(); vsyn::free_minus1(); reveal_strlit("+1"); reveal_strlit("-1"); assert("+1"@[0] != "-1"@[0]); reveal_strlit("-"); reveal_strlit(""); reveal_strlit("x"); reveal_strlit("X");'
              ' reveal_strlit("plus1"); reveal_strlit("minus1"); assert forall|s: Seq<char>| s.len() > 0 implies !vsyn::reserved(#[trigger] s.push(\'_\')) by { vsyn::suffixed(s); } }',
        closures=[dict(ptypes=['char'], ret='bool', ens='cr == !xid_continue($c0)')],
        subst=[(r'use heck::\{[^}]*\};', ''), (r'\bstr::to_pascal_case\b', 'vcase::VCase::Pascal'), (r'\bstr::to_snake_case\b', 'vcase::VCase::Snake'),
               (r'\b' + conv + r'\(', f'vcase::apply({conv}, '), (r'\bis_xid_continue\(', 'vcase::cont('), (r'\bis_xid_start\(', 'vcase::start('),
               (r'\b(\w+)\s*\.chars\(\)\s*\.next\(\)', r'vcase::first(&\1)'),
               (r'\bsyn::parse_str::<syn::Ident>\(([^()]*)\)\s*\.is_ok\(\)', r'vsyn::is_ident(\1)'),
               (r"""&(\w+)\s*\.replace\('(\\?.)', ""\)\s*\.replace\(""", r"""&vcase::without_if(&vcase::without(\1, '\2', ""), """)],
        fmt=FORMAT))
    return done(w)


MAPS = r"""
pub mod vmap {
use vstd::prelude::*;
#[verifier::external_body] #[verifier::accept_recursive_types(V)] #[verifier::reject_recursive_types(K)]
pub struct IndexMap<K, V>(core::marker::PhantomData<(K, V)>);
impl<V> View for IndexMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> IndexMap<String, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
}
}
use vmap::IndexMap;
"""

REFS = r"""
pub enum ReferenceOr<T> { Reference { reference: String }, Item(T) }
$TYPES
pub struct Components { $FIELDS }
/// what follows the last slash
pub open spec fn last_part(s: Seq<char>) -> Seq<char> { s.skip(vstr::rcut(s, '/') + 1) }
/// what a reference leads to in at most n steps: None where it names nothing
pub open spec fn leads<T>(r: ReferenceOr<T>, m: Map<Seq<char>, ReferenceOr<T>>, n: nat) -> Option<T> decreases n {
    match r {
        ReferenceOr::Item(x) => Some(x),
        ReferenceOr::Reference { reference } => if n > 0 && reference@.contains('/') && m.dom().contains(last_part(reference@)) { leads(m[last_part(reference@)], m, (n - 1) as nat) } else { None },
    }
}
pub proof fn leads_more<T>(r: ReferenceOr<T>, m: Map<Seq<char>, ReferenceOr<T>>, n: nat, k: nat) requires leads(r, m, n) is Some, k >= n ensures leads(r, m, k) == leads(r, m, n) decreases n {
    if let ReferenceOr::Reference { reference } = r { leads_more(m[last_part(reference@)], m, (n - 1) as nat, (k - 1) as nat); }
}
/// the components of the kind of T; none without a components section
pub open spec fn table<T: ComponentLookup>(c: Option<Components>) -> Map<Seq<char>, ReferenceOr<T>> { match c { Some(c) => T::comps(c), None => Map::empty() } }
pub open spec fn resolves<T: ComponentLookup>(r: ReferenceOr<T>, c: Option<Components>) -> bool { exists|n: nat| leads(r, table::<T>(c), n) is Some }
/// how many steps it takes
pub open spec fn steps<T: ComponentLookup>(r: ReferenceOr<T>, c: Option<Components>) -> nat { choose|n: nat| leads(r, table::<T>(c), n) is Some && forall|m: nat| m < n ==> leads(r, table::<T>(c), m) is None }
pub open spec fn named<T: ComponentLookup>(r: ReferenceOr<T>, c: Option<Components>) -> T { leads(r, table::<T>(c), steps(r, c))->0 }
pub proof fn fewest<T: ComponentLookup>(r: ReferenceOr<T>, c: Option<Components>, n: nat) requires leads(r, table::<T>(c), n) is Some
    ensures leads(r, table::<T>(c), steps(r, c)) is Some, forall|m: nat| m < steps(r, c) ==> leads(r, table::<T>(c), m) is None, leads(r, table::<T>(c), n) == leads(r, table::<T>(c), steps(r, c)) decreases n
{
    if forall|m: nat| m < n ==> leads(r, table::<T>(c), m) is None { assert(leads(r, table::<T>(c), n) is Some && forall|m: nat| m < n ==> leads(r, table::<T>(c), m) is None); }
    else { let m = choose|m: nat| m < n && !(leads(r, table::<T>(c), m) is None); fewest(r, c, m); }
    if n >= steps(r, c) { leads_more(r, table::<T>(c), steps(r, c), n); }
}
/// a reference and what it leads to
pub proof fn one_step<T: ComponentLookup>(r: ReferenceOr<T>, c: Option<Components>)
    requires resolves(r, c)
    ensures match r { ReferenceOr::Item(x) => named(r, c) == x, ReferenceOr::Reference { reference } => c is Some && reference@.contains('/') && table::<T>(c).dom().contains(last_part(reference@))
        && resolves(table::<T>(c)[last_part(reference@)], c) && named(r, c) == named(table::<T>(c)[last_part(reference@)], c) && steps(table::<T>(c)[last_part(reference@)], c) < steps(r, c) }
{
    let n = choose|n: nat| leads(r, table::<T>(c), n) is Some;
    fewest(r, c, n);
    let k = steps(r, c);
    if let ReferenceOr::Reference { reference } = r {
        let q = table::<T>(c)[last_part(reference@)];
        assert(k > 0);
        assert(leads(q, table::<T>(c), (k - 1) as nat) == leads(r, table::<T>(c), k));
        fewest(q, c, (k - 1) as nat);
        assert(c is Some) by { if c is None { assert(!table::<T>(c).dom().contains(last_part(reference@))); } }
        if steps(q, c) >= k { assert(leads(q, table::<T>(c), (k - 1) as nat) is None); }
    }
}
"""
KINDS = {'Parameter': 'parameters', 'RequestBody': 'request_bodies', 'Response': 'responses', 'Schema': 'schemas'}


def build_G17(src, probe):
    w = start(src, probe, 'G17', MAPS)
    w.raw(REFS.replace('$TYPES', '\n'.join(f'#[verifier::external_body] pub struct {k}(());' for k in KINDS)).replace('$FIELDS', ', '.join(f'pub {f}: IndexMap<String, ReferenceOr<{k}>>' for k, f in KINDS.items())))
    # the trait declarations are restated with their contracts; the implementations are the code's
    w.raw("""
pub trait ComponentLookup: Sized {
    spec fn comps(components: Components) -> Map<Seq<char>, ReferenceOr<Self>>;
    fn get_components(components: &Components) -> (r: &IndexMap<String, ReferenceOr<Self>>)
        ensures r@ == Self::comps(*components); /*@G17.components@*/
}
""")
    for k, f in KINDS.items():
        w.fn('get_components', C(ens=[('G17.components-of-' + k, 'r@ == Self::comps(*$p0)')]), ty=k, trait='ComponentLookup', assoc=f'open spec fn comps(components: Components) -> Map<Seq<char>, ReferenceOr<Self>> {{ components.{f}@ }}')
    # W10: an inherent-looking trait, so that the recursion stays a method call
    w.raw('''
pub trait ReferenceOrExt<T: ComponentLookup>: Sized {
    spec fn this(&self) -> ReferenceOr<T>;
    fn item<'a>(&'a self, components: &'a Option<Components>) -> (r: Result<&'a T>)
        requires resolves(self.this(), *components)
        ensures r is Ok, *(r->Ok_0) == named(self.this(), *components)
        decreases steps(self.this(), *components);
}
''')
    f = src.find_fn('item', 'ReferenceOr', 'ReferenceOrExt')
    w.glob_subst += [(r'\bopenapiv3::ReferenceOr\b', 'ReferenceOr')]
    w.fn('item', C(
        ens=[('G17.named-component', 'r matches Ok(x) && *x == named(*self, *$p0)')],
        decreases='steps(*self, *$p0)',
        start='proof { one_step(*self, *$p0); if let ReferenceOr::Reference { reference } = self { vstr::rcut_last(reference@, \'/\'); } }',
        closures=[dict(ret="&'a ReferenceOr<T>", req='false', ens='true')],
        subst=[(r'&(\w+)\[(\w+) \+ 1\s*\.\.\]', r'vstr::after(&\1, \2)')]),
        f=f, ty='ReferenceOr', assoc='open spec fn this(&self) -> ReferenceOr<T> { *self }')
    return done(w)


BUILD = {'G09': build_G09, 'G10': build_G10, 'G17': build_G17}
