"""G11, G12, G23: progenitor-impl/src/lib.rs."""
import os, re
from vp.weave import Weave, C, lower_for_each
from vp.rustlex import Src, Lost
from . import gen_stubs as S
from .gen import start, done, SLICE, FORMAT, LIB, METHOD, UTIL
from .template import lib_error, ITERS

FILES = dict(G11=LIB, G12=LIB, G23=LIB)


def load(root, prop):
    f = FILES[prop]
    text = open(os.path.join(root, f)).read()
    if prop in ('G11', 'G23'):
        text = lower_for_each(text)
    s = Src(text, f)
    s.lib = Src(open(os.path.join(root, LIB)).read(), LIB)
    return s


TRIM = r'''
pub mod vtrim {
use vstd::prelude::*;
/// Unicode's White_Space
pub uninterp spec fn white(c: char) -> bool;
pub open spec fn lead(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s[0]) { lead(s.skip(1)) } else { s } }
pub open spec fn trail(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s.last()) { trail(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trail(lead(s)) }
pub assume_specification[str::trim](s: &str) -> (r: &str) ensures r@ == trimmed(s@);
pub assume_specification[str::trim_start](s: &str) -> (r: &str) ensures r@ == lead(s@);
pub assume_specification[str::trim_end](s: &str) -> (r: &str) ensures r@ == trail(s@);
}
use vtrim::trimmed;
/// the text begins with 3.0.
pub open spec fn supported(v: Seq<char>) -> bool { v.len() >= 4 && v[0] == '3' && v[1] == '.' && v[2] == '0' && v[3] == '.' }
'''


def version_fn(w, tag):
    w.fn('validate_openapi_spec_version', C(
        ens=[(tag + '.version', 'r is Ok == supported(trimmed($p0@))'), (tag + '.version-error', 'r matches Err(e) ==> e is UnexpectedFormat')],
        start='proof { reveal_strlit("3.0."); let v = trimmed($p0@); if v.len() >= 4 { let t = v.subrange(0, 4); if supported(v) { assert(t =~= "3.0."@); } if t == "3.0."@ { assert(t[0] == v[0] && t[1] == v[1] && t[2] == v[2] && t[3] == v[3]); } } }',
        fmt=FORMAT))


def build_G12(src, probe):
    w = start(src, probe, 'G12', TRIM)
    version_fn(w, 'G12')
    return done(w)


# ---------------------------------------------------------------------------------------------
SETTINGS = r"""
pub mod vset {
use vstd::prelude::*;
use super::vstr;
use super::viter::VIter;
/// std's ToString and AsRef, of a value the caller chose: what they give is whatever that value gives
pub trait ToString { spec fn text(&self) -> Seq<char>; fn to_text(&self) -> (r: String) ensures r@ == self.text(); }
impl ToString for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_text(&self) -> (r: String) { unimplemented!() } }
impl<T: ToString + ?Sized> ToString for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } #[verifier::external_body] fn to_text(&self) -> (r: String) { unimplemented!() } }
impl ToString for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_text(&self) -> (r: String) { unimplemented!() } }
pub trait AsRef<T: ?Sized> { spec fn referred(&self) -> &T; fn as_ref(&self) -> (r: &T) ensures r == self.referred(); }
pub uninterp spec fn as_str(s: &String) -> &str;
pub broadcast axiom fn ax_as_str(s: &String) ensures (#[trigger] as_str(s))@ == s@;
impl AsRef<str> for String { open spec fn referred(&self) -> &str { as_str(self) } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl<'a> AsRef<str> for &'a str { open spec fn referred(&self) -> &str { *self } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl<'a> AsRef<str> for &'a String { open spec fn referred(&self) -> &str { as_str(*self) } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
#[verifier::external_body] pub struct TypePatch(());
#[verifier::external_body] pub struct TypeImpl(());
#[derive(Clone, Copy)] #[verifier::external_body] pub struct UnknownPolicy(());
#[verifier::external_body] pub struct CrateVers(());
#[verifier::external_body] pub struct SchemaObject(());
impl Clone for TypePatch { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for SchemaObject { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for CrateVers { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// std's maps, keyed by text
#[verifier::external_body] #[verifier::accept_recursive_types(V)] #[verifier::reject_recursive_types(K)]
pub struct HashMap<K, V>(core::marker::PhantomData<(K, V)>);
#[verifier::external_body] #[verifier::accept_recursive_types(V)] #[verifier::reject_recursive_types(K)]
pub struct BTreeMap<K, V>(core::marker::PhantomData<(K, V)>);
impl<V> View for HashMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> View for BTreeMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
/// the entries of a map, each once
pub open spec fn listing<'a, V>(s: Seq<(&'a String, &'a V)>, m: Map<Seq<char>, V>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0@ != s[j].0@) && (forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && m[s[i].0@] == *s[i].1)
    && (forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k) }
impl<V> HashMap<String, V> { #[verifier::external_body] pub fn vp_iter<'a>(&'a self) -> (r: VIter<(&'a String, &'a V)>) ensures listing(r@, self@) { unimplemented!() } }
impl<V> BTreeMap<String, V> { #[verifier::external_body] pub fn vp_iter<'a>(&'a self) -> (r: VIter<(&'a String, &'a V)>) ensures listing(r@, self@) { unimplemented!() } }
impl<V> HashMap<String, V> {
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: Seq<char>| !self@.dom().contains(k)) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
}
impl<V> HashMap<String, V> { #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() } }
impl<V> BTreeMap<String, V> {
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: Seq<char>| !self@.dom().contains(k)) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
}
impl<V> BTreeMap<String, V> { #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() } }
/// Option<&String>::cloned
#[verifier::external_body]
pub fn cloned_name(s: Option<&String>) -> (r: Option<String>) ensures super::otext(r) == super::rtext(s) { unimplemented!() }
}
use vset::{listing, ToString, AsRef, TypePatch, TypeImpl, UnknownPolicy, CrateVers, SchemaObject, HashMap, BTreeMap};
pub open spec fn otext(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn rtext(s: Option<&String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
"""

# what the generator hands to typify
TYPIFY = r"""
pub struct Given { pub type_mod: Option<Seq<char>>, pub struct_builder: bool, pub derives: Seq<Seq<char>>, pub unknown: UnknownPolicy,
    pub crates: Map<Seq<char>, (CrateVers, Option<Seq<char>>)>, pub patch: Map<Seq<char>, TypePatch>, pub replace: Map<Seq<char>, (Seq<char>, Seq<TypeImpl>)>,
    pub convert: Seq<(SchemaObject, Seq<char>, Seq<TypeImpl>)>, pub map_type: Option<Seq<char>> }
pub mod vtyp {
use vstd::prelude::*;
use super::*;
#[verifier::external_body] pub struct TypeSpaceSettings(());
impl View for TypeSpaceSettings { type V = Given; uninterp spec fn view(&self) -> Given; }
pub uninterp spec fn nothing() -> Given;
pub broadcast axiom fn ax_nothing() ensures (#[trigger] nothing()).type_mod is None, !nothing().struct_builder, nothing().derives == Seq::<Seq<char>>::empty(), nothing().crates.dom() == Set::<Seq<char>>::empty(),
    nothing().patch.dom() == Set::<Seq<char>>::empty(), nothing().replace.dom() == Set::<Seq<char>>::empty(), nothing().convert.len() == 0, nothing().map_type is None;
impl TypeSpaceSettings {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == nothing() { unimplemented!() }
$CALLS
}
#[verifier::external_body] pub struct TypeSpace(());
impl TypeSpace {
    /// what this type space was made from
    pub uninterp spec fn given(&self) -> Given;
    #[verifier::external_body] pub fn new(s: &TypeSpaceSettings) -> (r: Self) ensures r.given() == s@ { unimplemented!() }
}
#[verifier::external_body]
pub fn cloned_items(v: &Vec<TypeImpl>) -> (r: VIter<TypeImpl>) ensures r@ == v@ { unimplemented!() }
}
use vtyp::{TypeSpace, TypeSpaceSettings};
pub open spec fn spec_of(c: CrateSpec) -> (CrateVers, Option<Seq<char>>) { (c.$ver, otext(c.$ren)) }
pub open spec fn repl_of(c: (String, Vec<TypeImpl>)) -> (Seq<char>, Seq<TypeImpl>) { (c.0@, c.1@) }
pub open spec fn conv_of(c: (SchemaObject, String, Vec<TypeImpl>)) -> (SchemaObject, Seq<char>, Seq<TypeImpl>) { (c.0, c.1@, c.2@) }
/// the first entries are in the map, and nothing else
pub open spec fn holds<V, W>(s: Seq<(&String, &V)>, m: Map<Seq<char>, W>, f: spec_fn(V) -> W) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && m[s[i].0@] == f(*s[i].1)) && (forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k) }
pub proof fn holds_more<V, W>(s: Seq<(&String, &V)>, k: int, m: Map<Seq<char>, W>, f: spec_fn(V) -> W)
    requires 0 <= k < s.len(), holds(s.take(k), m, f), forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0@ != s[j].0@
    ensures holds(s.take(k + 1), m.insert(s[k].0@, f(*s[k].1)), f)
{
    let t = s.take(k + 1); let n = m.insert(s[k].0@, f(*s[k].1));
    assert forall|i: int| 0 <= i < t.len() implies n.dom().contains((#[trigger] t[i]).0@) && n[t[i].0@] == f(*t[i].1) by { if i < k { assert(s.take(k)[i] == t[i]); } }
    assert forall|x: Seq<char>| #[trigger] n.dom().contains(x) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == x by {
        if x == s[k].0@ { assert(t[k].0@ == x); } else { assert(m.dom().contains(x)); let i = choose|i: int| 0 <= i < k && (#[trigger] s.take(k)[i]).0@ == x; assert(t[i].0@ == x); } }
}
/// all of the entries make up the map
pub proof fn holds_all<V, W>(s: Seq<(&String, &V)>, src: Map<Seq<char>, V>, m: Map<Seq<char>, W>, f: spec_fn(V) -> W) requires holds(s, m, f), listing(s, src) ensures carried(src, m, f)
{
    assert forall|k: Seq<char>| m.dom().contains(k) == src.dom().contains(k) && (src.dom().contains(k) ==> m[k] == f(src[k])) by {
        if m.dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k; assert(src.dom().contains(s[i].0@)); }
        if src.dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k; assert(m.dom().contains(s[i].0@)); } }
}
pub open spec fn carried<V, W>(src: Map<Seq<char>, V>, m: Map<Seq<char>, W>, f: spec_fn(V) -> W) -> bool { forall|k: Seq<char>| m.dom().contains(k) == src.dom().contains(k) && (src.dom().contains(k) ==> #[trigger] m[k] == f(src[k])) }
impl Clone for GenerationSettings { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
"""
CALLS = {
    'with_type_mod<S: AsRef<str>>|type_mod: S': 'type_mod: Some(type_mod.referred()@)',
    'with_struct_builder|struct_builder: bool': 'struct_builder: struct_builder',
    'with_derive|derive: String': 'derives: old(self)@.derives.push(derive@)',
    'with_unknown_crates|policy: UnknownPolicy': 'unknown: policy',
    'with_crate<S1: ToString>|crate_name: S1, version: CrateVers, rename: Option<&String>': 'crates: old(self)@.crates.insert(crate_name.text(), (version, rtext(rename)))',
    'with_patch<S: AsRef<str>>|type_name: S, patch: &TypePatch': 'patch: old(self)@.patch.insert(type_name.referred()@, *patch)',
    'with_replacement<TS: ToString, RS: ToString>|type_name: TS, replace_name: RS, impls: VIter<TypeImpl>': 'replace: old(self)@.replace.insert(type_name.text(), (replace_name.text(), impls@))',
    'with_conversion<S: ToString>|schema: SchemaObject, type_name: S, impls: VIter<TypeImpl>': 'convert: old(self)@.convert.push((schema, type_name.text(), impls@))',
    'with_map_type<MT: ToString>|map_type: MT': 'map_type: Some(map_type.text())',
}
CALLS = '\n'.join('    #[verifier::external_body] pub fn %s(&mut self, %s) -> (r: &mut Self) ensures r@ == (Given { %s, ..old(self)@ }), *final(self) == *final(r) { unimplemented!() }' % (*k.split('|'), v) for k, v in CALLS.items())

# setter -> (option, kind of option, value in terms of the parameters)
SETTERS = {
    'with_interface': ('interface', 'plain', '$p0'), 'with_tag': ('tag', 'plain', '$p0'), 'with_inner_type': ('inner_type', 'some', '$p0'),
    'with_pre_hook': ('pre_hook', 'some', '$p0'), 'with_pre_hook_async': ('pre_hook_async', 'some', '$p0'),
    'with_post_hook': ('post_hook', 'some', '$p0'), 'with_post_hook_async': ('post_hook_async', 'some', '$p0'),
    'with_derive': ('extra_derives', 'list', '$p0.text()'), 'with_patch': ('patch', 'map', ('$p0.referred()@', '*$p1')),
    'with_replacement': ('replace', 'map2', ('$p0.text()', '$p1.text()', '$p2@')), 'with_conversion': ('convert', 'list3', ('$p0', '$p1.text()', '$p2@')),
    'with_unknown_crates': ('unknown_crates', 'plain', '$p0'), 'with_crate': ('crates', 'map3', ('$p0.text()', '$p1', 'rtext($p2)')),
    'with_map_type': ('map_type', 'text', '$p0.text()'),
}


def build_G11(src, probe):
    w = start(src, probe, 'G11', SETTINGS)
    w.glob_subst += [(r'\bschemars::schema::SchemaObject\b', 'SchemaObject')]
    w.glob_subst += [(r'\.to_string\(\)', '.to_text()')]
    w.enum('InterfaceStyle', attrs='#[derive(PartialEq, Eq, Structural)]')
    w.enum('TagStyle')
    w.struct('CrateSpec', {'version': 'CrateVers', 'rename': r'Option<String>'})
    ver, ren = w.names['version'], w.names['rename']
    it = src.find('struct', 'GenerationSettings')
    fields = [f for f, _ in w._fields(*it.body)]
    w.struct('GenerationSettings')
    s0, s1 = 'old(self)', 'r'
    for fn, (opt, kind, val) in SETTERS.items():
        if opt not in fields:
            raise Lost(f'option {opt}')
        frame = ' && '.join(f'{s1}.{f} == {s0}.{f}' for f in fields if f != opt)
        a, b = f'{s0}.{opt}', f'{s1}.{opt}'
        if kind == 'plain':
            e = f'{b} == {val}'
        elif kind == 'some':
            e = f'{b} == Some({val})'
        elif kind == 'text':
            e = f'otext({b}) == Some({val})'
        elif kind == 'list':
            e = f'{b}@.len() == {a}@.len() + 1 && {b}@.drop_last() == {a}@ && {b}@.last()@ == {val}'
        elif kind == 'list3':
            e = f'{b}@.len() == {a}@.len() + 1 && {b}@.drop_last() == {a}@ && {b}@.last().0 == {val[0]} && {b}@.last().1@ == {val[1]} && {b}@.last().2@ == {val[2]}'
        elif kind == 'map':
            e = f'{b}@ == {a}@.insert({val[0]}, {val[1]})'
        elif kind == 'map2':
            e = f'{b}@.dom() == {a}@.dom().insert({val[0]}) && (forall|k: Seq<char>| k != {val[0]} && {a}@.dom().contains(k) ==> #[trigger] {b}@[k] == {a}@[k]) && {b}@[{val[0]}].0@ == {val[1]} && {b}@[{val[0]}].1@ == {val[2]}'
        else:
            e = f'{b}@.dom() == {a}@.dom().insert({val[0]}) && (forall|k: Seq<char>| k != {val[0]} && {a}@.dom().contains(k) ==> #[trigger] {b}@[k] == {a}@[k]) && {b}@[{val[0]}].{ver} == {val[1]} && otext({b}@[{val[0]}].{ren}) == {val[2]}'
        w.fn(fn, C(ens=[(f'G11.{fn}-value', e), (f'G11.{fn}-others-kept', frame), (f'G11.{fn}-returns-the-settings', '*final(self) == *final(r)')],
                   gen=lambda g: re.sub(r',\s*I: Iterator<Item = TypeImpl>', '', g),
                   inserts=[],
                   subst=[(r'\b(\w+): I\b', r'\1: VIter<TypeImpl>'), (r'\brename\.cloned\(\)', 'vset::cloned_name(rename)')] + ([(r'self$', 'self')])), ty='GenerationSettings')
    # what the generator made from the settings is given
    w.raw(TYPIFY.replace('$CALLS', CALLS).replace('$ver', ver).replace('$ren', ren))
    w.struct('Generator')
    G = 'type_settings@'
    step = 'let ghost vp_k = vp_all.len() - vp_it0@.len(); proof { assert(vp_k < vp_all.len() ==> vp_it0@.len() > 0 && vp_it0@[0] == vp_all[vp_k as int]); assert(vp_it0@.len() > 0 ==> vp_it0@.skip(1) =~= vp_all.skip(vp_k + 1)); %s }'
    src_ = '$p0'
    n = '(vp_all.len() - vp_it0@.len())'

    def mloop(field, opt, f, v):
        fn = f'|c: {v}| {f}'
        return dict(kind='loop', before=f'let ghost vp_all = vp_it0@; let ghost vp_g = {G}; proof {{ assert(vp_all.skip(0) =~= vp_all); }}',
                    inv=[(f'G11.entries-of-{opt}', f'vp_it0@.len() <= vp_all.len() && vp_it0@ == vp_all.skip({n})'), (f'G11.{opt}-so-far', f'holds(vp_all.take({n}), {G}.{field}, {fn})'),
                         (f'G11.nothing-but-{opt}', f'{G} == (Given {{ {field}: {G}.{field}, ..vp_g }})')],
                    ens=[(f'G11.all-of-{opt}', 'vp_it0@.len() == 0')], dec='vp_it0@.len()',
                    body_start=step % f'if vp_it0@.len() > 0 {{ holds_more(vp_all, vp_k as int, {G}.{field}, {fn}); }}',
                    after=f'proof {{ assert(vp_all.take(vp_all.len() as int) =~= vp_all); holds_all(vp_all, {src_}.{opt}@, {G}.{field}, {fn}); }}')

    def vloop(field, opt, at):
        return dict(kind='loop', before=f'let ghost vp_all = vp_it0@; let ghost vp_g = {G}; proof {{ assert(vp_all.skip(0) =~= vp_all); }}',
                    inv=[(f'G11.entries-of-{opt}', f'vp_it0@.len() <= vp_all.len() && vp_it0@ == vp_all.skip({n})'),
                         (f'G11.{opt}-so-far', f'{G}.{field}.len() == {n} && forall|i: int| 0 <= i < {G}.{field}.len() ==> #[trigger] {G}.{field}[i] == ' + at('(*vp_all[i])')),
                         (f'G11.nothing-but-{opt}', f'{G} == (Given {{ {field}: {G}.{field}, ..vp_g }})')],
                    ens=[(f'G11.all-of-{opt}', 'vp_it0@.len() == 0')], dec='vp_it0@.len()', body_start=step % '')
    w.fn('new', C(
        ens=[('G11.kept-in-the-generator', 'r.settings == *$p0'),
             ('G11.derives-handed-on', 'r.type_space.given().derives.len() == $p0.extra_derives@.len() && forall|i: int| 0 <= i < $p0.extra_derives@.len() ==> #[trigger] r.type_space.given().derives[i] == $p0.extra_derives@[i]@'),
             ('G11.conversions-handed-on', 'r.type_space.given().convert.len() == $p0.convert@.len() && forall|i: int| 0 <= i < $p0.convert@.len() ==> #[trigger] r.type_space.given().convert[i] == conv_of($p0.convert@[i])'),
             ('G11.builder-handed-on', 'r.type_space.given().struct_builder == ($p0.interface is Builder)'),
             ('G11.unknown-crates-handed-on', 'r.type_space.given().unknown == $p0.unknown_crates'),
             ('G11.crates-handed-on', 'carried($p0.crates@, r.type_space.given().crates, |c: CrateSpec| spec_of(c))'),
             ('G11.patches-handed-on', 'carried($p0.patch@, r.type_space.given().patch, |c: TypePatch| c)'),
             ('G11.replacements-handed-on', 'carried($p0.replace@, r.type_space.given().replace, |c: (String, Vec<TypeImpl>)| repl_of(c))'),
             ('G11.map-type-handed-on', 'r.type_space.given().map_type == otext($p0.map_type)'),
             ],
        attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
        start='broadcast use vset::ax_as_str; broadcast use vtyp::ax_nothing;',
        loops=[vloop('derives', 'extra_derives', lambda x: x + '@'), mloop('crates', 'crates', 'spec_of(c)', 'CrateSpec'), mloop('patch', 'patch', 'c', 'TypePatch'),
               mloop('replace', 'replace', 'repl_of(c)', '(String, Vec<TypeImpl>)'), vloop('convert', 'convert', lambda x: f'conv_of({x})')],
        subst=[(r'\b(\w+)\.iter\(\)\.cloned\(\)', r'vtyp::cloned_items(\1)'), (r'\.iter\(\)(?=\s*;)', '.vp_iter()')]), ty='Generator')
    return done(w)


# ---------------------------------------------------------------------------------------------
DOC = r"""
pub mod vdoc {
use vstd::prelude::*;
use super::viter::VIter;
/// indexmap's map keyed by text: its entries in their order
#[verifier::external_body] #[verifier::accept_recursive_types(V)] #[verifier::reject_recursive_types(K)]
pub struct IndexMap<K, V>(core::marker::PhantomData<(K, V)>);
impl<V> IndexMap<String, V> {
    pub uninterp spec fn entries(&self) -> Seq<(String, V)>;
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VIter<(&'a String, &'a V)>) ensures r@.len() == self.entries().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.entries()[i].0 && *r@[i].1 == self.entries()[i].1 { unimplemented!() }
}
/// std's set of texts
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct HashSet<T>(core::marker::PhantomData<T>);
impl View for HashSet<String> { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl HashSet<String> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: String) -> (r: bool) ensures r == !old(self)@.contains(x@), final(self)@ == old(self)@.insert(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &str) -> (r: bool) ensures r == self@.contains(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<Seq<char>>::empty() { unimplemented!() }
}
}
use vdoc::{IndexMap, HashSet};
pub mod openapiv3 { pub use super::ReferenceOr; }
pub enum ReferenceOr<T> { Reference { reference: String }, Item(T) }
#[verifier::external_body] pub struct PathItem(());
pub struct Operation { pub operation_id: Option<String> }
impl PathItem {
    /// what openapiv3's iterator over a path item gives: its operations with their methods
    pub uninterp spec fn ops(&self) -> Seq<(String, Operation)>;
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VIter<(&'a str, &'a Operation)>) ensures r@.len() == self.ops().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).1 == self.ops()[i].1 { unimplemented!() }
}
pub struct Paths { pub paths: IndexMap<String, ReferenceOr<PathItem>> }
pub struct OpenAPI { pub openapi: String, pub paths: Paths }
pub type Entries = Seq<(String, ReferenceOr<PathItem>)>;
pub open spec fn id_of(o: Operation) -> Option<Seq<char>> { match o.operation_id { Some(s) => Some(s@), None => None } }
/// the operation identifiers of a path item, and of a document, operation by operation
pub open spec fn item_ids(p: ReferenceOr<PathItem>) -> Seq<Option<Seq<char>>> { match p { ReferenceOr::Item(p) => p.ops().map_values(|o: (String, Operation)| id_of(o.1)), ReferenceOr::Reference { .. } => Seq::empty() } }
pub open spec fn ids(e: Entries) -> Seq<Option<Seq<char>>> decreases e.len() { if e.len() == 0 { Seq::empty() } else { ids(e.drop_last()) + item_ids(e.last().1) } }
pub open spec fn inline(e: Entries) -> bool { forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).1 is Item }
pub open spec fn named(s: Seq<Option<Seq<char>>>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Some }
pub open spec fn apart(s: Seq<Option<Seq<char>>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
pub open spec fn fine(e: Entries) -> bool { inline(e) && named(ids(e)) && apart(ids(e)) }
pub open spec fn seen(s: Seq<Option<Seq<char>>>, t: Set<Seq<char>>) -> bool { (forall|i: int| 0 <= i < s.len() ==> t.contains((#[trigger] s[i])->0)) && (forall|x: Seq<char>| #[trigger] t.contains(x) ==> s.contains(Some(x))) }
pub proof fn prefix(e: Entries, k: int) requires 0 <= k <= e.len() ensures ids(e.take(k)).len() <= ids(e).len(), forall|i: int| 0 <= i < ids(e.take(k)).len() ==> #[trigger] ids(e)[i] == ids(e.take(k))[i] decreases e.len() - k {
    if k < e.len() { prefix(e, k + 1); one_more(e, k); let a = ids(e.take(k)); let b = ids(e.take(k + 1));
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] ids(e)[i] == a[i] by { assert(b[i] == a[i]); } } else { assert(e.take(k) =~= e); }
}
pub proof fn one_more(e: Entries, k: int) requires 0 <= k < e.len() ensures ids(e.take(k + 1)) == ids(e.take(k)) + item_ids(e[k].1) { assert(e.take(k + 1).drop_last() =~= e.take(k)); assert(e.take(k + 1).last() == e[k]); }
/// what was read so far: k entries, and j operations of the next
pub open spec fn upto(e: Entries, k: int, j: int) -> Seq<Option<Seq<char>>> { ids(e.take(k)) + item_ids(e[k].1).take(j) }
/// what was read so far is a part of the document
pub proof fn read(e: Entries, k: int, j: int) requires 0 <= k < e.len(), 0 <= j <= item_ids(e[k].1).len()
    ensures upto(e, k, j).len() <= ids(e).len(), forall|i: int| 0 <= i < upto(e, k, j).len() ==> #[trigger] ids(e)[i] == upto(e, k, j)[i] {
    prefix(e, k + 1); one_more(e, k);
    assert forall|i: int| 0 <= i < upto(e, k, j).len() implies #[trigger] ids(e)[i] == upto(e, k, j)[i] by { assert(ids(e.take(k + 1))[i] == upto(e, k, j)[i]); }
}
pub proof fn next_one(e: Entries, k: int, j: int) requires 0 <= k < e.len(), 0 <= j < item_ids(e[k].1).len() ensures upto(e, k, j + 1) == upto(e, k, j).push(item_ids(e[k].1)[j]) { assert(upto(e, k, j + 1) =~= upto(e, k, j).push(item_ids(e[k].1)[j])); }
/// one more identifier that was not seen keeps everything apart
pub proof fn push_new(s: Seq<Option<Seq<char>>>, t: Set<Seq<char>>, x: Seq<char>) requires named(s), apart(s), seen(s, t), !t.contains(x) ensures named(s.push(Some(x))), apart(s.push(Some(x))), seen(s.push(Some(x)), t.insert(x)) {
    let u = s.push(Some(x));
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies u[i] != u[j] by { if j == s.len() { assert(t.contains(s[i]->0)); assert(s[i] is Some); } }
    assert forall|y: Seq<char>| #[trigger] t.insert(x).contains(y) implies u.contains(Some(y)) by { if y == x { assert(u[s.len() as int] == Some(x)); } else { assert(t.contains(y)); let i = choose|i: int| 0 <= i < s.len() && s[i] == Some(y); assert(u[i] == Some(y)); } }
}
/// a part with a fault is a fault of the whole
pub proof fn fault(e: Entries, s: Seq<Option<Seq<char>>>) requires s.len() <= ids(e).len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] ids(e)[i] == s[i], !named(s) || !apart(s) ensures !fine(e) {
    if !named(s) { let i = choose|i: int| 0 <= i < s.len() && !(#[trigger] s[i] is Some); assert(ids(e)[i] == s[i]); }
    else { let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && s[i] == s[j]; assert(ids(e)[i] == ids(e)[j]); }
}
"""


def build_G23(src, probe):
    w = start(src, probe, 'G23', TRIM + DOC)
    version_fn(w, 'G23')
    E = '$p0.paths.paths.entries()'
    k = f'({E}.len() - vp_it0@.len())'
    rest = lambda it, all_, n: f'0 <= {n}'
    same = f'vp_it0@.len() <= {E}.len() && forall|i: int| 0 <= i < vp_it0@.len() ==> *(#[trigger] vp_it0@[i]).0 == {E}[{k} + i].0 && *vp_it0@[i].1 == {E}[{k} + i].1'
    same1 = 'vp_it1@.len() <= item.ops().len() && forall|i: int| 0 <= i < vp_it1@.len() ==> *(#[trigger] vp_it1@[i]).1 == item.ops()[item.ops().len() - vp_it1@.len() + i].1'
    j = '(item.ops().len() - vp_it1@.len())'
    w.fn('validate_openapi', C(
        ens=[('G23.accepted', f'r is Ok == (supported(trimmed($p0.openapi@)) && fine({E}))')],
        attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
        locals=dict(seen=r'let\s+mut\s+(\w+)\s*=\s*HashSet::new', item=r'ReferenceOr::Item\(\s*(\w+)\s*\)'),
        loops=[
            dict(kind='loop', before=f'proof {{ assert({E}.take(0) =~= Seq::empty()); }}',
                 inv_except_break=[('G23.no-error-yet', 'vp_r0 is Ok')],
                 inv=[('G23.entries', same), ('G23.outcome', f'vp_r0 is Err ==> !fine({E})'),
                      ('G23.read-so-far', f'vp_r0 is Ok ==> fine({E}.take({k})) && seen(ids({E}.take({k})), $seen@)')],
                 ens=[('G23.end', 'vp_r0 is Ok ==> vp_it0@.len() == 0')],
                 dec='vp_it0@.len()',
                 body_start=f'let ghost vp_k = {k}; proof {{ if vp_it0@.len() > 0 {{ assert(*vp_it0@[0].1 == {E}[vp_k].1); one_more({E}, vp_k); assert(ids({E}.take(vp_k)) + item_ids({E}[vp_k].1).take(0) =~= ids({E}.take(vp_k))); '
                            f'assert({E}.take(vp_k + 1).drop_last() =~= {E}.take(vp_k)); if {E}[vp_k].1 is Reference {{ assert(!inline({E})); }} }} else {{ assert({E}.take(vp_k) =~= {E}); }} }}'),
            dict(kind='loop', before=(f'proof {{ assert(upto({E}, vp_k, 0) =~= ids({E}.take(vp_k))); assert(upto({E}, vp_k, item.ops().len() as int) =~= ids({E}.take(vp_k + 1))); }}').replace('item.', '$item.'),
                 inv_except_break=[('G23.no-error-here', 'vp_r1 is Ok')],
                 inv=[('G23.operations', same1.replace('item.', '$item.')), ('G23.outcome-here', f'vp_r1 is Err ==> !fine({E})'),
                      ('G23.read-here', (f'vp_r1 is Ok ==> named(upto({E}, vp_k, {j})) && apart(upto({E}, vp_k, {j})) && seen(upto({E}, vp_k, {j}), $seen@)').replace('item.', '$item.'))],
                 ens=[('G23.end-of-item', 'vp_r1 is Ok ==> vp_it1@.len() == 0')],
                 dec='vp_it1@.len()',
                 body_start=(f'let ghost vp_j = {j}; let ghost vp_s = $seen@; proof {{ read({E}, vp_k, vp_j); if vp_it1@.len() > 0 {{ assert(*vp_it1@[0].1 == item.ops()[vp_j].1); assert(item_ids({E}[vp_k].1)[vp_j] == id_of(item.ops()[vp_j].1)); next_one({E}, vp_k, vp_j); read({E}, vp_k, vp_j + 1); '
                             f'match id_of(item.ops()[vp_j].1) {{ None => {{ assert(upto({E}, vp_k, vp_j + 1)[upto({E}, vp_k, vp_j).len() as int] is None); fault({E}, upto({E}, vp_k, vp_j + 1)); }} Some(x) => '
                             f'if vp_s.contains(x) {{ let u = upto({E}, vp_k, vp_j); let n = choose|n: int| 0 <= n < u.len() && u[n] == Some(x); assert(upto({E}, vp_k, vp_j + 1)[n] == upto({E}, vp_k, vp_j + 1)[u.len() as int]); assert(!apart(upto({E}, vp_k, vp_j + 1))); fault({E}, upto({E}, vp_k, vp_j + 1)); }} '
                             f'else {{ push_new(upto({E}, vp_k, vp_j), vp_s, x); }} }} }} }}').replace('item.', '$item.')),
        ],
        fmt=FORMAT))
    return done(w)


BUILD = {'G11': build_G11, 'G12': build_G12, 'G23': build_G23}
