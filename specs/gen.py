"""G06, G07, G13, G14: small functions of progenitor-impl/src/method.rs."""
import os, re
from vp.weave import Weave, C
from vp.rustlex import Src, Lost
from . import gen_stubs as S
from .template import lib_error, ITERS, EXPECT

METHOD = 'progenitor-impl/src/method.rs'
LIB = 'progenitor-impl/src/lib.rs'
UTIL = 'progenitor-impl/src/util.rs'
FILES = dict(G06=METHOD, G07=METHOD, G08=METHOD, G13=METHOD, G14=METHOD, G18=METHOD)


def load(root, prop):
    f = FILES[prop]
    s = Src(open(os.path.join(root, f)).read(), f)
    s.lib = Src(open(os.path.join(root, LIB)).read(), LIB)
    return s


def start(src, probe, prop, extra=''):
    w = Weave(src, prop)
    w.probe = probe
    t = S.STR + S.ITER + S.QUOTE + extra
    groups = ['vstr::group_str'] + [g for g in ('vord::group_ord', 'vid::group_xid', 'vmap::group_map') if 'group ' + g.split('::')[1] in t]
    t = t.replace('broadcast use vstr::group_str;', 'broadcast use {%s};' % ', '.join(groups))
    w.raw(S.HEAD + 'use std::cmp::Ordering;\n' + t)
    lib_error(w, src)
    return w


def done(w):
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


# ---------------------------------------------------------------------------------------------
METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'trace']

FORMAT = {'format': S.fmt_format}


def build_G06(src, probe):
    w = start(src, probe, 'G06')
    v = w.enum('HttpMethod', expect=[m.capitalize() for m in METHODS])
    if len(v) != len(METHODS):
        raise Lost('variants of HttpMethod')
    w.raw('pub open spec fn name(m: HttpMethod) -> Seq<char> { match m { ' +
          ', '.join(f'HttpMethod::{m.capitalize()} => "{m}"@' for m in METHODS) + ' } }\n')
    w.raw('pub proof fn names() ensures ' + ', '.join(f'"{a}"@ != "{b}"@' for i, a in enumerate(METHODS) for b in METHODS[i + 1:]) + ' {\n' +
          '\n'.join(f'    reveal_strlit("{m}");' for m in METHODS) + '\n' +
          '\n'.join(f'    assert("{a}"@.len() != "{b}"@.len() || "{a}"@[0] != "{b}"@[0] || "{a}"@[1] != "{b}"@[1]);' for i, a in enumerate(METHODS) for b in METHODS[i + 1:]) + '\n}\n')
    w.fn('from_str', C(
        ens=[('G06.accepted-name', 'r matches Ok(m) ==> name(m) == $p0@'),
             ('G06.rejected-name', 'r is Err ==> forall|m: HttpMethod| #[trigger] name(m) != $p0@')],
        start='proof { names(); }', fmt=FORMAT), ty='HttpMethod', trait='FromStr', as_inherent=True)
    w.fn('as_str', C(ens=[('G06.printed-name', 'r@ == name(*self)')], subst=[]), ty='HttpMethod')
    w.raw(r'''
/// the property itself, from the two contracts
pub fn there_and_back(m: &HttpMethod, s: &str) {
    proof { names(); }
    match HttpMethod::from_str(m.as_str()) {
        Ok(n) => { assert(n == *m); /*@G06.round-trip@*/ }
        Err(_) => { assert(name(*m) == name(*m)); assert(false); /*@G06.printed-name-parses@*/ }
    }
    if let Ok(n) = HttpMethod::from_str(s) { let t = n.as_str(); assert(t@ == s@); /*@G06.same-text@*/ }
}
''')
    return done(w)


# ---------------------------------------------------------------------------------------------
STATUS = r'''
/// where a status stands, as the document orders them: a number and then, for a range, after every code of its hundred
pub open spec fn class(s: $S) -> (int, int) {
    match s { $S::Code(c) => (c as int / 100, c as int % 100), $S::Range(r) => (r as int, 100), $S::Default => (10, 0) }
}
pub open spec fn in_range(s: $S) -> bool { match s { $S::Code(c) => c < 1000, $S::Range(r) => r < 10, $S::Default => true } }
pub open spec fn before(a: $S, b: $S) -> bool { class(a).0 < class(b).0 || class(a).0 == class(b).0 && class(a).1 < class(b).1 }
pub open spec fn order(a: $S, b: $S) -> Ordering { if before(a, b) { Ordering::Less } else if before(b, a) { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn success(s: $S) -> bool { match s { $S::Code(c) => c == 101 || 200 <= c < 300, $S::Range(r) => r == 2, $S::Default => true } }
pub open spec fn failure(s: $S) -> bool { match s { $S::Code(c) => 400 <= c < 600, $S::Range(r) => r == 4 || r == 5, $S::Default => true } }
/// the order is total, and only equal statuses compare equal
pub proof fn order_total(a: $S, b: $S, c: $S)
    requires in_range(a), in_range(b), in_range(c)
    ensures order(a, b) is Equal <==> a == b, order(a, b) is Less <==> order(b, a) is Greater,
        !(order(a, b) is Greater) && !(order(b, c) is Greater) ==> !(order(a, c) is Greater), order(a, b) is Less && order(b, c) is Less ==> order(a, c) is Less,
        !(a is Default) ==> order(a, $S::Default) is Less
{
    if let $S::Code(x) = a { if let $S::Code(y) = b { assert(x as int == 100 * (x as int / 100) + x as int % 100); assert(y as int == 100 * (y as int / 100) + y as int % 100); } }
}
pub open spec fn doubled(s: $S) -> int { match s { $S::Default => 2000, $S::Range(r) => (r * 100 + 99) * 2 + 1, $S::Code(c) => c * 2 } }
'''

def status(w):
    S_ = 'OperationResponseStatus'
    v = w.enum(S_, expect=['Code', 'Range', 'Default'])
    if len(v) != 3 or [re.sub(r'\s', '', str(v[k])) for k in ('Code', 'Range')] != ['u16', 'u16']:
        raise Lost('variants of ' + S_)
    w.raw(STATUS.replace('$S', S_))


def sort_key(w, src, ty):
    """the sort key as a specification function: the body of to_value itself, its assertions dropped"""
    f = src.find_fn('to_value', ty)
    body = src.text[src.toks[f.body[0]].a:src.toks[f.body[1]].b]
    body = re.sub(r'(debug_)?assert!\((?:[^()]|\([^()]*\))*\);', '', re.sub(r'//[^\n]*', '', body))
    w.raw('impl ' + ty + ' { pub open spec fn sort_key(&self) -> int ' + body + ' }\n')
    w.raw(KEY.replace('$S', ty))


KEY = r"""
pub broadcast proof fn key_order(a: $S, b: $S) requires in_range(a), in_range(b)
    ensures
        #![trigger a.sort_key(), b.sort_key()]
        (a.sort_key() < b.sort_key()) == before(a, b), /*@key-follows-the-order@*/
{
    if let $S::Code(x) = a { assert(x as int == 100 * (x as int / 100) + x as int % 100); }
    if let $S::Code(x) = b { assert(x as int == 100 * (x as int / 100) + x as int % 100); }
}
"""
FAILURES = [(r'\b(?:debug_)?assert!\(', 'assert!(')]


def status_cmp(w, src, tag, prelude=''):
    ty = 'OperationResponseStatus'
    sort_key(w, src, ty)
    w.fn('to_value', C(req=[(tag + '.valid-status', 'in_range(*self)')], ens=[(tag + '.sort-key', 'r as int == self.sort_key()')]), ty=ty)
    w.fn('cmp', C(req=[(tag + '.valid-status', 'in_range(*self)'), (tag + '.valid-other', 'in_range(*$p0)')],
                  ens=[(tag + '.order', 'r == order(*self, *$p0)')], start='broadcast use key_order;'),
         ty=ty, trait='Ord', as_inherent=True)


def classes(w, tag):
    ty = 'OperationResponseStatus'
    w.fn('is_success_or_default', C(ens=[(tag + '.success', 'r == success(*self)')]), ty=ty)
    w.fn('is_error_or_default', C(ens=[(tag + '.error', 'r == failure(*self)')]), ty=ty)
    w.fn('is_default', C(ens=[(tag + '.default', 'r == (*self is Default)')]), ty=ty)


def build_G07(src, probe):
    w = start(src, probe, 'G07')
    ty = 'OperationResponseStatus'
    status(w)
    status_cmp(w, src, 'G07')
    classes(w, 'G07')
    w.fn('partial_cmp', C(req=[('G07.valid-status', 'in_range(*self)'), ('G07.valid-other', 'in_range(*$p0)')],
                          ens=[('G07.partial-order', 'r == Some(order(*self, *$p0))')]), ty=ty, trait='PartialOrd', as_inherent=True)
    # responses compare by their status
    w.enum('OperationResponseKind', expect=['Type', 'None', 'Raw', 'Upgrade'])
    w.raw('#[verifier::external_body] pub struct TypeId(());\n')
    w.struct('OperationResponse', {'status': 'OperationResponseStatus'})
    st = w.names['status']
    rq = [('G07.valid-status', f'in_range(self.{st})'), ('G07.valid-other', f'in_range($p0.{st})')]
    w.raw("impl PartialEq for OperationResponseStatus { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }\n"
          "impl vstd::std_specs::cmp::PartialEqSpecImpl for OperationResponseStatus { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }\n")
    w.fn('eq', C(req=rq, ens=[('G07.response-equality', f'r == (self.{st} == $p0.{st})')]), ty='OperationResponse', trait='PartialEq', as_inherent=True)
    w.fn('cmp', C(req=rq, ens=[('G07.response-order', f'r == order(self.{st}, $p0.{st})')]), ty='OperationResponse', trait='Ord', as_inherent=True)
    w.fn('partial_cmp', C(req=rq, ens=[('G07.response-partial-order', f'r == Some(order(self.{st}, $p0.{st}))')]), ty='OperationResponse', trait='PartialOrd', as_inherent=True)
    return done(w)



KINDS = {'OctetStream': 'application/octet-stream', 'Json': 'application/json', 'FormUrlencoded': 'application/x-www-form-urlencoded'}
TEXTS = ['text/plain', 'text/x-markdown']
SLICE = [(r'\b(\w+)\.len\(\)', r'vstr::len(\1)'), (r'&(\w+)\[\.\.\s*(\w+)\]', r'vstr::upto(\1, \2)'), (r'&(\w+)\[(\w+)\s*\.\.\]', r'vstr::from(\1, \2)')]


def build_G13(src, probe):
    w = start(src, probe, 'G13', S.FMT)
    v = w.enum('BodyContentType', expect=list(KINDS) + ['Text'])
    if len(v) != 4 or re.sub(r'\s', '', str(v['Text'])) != 'String':
        raise Lost('variants of BodyContentType')
    ty = 'BodyContentType'
    w.raw(S.distinct('kinds_differ', list(KINDS.values()) + TEXTS))
    w.raw('pub open spec fn printed(k: BodyContentType) -> Seq<char> { match k { ' + ', '.join(f'{ty}::{a} => "{b}"@' for a, b in KINDS.items()) + f', {ty}::Text(t) => t@ }} }}\n'
          'pub open spec fn is_text(t: Seq<char>) -> bool { ' + ' || '.join(f't == "{t}"@' for t in TEXTS) + ' }\n'
          'pub open spec fn recognised(t: Seq<char>) -> bool { ' + ' || '.join(f't == "{t}"@' for t in KINDS.values()) + ' || is_text(t) }\n')
    w.fn('from_str', C(ens=[('G13.recognised', "r is Ok == recognised(vstr::head($p0@, ';'))"),
                            ('G13.kind', "r matches Ok(k) ==> printed(k) == vstr::head($p0@, ';') && (k is Text == is_text(vstr::head($p0@, ';')))")],
                       start="proof { kinds_differ(); vstr::cut_first($p0@, ';'); if !$p0@.contains(';') { assert($p0@.take($p0@.len() as int) =~= $p0@); } assert forall|o: int, n: int, m: int| #[trigger] vstr::at($p0@, o, n) && #[trigger] vstr::at($p0@, o, m) implies n == m by { vstr::at_unique($p0@, o, n, m); } }",
                       subst=SLICE, fmt=FORMAT), ty=ty, trait='FromStr', as_inherent=True)
    w.glob_subst += [(r'\bstd::fmt::', 'vfmt::')]
    w.fn('fmt', C(ens=[('G13.printed', 'r is Ok ==> final($p0).out() == old($p0).out() + printed(*self)')]), ty=ty, trait='Display', as_inherent=True)
    return done(w)


def build_G14(src, probe):
    w = start(src, probe, 'G14')
    w.enum('BodyContentType')
    v = w.enum('OperationParameterKind', expect=['Path', 'Query', 'Header', 'Body'])
    if len(v) != 4 or [re.sub(r'\s', '', str(v[k])) for k in ('Query', 'Header')] != ['bool', 'bool']:
        raise Lost('variants of OperationParameterKind')
    ty = 'OperationParameterKind'
    w.raw('pub open spec fn required(k: OperationParameterKind) -> bool { match k { OperationParameterKind::Query(q) => q, OperationParameterKind::Header(q) => q, _ => true } }\n')
    w.fn('is_required', C(ens=[('G14.required', 'r == required(*self)')]), ty=ty)
    w.fn('is_optional', C(ens=[('G14.optional', 'r == !required(*self)')]), ty=ty)
    return done(w)


SORTS = [(r'\.(?:sort_by|sort_unstable_by)\(', '.vp_sort_by(')]
SORTED = r'''
pub open spec fn rank(k: OperationParameterKind) -> int { match k { OperationParameterKind::Path => 0, OperationParameterKind::Query(_) => 1, OperationParameterKind::Header(_) => 2, OperationParameterKind::Body(_) => 3 } }
/// where a name stands in the path
pub open spec fn place(names: Seq<String>, n: Seq<char>) -> int decreases names.len() { if names.len() == 0 || names[0]@ == n { 0 } else { 1 + place(names.skip(1), n) } }
pub broadcast proof fn place_first(names: Seq<String>, n: Seq<char>, i: int)
    requires 0 <= i < names.len(), (#[trigger] names[i])@ == n, forall|j: int| 0 <= j < i ==> (#[trigger] names[j])@ != n ensures #[trigger] place(names, n) == i decreases i
{ if i > 0 { let t = names.skip(1); assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] t[j])@ != n by { assert(t[j] == names[j + 1]); } assert(names[0]@ != n); place_first(t, n, i - 1); } }
pub open spec fn named(names: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < names.len() && (#[trigger] names[i])@ == n }
/// the order arguments are given in
pub open spec fn pcmp(a: OperationParameter, b: OperationParameter, names: Seq<String>) -> Ordering {
    if rank(a.$kind) != rank(b.$kind) { ncmp(rank(a.$kind), rank(b.$kind)) }
    else if a.$kind is Path { ncmp(place(names, a.$name@), place(names, b.$name@)) }
    else if a.$kind is Body { Ordering::Equal }
    else { lex(a.$name@, b.$name@) }
}
pub proof fn pcmp_order(a: OperationParameter, b: OperationParameter, c: OperationParameter, names: Seq<String>)
    ensures pcmp(b, a, names) == flip(pcmp(a, b, names)), !(pcmp(a, b, names) is Greater) && !(pcmp(b, c, names) is Greater) ==> !(pcmp(a, c, names) is Greater)
{ lex_flip(a.$name@, b.$name@); lex_trans(a.$name@, b.$name@, c.$name@); }
pub open spec fn sortable(s: Seq<OperationParameter>, names: Seq<String>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).$kind is Path ==> named(names, s[i].$name@)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> !((#[trigger] s[i]).$kind is Body && (#[trigger] s[j]).$kind is Body)
}
'''


def build_G08(src, probe):
    w = start(src, probe, 'G08', S.ORDER)
    w.enum('BodyContentType')
    v = w.enum('OperationParameterKind', expect=['Path', 'Query', 'Header', 'Body'])
    if len(v) != 4:
        raise Lost('variants of OperationParameterKind')
    w.raw('#[verifier::external_body] pub struct TypeId(());\n')
    w.enum('OperationParameterType')
    w.struct('OperationParameter', {'kind': 'OperationParameterKind', 'name': 'api_name'})
    kind, name = w.names['kind'], w.names['name']
    w.raw(SORTED.replace('$kind', kind).replace('$name', name))
    w.raw("impl VSort<OperationParameter> for [OperationParameter] { open spec fn items(&self) -> Seq<OperationParameter> { self@ } #[verifier::external_body] fn vp_sort_by<F: Fn(&OperationParameter, &OperationParameter) -> Ordering>(&mut self, f: F) { unimplemented!() } }\n")
    pos = dict(ptypes=['&String'], ret='bool')
    w.fn('sort_params', C(
        req=[('G08.paths-named-one-body', 'sortable(old($p0)@, $p1@)')],
        ens=[('G08.same-parameters', 'final($p0)@.to_multiset() == old($p0)@.to_multiset()'),
             ('G08.sorted', 'forall|i: int, j: int| 0 <= i < j < final($p0)@.len() ==> !(pcmp(final($p0)@[i], final($p0)@[j], $p1@) is Greater)')],
        closures=[dict(ptypes=['&OperationParameter', '&OperationParameter'], ret='Ordering',
                       req=f'($c0.{kind} is Path ==> named($p1@, $c0.{name}@)) && ($c1.{kind} is Path ==> named($p1@, $c1.{name}@)) && !($c0.{kind} is Body && $c1.{kind} is Body)',
                       ens='cr == pcmp(*$c0, *$c1, $p1@)'),
                  dict(pos, ens='cr == ($c0@ == a_name@)'), dict(ret='usize', req='false', ens='true'),
                  dict(pos, ens='cr == ($c0@ == b_name@)'), dict(ret='usize', req='false', ens='true')],
        start='broadcast use place_first; proof { assert forall|a: OperationParameter, b: OperationParameter, c: OperationParameter| #![trigger pcmp(a, b, $p1@), pcmp(b, c, $p1@)] pcmp(b, a, $p1@) == flip(pcmp(a, b, $p1@)) && (!(pcmp(a, b, $p1@) is Greater) && !(pcmp(b, c, $p1@) is Greater) ==> !(pcmp(a, c, $p1@) is Greater)) by { pcmp_order(a, b, c, $p1@); } }',
        subst=ITERS + SORTS))
    return done(w)


ARMS = r'''
impl Clone for OperationResponseKind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> VSort<&'a OperationResponse> for Vec<&'a OperationResponse> { open spec fn items(&self) -> Seq<&'a OperationResponse> { self@ } #[verifier::external_body] fn vp_sort_by<F: Fn(&&'a OperationResponse, &&'a OperationResponse) -> Ordering>(&mut self, f: F) { unimplemented!() } }
pub open spec fn sorted(s: Seq<&OperationResponse>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !(order(s[i].$status, s[j].$status) is Greater) }
/// the default goes when the 2XX range stands right before it
pub open spec fn dropped(s: Seq<&OperationResponse>) -> Seq<&OperationResponse> {
    if s.len() >= 2 && s[s.len() - 2].$status == OperationResponseStatus::Range(2) && s[s.len() - 1].$status is Default { s.drop_last() } else { s }
}
/// the filter's answers, one per documented response, in order
pub open spec fn answers<F: Fn(&OperationResponseStatus) -> bool>(all: Seq<OperationResponse>, f: F, a: Seq<bool>) -> bool {
    a.len() == all.len() && forall|i: int| 0 <= i < all.len() ==> f.ensures((&(#[trigger] all[i]).$status,), a[i])
}
/// what extract_responses gives: the chosen responses sorted, the default dropped next to 2XX, and their common kind
pub open spec fn arms_of(all: Seq<OperationResponse>, a: Seq<bool>, full: Seq<&OperationResponse>, arms: Seq<&OperationResponse>) -> bool {
    sorted(full) && full.to_multiset() == keep(srefs(all), a).to_multiset() && arms == dropped(full)
}
pub proof fn same_members(a: Seq<&OperationResponse>, b: Seq<&OperationResponse>, x: &OperationResponse)
    requires a.to_multiset() == b.to_multiset() ensures a.contains(x) == b.contains(x), a.len() == b.len()
{ a.to_multiset_ensures(); b.to_multiset_ensures(); assert(a.contains(x) <==> a.to_multiset().count(x) > 0); assert(b.contains(x) <==> b.to_multiset().count(x) > 0); }
'''

CLASSES = r'''
/// at most one response has this status
pub open spec fn once(all: Seq<OperationResponse>, s: OperationResponseStatus) -> bool { forall|i: int, j: int| 0 <= i < all.len() && 0 <= j < all.len() && (#[trigger] all[i]).$status == s && (#[trigger] all[j]).$status == s ==> i == j }
pub open spec fn documented(all: Seq<OperationResponse>, s: OperationResponseStatus) -> bool { exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).$status == s }
/// what the arms of a class must be
pub open spec fn class_arms(all: Seq<OperationResponse>, arms: Seq<&OperationResponse>, member: spec_fn(OperationResponseStatus) -> bool, no_default: bool) -> bool {
    &&& sorted(arms)
    &&& forall|i: int| 0 <= i < arms.len() ==> member((#[trigger] arms[i]).$status) && srefs(all).contains(arms[i]) && !(no_default && arms[i].$status is Default)
    &&& forall|i: int| 0 <= i < all.len() && member((#[trigger] all[i]).$status) ==> arms.contains(&all[i]) || no_default && all[i].$status is Default
}
pub proof fn arms_are(all: Seq<OperationResponse>, a: Seq<bool>, full: Seq<&OperationResponse>, arms: Seq<&OperationResponse>, member: spec_fn(OperationResponseStatus) -> bool, nd: bool)
    requires arms_of(all, a, full, arms), a.len() == all.len(), forall|i: int| 0 <= i < all.len() ==> a[i] == member((#[trigger] all[i]).$status), forall|i: int| 0 <= i < all.len() ==> in_range((#[trigger] all[i]).$status),
        once(all, OperationResponseStatus::Default), once(all, OperationResponseStatus::Range(2)),
        forall|s: OperationResponseStatus| in_range(s) && #[trigger] member(s) && member(OperationResponseStatus::Range(2)) && !(s is Default) ==> !(order(s, OperationResponseStatus::Range(2)) is Greater),
        nd == (member(OperationResponseStatus::Range(2)) && documented(all, OperationResponseStatus::Range(2)))
    ensures class_arms(all, arms, member, nd)
{
    broadcast use {keep_from, keep_all};
    let sel = keep(srefs(all), a);
    let n = full.len() as int;
    assert forall|i: int| 0 <= i < n implies member((#[trigger] full[i]).$status) && srefs(all).contains(full[i]) && in_range(full[i].$status) by {
        assert(full.contains(full[i])); same_members(full, sel, full[i]);
        let j = choose|j: int| 0 <= j < sel.len() && sel[j] == full[i]; assert(chosen(srefs(all), a, sel[j]));
        let k = choose|k: int| 0 <= k < srefs(all).len() && a[k] && #[trigger] srefs(all)[k] == sel[j]; assert(all[k] == *full[i]);
    }
    assert forall|i: int| 0 <= i < all.len() && member((#[trigger] all[i]).$status) implies full.contains(&all[i]) by { assert(srefs(all)[i] == &all[i]); assert(sel.contains(&all[i])); same_members(full, sel, &all[i]); }
    // the default and the range each stand at most once in the sorted list
    assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n && full[p].$status == full[q].$status && (full[p].$status is Default || full[p].$status == OperationResponseStatus::Range(2)) implies p == q by {
        let x = full[p]; let y = full[q];
        let i = choose|i: int| 0 <= i < srefs(all).len() && #[trigger] srefs(all)[i] == x; let j = choose|j: int| 0 <= j < srefs(all).len() && #[trigger] srefs(all)[j] == y;
        assert(all[i] == *x && all[j] == *y); assert(i == j);
        full.to_multiset_ensures(); sel.to_multiset_ensures();
        keep_count(srefs(all), a, x, i);
        if p != q { twice(full, x, p, q); }
    }
    if n >= 2 && full[n - 2].$status == OperationResponseStatus::Range(2) && full[n - 1].$status is Default {
        assert(srefs(all).contains(full[n - 2]));
        let k = choose|k: int| 0 <= k < srefs(all).len() && #[trigger] srefs(all)[k] == full[n - 2]; assert(all[k].$status == OperationResponseStatus::Range(2));
        assert(nd);
        assert forall|i: int| 0 <= i < all.len() && member((#[trigger] all[i]).$status) implies arms.contains(&all[i]) || all[i].$status is Default by {
            let j = choose|j: int| 0 <= j < n && full[j] == &all[i]; if j < n - 1 { assert(arms[j] == full[j]); }
        }
        assert forall|i: int| 0 <= i < arms.len() implies !((#[trigger] arms[i]).$status is Default) by { assert(arms[i] == full[i]); }
    } else if nd {
        let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).$status == OperationResponseStatus::Range(2);
        assert(full.contains(&all[i])); let p = choose|p: int| 0 <= p < n && full[p] == &all[i];
        assert forall|q: int| 0 <= q < n implies !((#[trigger] full[q]).$status is Default) by {
            if full[q].$status is Default {
                if q < n - 1 { assert(!(order(full[q].$status, full[n - 1].$status) is Greater)); assert(full[n - 1].$status is Default); }
                assert(q == n - 1);
                if p > q { assert(!(order(full[q].$status, full[p].$status) is Greater)); }
                if p < n - 2 { assert(!(order(full[p].$status, full[n - 2].$status) is Greater)); assert(member(full[n - 2].$status)); order_total(full[n - 2].$status, full[p].$status, full[p].$status); order_total(full[p].$status, full[n - 2].$status, full[p].$status); assert(false); }
            }
        }
    }
}
pub proof fn twice(s: Seq<&OperationResponse>, x: &OperationResponse, p: int, q: int) requires 0 <= p < s.len(), 0 <= q < s.len(), p != q, s[p] == x, s[q] == x ensures s.to_multiset().count(x) >= 2 {
    let t = s.remove(p);
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert(t[if q < p { q } else { q - 1 }] == x); assert(t.contains(x)); assert(s.contains(x)); vstd::seq_lib::to_multiset_remove(s, p); assert(t.to_multiset().count(x) > 0);
}
pub proof fn keep_count(s: Seq<&OperationResponse>, a: Seq<bool>, x: &OperationResponse, i: int)
    requires a.len() >= s.len(), 0 <= i < s.len(), forall|j: int| 0 <= j < s.len() && s[j] == x ==> j == i ensures keep(s, a).to_multiset().count(x) <= 1
{
    if keep(s, a).to_multiset().count(x) >= 2 { keep_none(s, a, x, i, s.len() as int); }
}
proof fn keep_none(s: Seq<&OperationResponse>, a: Seq<bool>, x: &OperationResponse, i: int, n: int)
    requires a.len() >= s.len(), 0 <= n <= s.len(), 0 <= i, forall|j: int| 0 <= j < s.len() && s[j] == x ==> j == i ensures keep(s.take(n), a).to_multiset().count(x) <= (if i < n { 1int } else { 0 }), keep(s.take(s.len() as int), a) == keep(s, a) decreases n
{
    assert(s.take(s.len() as int) =~= s);
    if n > 0 {
        keep_none(s, a, x, i, n - 1);
        let t = keep(s.take(n - 1), a);
        assert(s.take(n).drop_last() =~= s.take(n - 1)); assert(s.take(n).last() == s[n - 1]);
        t.to_multiset_ensures(); assert(t.push(s[n - 1]).to_multiset() =~= t.to_multiset().insert(s[n - 1]));
    } else { assert(s.take(0) =~= Seq::empty()); assert(keep(s.take(0), a) =~= Seq::empty()); Seq::<&OperationResponse>::empty().to_multiset_ensures(); assert(Seq::<&OperationResponse>::empty().to_multiset().len() == 0); }
}
/// the arms of the two classes, from the contract of extract_responses alone
pub fn success_arms<'a>(g: &Generator, m: &'a OperationMethod) -> (r: (Vec<&'a OperationResponse>, OperationResponseKind))
    requires valid(m.$responses@), agree(m.$responses@, |s: OperationResponseStatus| success(s), documented(m.$responses@, OperationResponseStatus::Range(2)))
    ensures class_arms(m.$responses@, r.0@, |s: OperationResponseStatus| success(s), documented(m.$responses@, OperationResponseStatus::Range(2))), /*@G18.success-arms@*/
        forall|i: int| 0 <= i < r.0@.len() ==> (#[trigger] r.0@[i]).$typ == r.1, /*@G18.success-type@*/
{
    let ghost f = |s: OperationResponseStatus| success(s);
    let ghost nd = documented(m.$responses@, OperationResponseStatus::Range(2));
    let c = |s: &OperationResponseStatus| -> (cr: bool) ensures cr == success(*s) { s.is_success_or_default() };
    proof { assert forall|a: Seq<bool>, full: Seq<&OperationResponse>, arms: Seq<&OperationResponse>| answers(m.$responses@, c, a) && #[trigger] arms_of(m.$responses@, a, full, arms) implies class_arms(m.$responses@, arms, f, nd) by { arms_are(m.$responses@, a, full, arms, f, nd); } }
    g.extract_responses(m, c)
}
pub fn error_arms<'a>(g: &Generator, m: &'a OperationMethod) -> (r: (Vec<&'a OperationResponse>, OperationResponseKind))
    requires valid(m.$responses@), agree(m.$responses@, |s: OperationResponseStatus| failure(s), false)
    ensures class_arms(m.$responses@, r.0@, |s: OperationResponseStatus| failure(s), false), /*@G18.error-arms@*/
        forall|i: int| 0 <= i < r.0@.len() ==> (#[trigger] r.0@[i]).$typ == r.1, /*@G18.error-type@*/
{
    let ghost f = |s: OperationResponseStatus| failure(s);
    let c = |s: &OperationResponseStatus| -> (cr: bool) ensures cr == failure(*s) { s.is_error_or_default() };
    proof { assert forall|a: Seq<bool>, full: Seq<&OperationResponse>, arms: Seq<&OperationResponse>| answers(m.$responses@, c, a) && #[trigger] arms_of(m.$responses@, a, full, arms) implies class_arms(m.$responses@, arms, f, false) by { arms_are(m.$responses@, a, full, arms, f, false); } }
    g.extract_responses(m, c)
}
pub open spec fn valid(all: Seq<OperationResponse>) -> bool { (forall|i: int| 0 <= i < all.len() ==> in_range((#[trigger] all[i]).$status)) && once(all, OperationResponseStatus::Default) && once(all, OperationResponseStatus::Range(2)) }
/// the documented responses of a class have one kind (of several, the generator reports that it does not support them)
pub open spec fn agree(all: Seq<OperationResponse>, member: spec_fn(OperationResponseStatus) -> bool, no_default: bool) -> bool {
    forall|x: &OperationResponse, y: &OperationResponse| #[trigger] srefs(all).contains(x) && #[trigger] srefs(all).contains(y) && member(x.$status) && member(y.$status) && !(no_default && (x.$status is Default || y.$status is Default)) ==> x.$typ == y.$typ
}
'''

SORT1 = [(r'\.sort(?:_unstable)?\(\)', '.vp_sort_by(|x: &&OperationResponse, y: &&OperationResponse| -> (cr: Ordering) requires in_range(x.$status), in_range(y.$status) ensures cr == order(x.$status, y.$status) { (*x).cmp(*y) })')]


def responses(w, src, tag):
    """OperationResponse and its order, under contract"""
    status(w)
    status_cmp(w, src, tag)
    w.enum('OperationResponseKind', expect=['Type', 'None', 'Raw', 'Upgrade'])
    w.raw('#[verifier::external_body] pub struct TypeId(());\n')
    w.struct('OperationResponse', {'status': 'OperationResponseStatus', 'typ': 'OperationResponseKind'})
    st = w.names['status']
    w.fn('cmp', C(req=[(tag + '.valid-status', f'in_range(self.{st})'), (tag + '.valid-other', f'in_range($p0.{st})')], ens=[(tag + '.response-order', f'r == order(self.{st}, $p0.{st})')]),
         ty='OperationResponse', trait='Ord', as_inherent=True)


def build_G18(src, probe):
    w = start(src, probe, 'G18', S.ORDER)
    responses(w, src, 'G18')
    classes(w, 'G18')
    st, ty = w.names['status'], w.names['typ']
    w.struct('OperationMethod', {'responses': 'Vec<OperationResponse>'}, keep_fields=['responses'])
    rs = w.names['responses']
    w.raw('pub struct Generator(());\n' + ARMS.replace('$status', st))
    ctx = f'{{ let all = $p0.{rs}@; '
    w.fn('extract_responses', C(
        gen=lambda g: g.rstrip('> ') + ', F: Fn(&OperationResponseStatus) -> bool>',
        req=[('G18.valid-statuses', f'forall|i: int| 0 <= i < $p0.{rs}@.len() ==> in_range((#[trigger] $p0.{rs}@[i]).{st})'),
             ('G18.filter-answers', f'forall|i: int| 0 <= i < $p0.{rs}@.len() ==> $p1.requires((&(#[trigger] $p0.{rs}@[i]).{st},))'),
             ('G18.one-result-type', f'forall|a: Seq<bool>, full: Seq<&OperationResponse>, arms: Seq<&OperationResponse>, i: int, j: int| #![trigger arms_of($p0.{rs}@, a, full, arms), arms[i], arms[j]] answers($p0.{rs}@, $p1, a) && arms_of($p0.{rs}@, a, full, arms) && 0 <= i < arms.len() && 0 <= j < arms.len() ==> arms[i].{ty} == arms[j].{ty}')],
        ens=[('G18.arms', f'exists|a: Seq<bool>, full: Seq<&OperationResponse>| #![trigger arms_of($p0.{rs}@, a, full, r.0@)] answers($p0.{rs}@, $p1, a) && arms_of($p0.{rs}@, a, full, r.0@)'),
             ('G18.result-type', f'forall|i: int| 0 <= i < r.0@.len() ==> (#[trigger] r.0@[i]).{ty} == r.1'),
             ('G18.no-arms', 'r.0@.len() == 0 ==> r.1 is None')],
        locals=dict(items=r'let\s+mut\s+(\w+)\s*=\s*\w+\s*\.'),
        inserts=[(r'\.sort\w*\([^;]*\);', f'let ghost full = $items@; proof {{ assert(exists|a: Seq<bool>| full.to_multiset() == (#[trigger] keep(srefs($p0.{rs}@), a)).to_multiset() && answers($p0.{rs}@, $p1, a)); }}'
                  f'let ghost asks = choose|a: Seq<bool>| full.to_multiset() == (#[trigger] keep(srefs($p0.{rs}@), a)).to_multiset() && answers($p0.{rs}@, $p1, a);'),
                 (r'(?=let\s+\w+\s*=\s*\w+\s*\.iter\(\)\s*\.map)', f'proof {{ assert(arms_of($p0.{rs}@, asks, full, $items@)); }}')],
        start='broadcast use {keep_from, one_element};',
        closures=[dict(ptypes=["&&'a OperationResponse"], ret='bool', req=f'$p1.requires((&$c0.{st},))', ens=f'$p1.ensures((&$c0.{st},), cr)'),
                  dict(ptypes=["&&'a OperationResponse"], ret='OperationResponseKind', ens=f'cr == $c0.{ty}')],
        subst=ITERS + [(a, b.replace('$status', st)) for a, b in SORT1] + [(r'\bfn\(&OperationResponseStatus\) -> bool', 'F')]), ty='Generator')
    w.raw(CLASSES.replace('$status', st).replace('$typ', ty).replace('$responses', rs))
    return done(w)


BUILD = {'G06': build_G06, 'G07': build_G07, 'G08': build_G08, 'G13': build_G13, 'G14': build_G14, 'G18': build_G18}
