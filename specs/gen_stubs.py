"""Verus contracts for what the generator uses of the standard library, proc_macro2, quote and others (assumptions)."""

HEAD = '''#![feature(pattern)]
#![allow(unused)]
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
'''
TAIL = '''
} // verus!
fn main() {}
'''

# strings: std methods vstd has no specification for
STR = r'''
pub mod vstr {
use vstd::prelude::*;
pub uninterp spec fn pat_contains<P>(s: Seq<char>, p: P) -> bool;
pub uninterp spec fn pat_ends<P>(s: Seq<char>, p: P) -> bool;
pub uninterp spec fn pat_starts<P>(s: Seq<char>, p: P) -> bool;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P>[str::contains](s: &str, p: P) -> (r: bool) where P: std::str::pattern::Pattern ensures r == pat_contains(s@, p);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P>[str::starts_with](s: &str, p: P) -> (r: bool) where P: std::str::pattern::Pattern ensures r == pat_starts(s@, p);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P>[str::ends_with](s: &str, p: P) -> (r: bool) where P: std::str::pattern::Pattern, for<'a> <P as std::str::pattern::Pattern>::Searcher<'a>: std::str::pattern::ReverseSearcher<'a> ensures r == pat_ends(s@, p);
pub open spec fn is_sub(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub broadcast axiom fn ax_contains(s: Seq<char>, c: char) ensures #[trigger] pat_contains(s, c) == s.contains(c);
pub broadcast axiom fn ax_ends(s: Seq<char>, c: char) ensures #[trigger] pat_ends(s, c) == (s.len() > 0 && s.last() == c);
pub broadcast axiom fn ax_starts(s: Seq<char>, c: char) ensures #[trigger] pat_starts(s, c) == (s.len() > 0 && s[0] == c);
pub broadcast axiom fn ax_contains_str(s: Seq<char>, p: &str) ensures #[trigger] pat_contains(s, p) == exists|i: int| is_sub(s, p@, i);
pub broadcast axiom fn ax_ends_str(s: Seq<char>, p: &str) ensures #[trigger] pat_ends(s, p) == is_sub(s, p@, s.len() - p@.len());
pub broadcast axiom fn ax_starts_str(s: Seq<char>, p: &str) ensures #[trigger] pat_starts(s, p) == is_sub(s, p@, 0);
pub assume_specification[<String as PartialEq<str>>::eq](a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@);
pub broadcast axiom fn ax_tos_char(c: &char, s: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(c, s) ==> s@ == seq![*c];
pub broadcast axiom fn ax_tos_string(c: &String, s: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(c, s) ==> s@ == c@;
pub broadcast axiom fn ax_eq_s0() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_ss(a: String, b: String) ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_eq_st0() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_st(a: String, b: &str) ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_str_ext(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
pub broadcast group group_str { ax_tos_char, ax_tos_string, ax_eq_s0, ax_eq_ss, ax_eq_st0, ax_eq_st, ax_str_ext, ax_contains, ax_ends, ax_starts, ax_contains_str, ax_ends_str, ax_starts_str, ax_pos, ax_rpos, ax_plen }
/// byte offsets: the length of the UTF-8 encoding (vstd's) of the first n characters
pub open spec fn blen(s: Seq<char>) -> int { vstd::utf8::encode_utf8(s).len() as int }
/// how many characters come before the first c, all if there is none
pub open spec fn cut(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + cut(s.skip(1), c) } }
pub open spec fn head(s: Seq<char>, c: char) -> Seq<char> { s.take(cut(s, c)) }
pub proof fn cut_first(s: Seq<char>, c: char)
    ensures 0 <= cut(s, c) <= s.len(), forall|i: int| 0 <= i < cut(s, c) ==> #[trigger] s[i] != c, cut(s, c) < s.len() ==> s[cut(s, c)] == c, s.contains(c) == (cut(s, c) < s.len())
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        let t = s.skip(1);
        cut_first(t, c);
        assert forall|i: int| 0 <= i < cut(s, c) implies #[trigger] s[i] != c by { if i > 0 { assert(t[i - 1] == s[i]); } }
        if t.contains(c) { assert(s[cut(s, c)] == t[cut(t, c)]); }
        if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(t[i - 1] == c); assert(t.contains(c)); }
    }
}
pub proof fn blen_mono(s: Seq<char>, i: int, j: int) requires 0 <= i < j <= s.len() ensures blen(s.take(i)) < blen(s.take(j)) { vstd::utf8::lemma_encode_utf8_len_strictly_monotonic(s, i, j); }
pub open spec fn at(s: Seq<char>, o: int, n: int) -> bool { 0 <= n <= s.len() && blen(s.take(n)) == o }
pub proof fn at_unique(s: Seq<char>, o: int, n: int, m: int) requires at(s, o, n), at(s, o, m) ensures n == m { if n < m { blen_mono(s, n, m); } if m < n { blen_mono(s, m, n); } }
/// the place of the last c, or -1
pub open spec fn rcut(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { rcut(s.drop_last(), c) } }
pub proof fn rcut_last(s: Seq<char>, c: char) ensures -1 <= rcut(s, c) < s.len(), s.contains(c) == (rcut(s, c) >= 0), rcut(s, c) >= 0 ==> s[rcut(s, c)] == c, forall|i: int| rcut(s, c) < i < s.len() ==> s[i] != c decreases s.len() {
    if s.len() > 0 && s.last() != c { let t = s.drop_last(); rcut_last(t, c); if rcut(t, c) >= 0 { assert(s[rcut(t, c)] == c); }
        if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(t[i] == c); } assert forall|i: int| rcut(s, c) < i < s.len() implies s[i] != c by { if i < t.len() { assert(t[i] == s[i]); } } }
    if s.len() > 0 && s.last() == c { assert(s[s.len() - 1] == c); }
}
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P>[str::rfind](s: &str, p: P) -> (r: Option<usize>) where P: std::str::pattern::Pattern, for<'a> <P as std::str::pattern::Pattern>::Searcher<'a>: std::str::pattern::ReverseSearcher<'a>
    ensures r is Some == pat_contains(s@, p), r matches Some(o) ==> at(s@, o as int, pat_rpos(s@, p));
pub uninterp spec fn pat_rpos<P>(s: Seq<char>, p: P) -> int;
pub broadcast axiom fn ax_rpos(s: Seq<char>, c: char) ensures #[trigger] pat_rpos(s, c) == rcut(s, c);
/// the text from the character after the one-byte character at byte offset o
#[verifier::external_body]
pub fn after(s: &str, o: usize) -> (r: &str) requires exists|n: int| #[trigger] at(s@, o as int, n) && n < s@.len() && s@[n] as int <= 127 ensures forall|n: int| #[trigger] at(s@, o as int, n) ==> r@ == s@.skip(n + 1) { &s[o + 1..] }
pub uninterp spec fn pat_pos<P>(s: Seq<char>, p: P) -> int;
pub broadcast axiom fn ax_pos(s: Seq<char>, c: char) ensures #[trigger] pat_pos(s, c) == cut(s, c);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P>[str::find](s: &str, p: P) -> (r: Option<usize>) where P: std::str::pattern::Pattern
    ensures r is Some == pat_contains(s@, p), r matches Some(o) ==> at(s@, o as int, pat_pos(s@, p));
#[verifier::external_body]
pub fn len(s: &str) -> (r: usize) ensures at(s@, r as int, s@.len() as int) { s.len() }
#[verifier::external_body]
pub fn upto(s: &str, o: usize) -> (r: &str) requires exists|n: int| at(s@, o as int, n) ensures forall|n: int| #[trigger] at(s@, o as int, n) ==> r@ == s@.take(n) { &s[..o] }
#[verifier::external_body]
pub fn from(s: &str, o: usize) -> (r: &str) requires exists|n: int| at(s@, o as int, n) ensures forall|n: int| #[trigger] at(s@, o as int, n) ==> r@ == s@.skip(n) { &s[o..] }
pub uninterp spec fn pat_len<P>(p: P) -> int;
pub broadcast axiom fn ax_plen(c: char) ensures #[trigger] pat_len(c) == 1;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P>[str::split_once](s: &str, p: P) -> (r: Option<(&str, &str)>) where P: std::str::pattern::Pattern
    ensures r is Some == pat_contains(s@, p), r matches Some(o) ==> o.0@ == s@.take(pat_pos(s@, p)) && o.1@ == s@.skip(pat_pos(s@, p) + pat_len(p));
pub assume_specification<'a>[<String as From<&'a str>>::from](s: &str) -> (r: String) ensures r@ == s@;
/// `a + &b` on a String
#[verifier::external_body]
pub fn add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a + b }
/// formatting, piece by piece
#[verifier::external_body]
pub fn fnew() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn fch(a: String, c: char) -> (r: String) ensures r@ == a@.push(c), r@ == a@ + seq![c] { unimplemented!() }
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: Shown + ?Sized> Shown for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body]
pub fn fdisp<T: Shown + ?Sized>(a: String, x: &T) -> (r: String) ensures r@ == a@ + x.shown() { unimplemented!() }
#[verifier::external_body]
pub fn fdbg<T: ?Sized>(a: String, x: &T) -> (r: String) { unimplemented!() }
}
use vstr::Shown;
broadcast use vstr::group_str;
'''

# iterators: a finite sequence and the adapters the generator uses
ITER = r'''
pub mod viter {
use vstd::prelude::*;
/// an iterator that will yield exactly the elements of its view
#[verifier::external_body] #[verifier::accept_recursive_types(I)]
pub struct VIter<I>(core::marker::PhantomData<I>);
impl<I> View for VIter<I> { type V = Seq<I>; uninterp spec fn view(&self) -> Seq<I>; }
pub open spec fn srefs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
pub trait VSlice<T> { spec fn elems(&self) -> Seq<T>;
    fn vp_iter(&self) -> (r: VIter<&T>) ensures r@ == srefs(self.elems()), r@.len() == self.elems().len(), forall|i: int| #![trigger r@[i]] #![trigger self.elems()[i]] 0 <= i < r@.len() ==> *(r@[i]) == self.elems()[i]; }
impl<T> VSlice<T> for Vec<T> { open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_iter(&self) -> (r: VIter<&T>) { unimplemented!() } }
impl<T> VSlice<T> for [T] { open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_iter(&self) -> (r: VIter<&T>) { unimplemented!() } }
/// one of the elements answered with yes
pub open spec fn chosen<I>(s: Seq<I>, a: Seq<bool>, x: I) -> bool { exists|k: int| 0 <= k < s.len() && a[k] && #[trigger] s[k] == x }
pub broadcast proof fn keep_from<I>(s: Seq<I>, a: Seq<bool>, i: int) requires a.len() >= s.len(), 0 <= i < keep(s, a).len()
    ensures chosen(s, a, #[trigger] keep(s, a)[i]) decreases s.len()
{ let n = s.len() - 1; if a[n] && i == keep(s, a).len() - 1 { assert(s[n] == keep(s, a)[i]); } else { keep_from(s.drop_last(), a, i); let k = choose|k: int| 0 <= k < n && a[k] && #[trigger] s.drop_last()[k] == keep(s.drop_last(), a)[i]; assert(s[k] == keep(s, a)[i]); } }
pub broadcast proof fn keep_all<I>(s: Seq<I>, a: Seq<bool>, k: int) requires a.len() >= s.len(), 0 <= k < s.len(), a[k] ensures #[trigger] keep(s, a).contains(#[trigger] s[k]) decreases s.len()
{ let n = s.len() - 1; let t = keep(s.drop_last(), a); if k == n { assert(keep(s, a).last() == s[k]); } else { keep_all(s.drop_last(), a, k); assert(s.drop_last()[k] == s[k]); let j = choose|j: int| 0 <= j < t.len() && t[j] == s[k]; assert(keep(s, a)[j] == s[k]); } }
pub open spec fn flat<B>(s: Seq<Option<B>>) -> Seq<B> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s.last() { Some(x) => flat(s.drop_last()).push(x), None => flat(s.drop_last()) } }
}
/// the results filter_map's function gave, in order
pub uninterp spec fn opts<B>(r: VIter<B>) -> Seq<Option<B>>;
/// the values fold went through
pub uninterp spec fn accs<B>(r: B) -> Seq<B>;
/// the answers filter's function gave, in order
pub uninterp spec fn asked<I>(r: VIter<I>) -> Seq<bool>;
pub open spec fn keep<I>(s: Seq<I>, a: Seq<bool>) -> Seq<I> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if a[s.len() - 1] { keep(s.drop_last(), a).push(s.last()) } else { keep(s.drop_last(), a) }
}
/// a set in the order of its elements, as far as its users here care: its elements, how many, and one of them
#[verifier::external_body] #[verifier::accept_recursive_types(I)]
pub struct BTreeSet<I>(core::marker::PhantomData<I>);
impl<I> View for BTreeSet<I> { type V = Set<I>; uninterp spec fn view(&self) -> Set<I>; }
impl<I> BTreeSet<I> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: VIter<I>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> self@.contains(#[trigger] r@[i]), forall|x: I| #[trigger] self@.contains(x) ==> r@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &I) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
}
impl<I> VCollect<I> for BTreeSet<I> { open spec fn collected(s: Seq<I>, r: Self) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> r@.contains(#[trigger] s[i])) && (forall|x: I| #[trigger] r@.contains(x) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x) } }
pub broadcast proof fn one_element<I>(s: Set<I>) requires forall|x: I, y: I| s.contains(x) && s.contains(y) ==> x == y ensures #[trigger] s.len() <= 1, s.len() == 0 ==> forall|x: I| !s.contains(x) {
    if s.len() >= 2 { let x = s.choose(); let t = s.remove(x); assert(t.len() >= 1); let y = t.choose(); assert(t.contains(y)); assert(s.contains(y) && s.contains(x)); }
    if s.len() == 0 { assert(s =~= Set::empty()); }
}
pub trait VCollect<I>: Sized { spec fn collected(s: Seq<I>, r: Self) -> bool; }
impl<I> VCollect<I> for Vec<I> { open spec fn collected(s: Seq<I>, r: Self) -> bool { r@ == s } }
pub open spec fn concat(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last() }
}
pub open spec fn views(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
impl VCollect<String> for String { open spec fn collected(s: Seq<String>, r: Self) -> bool { r@ == concat(views(s)) } }
/// what a for loop goes through
pub trait VEach<I>: Sized { spec fn each(&self) -> Seq<I>; fn vp_each(self) -> (r: VIter<I>) ensures r@ == self.each(); }
impl<I> VEach<I> for VIter<I> { open spec fn each(&self) -> Seq<I> { self@ } #[verifier::external_body] fn vp_each(self) -> (r: VIter<I>) { unimplemented!() } }
impl<'a, T> VEach<&'a T> for &'a Vec<T> { open spec fn each(&self) -> Seq<&'a T> { srefs((**self)@) } #[verifier::external_body] fn vp_each(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<'a, T> VEach<&'a T> for &'a [T] { open spec fn each(&self) -> Seq<&'a T> { srefs((**self)@) } #[verifier::external_body] fn vp_each(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<I> VIter<I> {
    #[verifier::external_body]
    pub fn map<B, F: Fn(I) -> B>(self, f: F) -> (r: VIter<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> f.ensures((self@[i],), r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(I) -> Option<B>>(self, f: F) -> (r: VIter<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures opts(r).len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] opts(r)[i]), r@ == flat(opts(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fold<B, F: Fn(B, I) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|b: B, i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((b, self@[i])),
        ensures accs(r).len() == self@.len() + 1, accs(r)[0] == init, accs(r).last() == r,
            forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] accs(r)[i], self@[i]), accs(r)[i + 1])
    { unimplemented!() }
    /// the first element the function accepts; it is asked in order, and not after that
    #[verifier::external_body]
    pub fn position<F: Fn(I) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures match r { Some(n) => n < self@.len() && f.ensures((self@[n as int],), true) && forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] self@[i],), false),
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false) }
    { unimplemented!() }
    /// the first element the function accepts
    #[verifier::external_body]
    pub fn find<F: Fn(&I) -> bool>(self, f: F) -> (r: Option<I>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((&self@[i],)),
        ensures match r { Some(x) => exists|n: int| 0 <= n < self@.len() && (#[trigger] self@[n]) == x && f.ensures((&x,), true) && forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] &self@[i],), false),
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(I) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true), !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(I) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false), r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true)
    { unimplemented!() }
    /// the answers filter's function gave are those of `asked`
    #[verifier::external_body]
    pub fn filter<F: Fn(&I) -> bool>(self, f: F) -> (r: VIter<I>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((&self@[i],)),
        ensures asked(r).len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((&self@[i],), #[trigger] asked(r)[i]), r@ == keep(self@, asked(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<I>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VCollect<I>>(self) -> (r: C) ensures C::collected(self@, r) { unimplemented!() }
}
}
use viter::{views, VIter, VEach, VSlice, VCollect, flat, opts, accs, concat, asked, keep, chosen, keep_from, keep_all, srefs, one_element, BTreeSet};
'''

# proc_macro2 / quote: token sequences
QUOTE = r'''
pub mod vq {
use vstd::prelude::*;
use super::viter::VIter;
/// literal tokens (their text, single-spaced), a string literal, an identifier, true or false, tokens made elsewhere
pub enum Tok { Lit(Seq<char>), Str(Seq<char>), Id(Seq<char>), Bool(bool), Other(int) }
#[verifier::external_body]
pub struct TokenStream(());
impl View for TokenStream { type V = Seq<Tok>; uninterp spec fn view(&self) -> Seq<Tok>; }
#[verifier::external_body]
pub struct Ident(());
impl View for Ident { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub trait ToTok { spec fn tok(&self) -> Seq<Tok>; }
impl ToTok for String { open spec fn tok(&self) -> Seq<Tok> { seq![Tok::Str(self@)] } }
impl ToTok for str { open spec fn tok(&self) -> Seq<Tok> { seq![Tok::Str(self@)] } }
impl ToTok for Ident { open spec fn tok(&self) -> Seq<Tok> { seq![Tok::Id(self@)] } }
impl ToTok for TokenStream { open spec fn tok(&self) -> Seq<Tok> { self@ } }
impl ToTok for bool { open spec fn tok(&self) -> Seq<Tok> { seq![Tok::Bool(*self)] } }
impl<T: ToTok> ToTok for Option<T> { open spec fn tok(&self) -> Seq<Tok> { match self { Some(x) => x.tok(), None => Seq::empty() } } }
impl<T: ToTok + ?Sized> ToTok for &T { open spec fn tok(&self) -> Seq<Tok> { (**self).tok() } }
#[verifier::external_body]
pub fn new() -> (r: TokenStream) ensures r@ == Seq::<Tok>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn lit(t: TokenStream, s: &str) -> (r: TokenStream) ensures r@ == t@.push(Tok::Lit(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn val<T: ToTok + ?Sized>(t: TokenStream, x: &T) -> (r: TokenStream) ensures r@ == t@ + x.tok() { unimplemented!() }
pub open spec fn joined(s: Seq<Seq<Tok>>, after: Seq<char>, sep: Seq<char>) -> Seq<Tok> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else {
        let p = joined(s.drop_last(), after, sep);
        let q = if s.len() > 1 && sep.len() > 0 { p.push(Tok::Lit(sep)) } else { p };
        let x = q + s.last();
        if after.len() > 0 { x.push(Tok::Lit(after)) } else { x }
    }
}
pub open spec fn toks<T: ToTok>(s: Seq<T>) -> Seq<Seq<Tok>> { s.map_values(|x: T| x.tok()) }
/// #( #items after )sep*
#[verifier::external_body]
pub fn rep<T: ToTok>(t: TokenStream, items: VIter<T>, after: &str, sep: &str) -> (r: TokenStream)
    ensures r@ == t@ + joined(toks(items@), after@, sep@) { unimplemented!() }
pub open spec fn joined2(s: Seq<Seq<Tok>>, before: Seq<char>, after: Seq<char>, sep: Seq<char>) -> Seq<Tok> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else {
        let p = joined2(s.drop_last(), before, after, sep);
        let q = if s.len() > 1 && sep.len() > 0 { p.push(Tok::Lit(sep)) } else { p };
        let x = q.push(Tok::Lit(before)) + s.last();
        if after.len() > 0 { x.push(Tok::Lit(after)) } else { x }
    }
}
/// #( before #items after )sep*
#[verifier::external_body]
pub fn rep2<T: ToTok>(t: TokenStream, items: VIter<T>, before: &str, after: &str, sep: &str) -> (r: TokenStream)
    ensures r@ == t@ + joined2(toks(items@), before@, after@, sep@) { unimplemented!() }
/// format_ident!("{}", name)
#[verifier::external_body]
pub fn ident<T: super::vstr::Shown>(name: T) -> (r: Ident) ensures r@ == name.shown() { unimplemented!() }
}
use vq::{TokenStream, Ident, Tok};
'''


def fmt_format(pieces, pre):
    e = 'vstr::fnew()'
    for k, t in pieces:
        if k == 'lit':
            t = unescape(t)
            for ch in t:
                e = f'vstr::fch({e}, {rust_char(ch)})'
        elif k == 'disp':
            e = f'vstr::fdisp({e}, &({t}))'
        else:
            e = f'vstr::fdbg({e}, &({t}))'
    return e


def unescape(t):
    import re
    def rep(m):
        c = m.group(1)
        return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(c, c)
    t = re.sub(r'\\\n\s*', '', t)
    return re.sub(r'\\(.)', rep, t)


def rust_char(c):
    return {"'": "'\\''", '\\': "'\\\\'", '\n': "'\\n'", '\t': "'\\t'", '\r': "'\\r'", '\0': "'\\0'"}.get(c, f"'{c}'")


def fmt_ident(pieces, pre):
    from vp.rustlex import Lost
    if len(pieces) != 1 or pieces[0][0] != 'disp':
        raise Lost('format_ident of another form')
    return f'vq::ident({pieces[0][1]})'


def distinct(name, lits):
    """a lemma: these string constants are pairwise different"""
    out = []
    for i, a in enumerate(lits):
        for b in lits[i + 1:]:
            d = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), None)
            out.append(f'    assert("{a}"@ != "{b}"@) by {{ ' + (f'assert("{a}"@.len() != "{b}"@.len());' if d is None or len(a) != len(b) else f'assert("{a}"@[{d}] != "{b}"@[{d}]);') + ' }')
    return (f'pub proof fn {name}() ensures ' + ', '.join(f'"{a}"@ != "{b}"@' for i, a in enumerate(lits) for b in lits[i + 1:]) + ' {\n' +
            '\n'.join(f'    reveal_strlit("{m}");' for m in lits) + '\n' + '\n'.join(out) + '\n}\n')


# a formatter: what was written so far
FMT = r'''
pub mod vfmt {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Formatter<'a>(core::marker::PhantomData<&'a ()>);
#[verifier::external_body]
pub struct Error(());
pub type Result = core::result::Result<(), Error>;
impl<'a> Formatter<'a> {
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result) ensures r is Ok ==> final(self).out() == old(self).out() + s@ { unimplemented!() }
}
}
'''


# orders: strings compare by code point, and sorting with a comparison that is an order
ORDER = r'''
pub mod vlex {
use vstd::prelude::*;
use std::cmp::Ordering;
pub open spec fn ncmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn flip(a: Ordering) -> Ordering { match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub open spec fn lex(a: Seq<char>, b: Seq<char>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] != b[0] { if a[0] < b[0] { Ordering::Less } else { Ordering::Greater } }
    else { lex(a.skip(1), b.skip(1)) }
}
pub proof fn lex_flip(a: Seq<char>, b: Seq<char>) ensures lex(b, a) == flip(lex(a, b)), lex(a, b) is Equal <==> a == b decreases a.len() {
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] { lex_flip(a.skip(1), b.skip(1)); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lex_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures !(lex(a, b) is Greater) && !(lex(b, c) is Greater) ==> !(lex(a, c) is Greater), lex(a, b) is Less && !(lex(b, c) is Greater) ==> lex(a, c) is Less, !(lex(a, b) is Greater) && lex(b, c) is Less ==> lex(a, c) is Less
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lex_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
}
use vlex::{ncmp, flip, lex, lex_flip, lex_trans};
pub mod vord {
use vstd::prelude::*;
use std::cmp::Ordering;
use super::vlex::{flip, lex};
pub broadcast axiom fn ax_cmp0() ensures #[trigger] <String as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn ax_cmp(a: String, b: String) ensures #[trigger] <String as vstd::std_specs::cmp::OrdSpec>::cmp_spec(&a, &b) == lex(a@, b@);
pub broadcast group group_ord { ax_cmp0, ax_cmp }
/// std's sorts: a permutation in which nothing greater comes first, provided the comparison is an order
pub open spec fn ordering<T, F: Fn(&T, &T) -> Ordering>(s: Seq<T>, f: F) -> bool {
    &&& forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && i != j && #[trigger] f.ensures((&s[i], &s[j]), a) && #[trigger] f.ensures((&s[j], &s[i]), b) ==> b == flip(a)
    &&& forall|i: int, j: int, k: int, a: Ordering, b: Ordering, c: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && i != j && j != k && i != k
        && #[trigger] f.ensures((&s[i], &s[j]), a) && #[trigger] f.ensures((&s[j], &s[k]), b) && #[trigger] f.ensures((&s[i], &s[k]), c) && !(a is Greater) && !(b is Greater) ==> !(c is Greater)
}
pub open spec fn le<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && !(o is Greater) }
pub trait VSort<T> { spec fn items(&self) -> Seq<T>;
    fn vp_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|i: int, j: int| 0 <= i < old(self).items().len() && 0 <= j < old(self).items().len() && i != j ==> #[trigger] f.requires((&old(self).items()[i], &old(self).items()[j])),
            ordering(old(self).items(), f),
        ensures final(self).items().to_multiset() == old(self).items().to_multiset(), final(self).items().len() == old(self).items().len(),
            forall|i: int, j: int| #![trigger final(self).items()[i], final(self).items()[j]] 0 <= i < j < final(self).items().len() ==> le(f, final(self).items()[i], final(self).items()[j]);
}
}
use vord::VSort;
'''
