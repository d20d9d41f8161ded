"""G22: the pagination streams of clients generated by the real generator, for all page sequences."""
import os, re
from vp.weave import Weave, C, find_closures, split_top
from vp.rustlex import Src, Lost, lex, norm, base
import native as NV
from native.gencode import model, runner
from specs import gen6

FILES = dict(G22='progenitor-impl/src/method.rs')
NOTE = {'G22': 'The methods under contract are those of the clients the real generator makes on every run from the documents listed in the evidence: proved for all pages, arguments and errors of those clients, bounded in the documents. '
               'Futures are lowered to their outcomes before verification (async blocks run where they stand, .await is dropped, a request method is a relation between its arguments and its outcome); the futures combinators (map_ok, iter, map, chain, try_unfold, try_flatten, try_flatten_stream, boxed) have assumed contracts, so laziness and scheduling are not part of the proof.'}
TECHNIQUE = {'G22': gen6.TECHNIQUE['G20']}
LEVEL = {'G22': 'translation_validation'}
WHICH = ('page',)

STRM = r'''
/// streams: what they may have given so far
pub mod strm {
use vstd::prelude::*;
pub type Item<T, E> = core::result::Result<T, E>;
pub type Next<T, E, S> = core::result::Result<Option<(Strm<T, E>, S)>, E>;
pub trait VDeref { spec fn vd(&self) -> Option<Seq<char>>; fn vp_deref(&self) -> (r: Option<&str>) ensures r is Some == self.vd() is Some, r is Some ==> r->Some_0@ == self.vd()->Some_0; }
impl VDeref for Option<String> { open spec fn vd(&self) -> Option<Seq<char>> { match self { Some(s) => Some(s@), None => None } } #[verifier::external_body] fn vp_deref(&self) -> Option<&str> { unimplemented!() } }
pub open spec fn ov(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// the outcome of a future
pub trait VFut<T, E>: Sized { spec fn got(self) -> core::result::Result<T, E>;
  fn map_ok<U, F: FnOnce(T) -> U>(self, f: F) -> (r: core::result::Result<U, E>)
    requires self.got() is Ok ==> f.requires((self.got()->Ok_0,)),
    ensures match self.got() { Ok(v) => r is Ok && f.ensures((v,), r->Ok_0), Err(e) => r == Err::<U, E>(e) };
}
impl<T, E> VFut<T, E> for core::result::Result<T, E> { open spec fn got(self) -> core::result::Result<T, E> { self }
  fn map_ok<U, F: FnOnce(T) -> U>(self, f: F) -> (r: core::result::Result<U, E>) { match self { Ok(v) => Ok(f(v)), Err(e) => Err(e) } } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(E)] pub struct Strm<T, E>(T, E);
impl<T, E> Strm<T, E> {
  /// out is what the stream has given so far; done: and then it ended
  pub uninterp spec fn gives(&self, out: Seq<Item<T, E>>, done: bool) -> bool;
  pub uninterp spec fn of<S>(&self) -> Unfold<T, E, S>;
  #[verifier::external_body] pub fn chain(self, o: Strm<T, E>) -> (r: Strm<T, E>) ensures forall|out: Seq<Item<T, E>>, done: bool| #[trigger] r.gives(out, done) ==> chained(self, o, out, done) { unimplemented!() }
  #[verifier::external_body] pub fn boxed(self) -> (r: Strm<T, E>) ensures r == self { unimplemented!() }
}
pub open spec fn chained<T, E>(a: Strm<T, E>, b: Strm<T, E>, out: Seq<Item<T, E>>, done: bool) -> bool {
  (a.gives(out, false) && !done) || exists|x: Seq<Item<T, E>>, y: Seq<Item<T, E>>| #[trigger] a.gives(x, true) && #[trigger] b.gives(y, done) && out == x + y }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Iter<T>(T);
impl<T> Iter<T> { pub uninterp spec fn items(&self) -> Seq<T>;
  #[verifier::external_body] pub fn map<E, F: Fn(T) -> Item<T, E>>(self, f: F) -> (r: Strm<T, E>) requires forall|t: T| f.requires((t,)),
    ensures forall|out: Seq<Item<T, E>>, done: bool| #[trigger] r.gives(out, done) ==> out.len() <= self.items().len() && (done ==> out.len() == self.items().len()) && forall|i: int| 0 <= i < out.len() ==> f.ensures((self.items()[i],), #[trigger] out[i]) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(S)] pub struct Unfold<T, E, S>(T, E, S);
impl<T, E, S> Unfold<T, E, S> {
  pub uninterp spec fn init(&self) -> S;
  pub uninterp spec fn may(&self, s: S, o: Next<T, E, S>) -> bool;
  #[verifier::external_body] pub fn try_flatten(self) -> (r: Strm<T, E>) ensures r.of::<S>() == self, forall|out: Seq<Item<T, E>>, done: bool| #[trigger] r.gives(out, done) ==> exists|n: nat| #[trigger] run(self, self.init(), n, out, done) { unimplemented!() }
}
/// what an unfolded and flattened stream gives from a state on, in at most n steps
pub open spec fn run<T, E, S>(u: Unfold<T, E, S>, s: S, n: nat, out: Seq<Item<T, E>>, done: bool) -> bool decreases n, 1nat {
  if n == 0 { out.len() == 0 && !done } else { exists|o: Next<T, E, S>| #[trigger] u.may(s, o) && run_on(u, o, (n - 1) as nat, out, done) } }
pub open spec fn run_on<T, E, S>(u: Unfold<T, E, S>, o: Next<T, E, S>, n: nat, out: Seq<Item<T, E>>, done: bool) -> bool decreases n, 3nat {
  match o {
    Err(e) => out =~= seq![Err::<T, E>(e)],
    Ok(None) => out.len() == 0 && done,
    Ok(Some((st, s2))) => (!done && st.gives(out, false)) || joined(u, st, s2, n, out, done),
  } }
pub open spec fn joined<T, E, S>(u: Unfold<T, E, S>, st: Strm<T, E>, s2: S, n: nat, out: Seq<Item<T, E>>, done: bool) -> bool decreases n, 2nat {
  exists|x: Seq<Item<T, E>>, y: Seq<Item<T, E>>| st.gives(x, true) && run(u, s2, n, y, done) && out == #[trigger] (x + y) }
pub trait VFlat<T, E>: Sized { spec fn st(self) -> core::result::Result<Strm<T, E>, E>;
  fn try_flatten_stream(self) -> (r: Strm<T, E>) ensures forall|out: Seq<Item<T, E>>, done: bool| #[trigger] r.gives(out, done) ==> (out.len() == 0 && !done) || match self.st() { Ok(s) => s.gives(out, done), Err(e) => out =~= seq![Err::<T, E>(e)] }; }
impl<T, E> VFlat<T, E> for core::result::Result<Strm<T, E>, E> { open spec fn st(self) -> core::result::Result<Strm<T, E>, E> { self } #[verifier::external_body] fn try_flatten_stream(self) -> (r: Strm<T, E>) { unimplemented!() } }

/// marks the outcome of a request
pub open spec fn outcome<R>(r: R) -> bool { true }
/// the documented pages of an operation
pub trait VPlan<T, E, P, S>: Sized {
  spec fn first(self, r: core::result::Result<P, E>) -> bool;
  spec fn ask(self, t: String, r: core::result::Result<P, E>) -> bool;
  spec fn items(self, p: P) -> Seq<T>;
  spec fn next(self, p: P) -> Option<String>;
  spec fn tok(self, s: S) -> Option<String>;
  spec fn inv(self, s: S) -> bool;
}
pub open spec fn oks<T, E>(v: Seq<T>) -> Seq<Item<T, E>> { Seq::new(v.len(), |i: int| Ok::<T, E>(v[i])) }
pub open spec fn begins<T, E>(out: Seq<Item<T, E>>, v: Seq<T>) -> bool { out.len() <= v.len() && forall|i: int| 0 <= i < out.len() ==> #[trigger] out[i] == Ok::<T, E>(v[i]) }
/// a stream that gives these items
pub open spec fn lists<T, E>(st: Strm<T, E>, v: Seq<T>) -> bool { forall|out: Seq<Item<T, E>>, done: bool| #[trigger] st.gives(out, done) ==> begins(out, v) && (done ==> out.len() == v.len()) }
/// what is given after a page was received: its items, and those of the pages after it
pub open spec fn after<T, E, P, S, D: VPlan<T, E, P, S>>(d: D, p: P, n: nat, out: Seq<Item<T, E>>, done: bool) -> bool decreases n, 1nat {
  (!done && begins(out, d.items(p))) || exists|y: Seq<Item<T, E>>| out == #[trigger] (oks(d.items(p)) + y) && rest::<T, E, P, S, D>(d, d.next(p), n, y, done) }
/// what is given from a page token on
pub open spec fn rest<T, E, P, S, D: VPlan<T, E, P, S>>(d: D, tok: Option<String>, n: nat, out: Seq<Item<T, E>>, done: bool) -> bool decreases n, 0nat {
  (out.len() == 0 && !done) || match tok {
    None => out.len() == 0,
    Some(t) => n > 0 && exists|r: core::result::Result<P, E>| #[trigger] outcome(r) && d.ask(t, r) && match r { Err(e) => out =~= seq![Err::<T, E>(e)], Ok(p) => after::<T, E, P, S, D>(d, p, (n - 1) as nat, out, done) },
  } }
pub open spec fn documented<T, E, P, S, D: VPlan<T, E, P, S>>(d: D, out: Seq<Item<T, E>>, done: bool) -> bool {
  (out.len() == 0 && !done) || exists|r: core::result::Result<P, E>| #[trigger] outcome(r) && d.first(r) && match r { Err(e) => out =~= seq![Err::<T, E>(e)], Ok(p) => exists|n: nat| #[trigger] after::<T, E, P, S, D>(d, p, n, out, done) } }
/// one step of the unfolding asks for one page
pub open spec fn stepped<T, E, P, S, D: VPlan<T, E, P, S>>(d: D, s: S, o: Next<T, E, S>) -> bool {
  d.inv(s) ==> match d.tok(s) {
    None => o matches Ok(None),
    Some(t) => exists|r: core::result::Result<P, E>| #[trigger] outcome(r) && d.ask(t, r) && match r { Err(e) => o == Err::<Option<(Strm<T, E>, S)>, E>(e), Ok(p) => followed::<T, E, P, S, D>(d, p, o) } } }
pub open spec fn followed<T, E, P, S, D: VPlan<T, E, P, S>>(d: D, p: P, o: Next<T, E, S>) -> bool { o matches Ok(Some((st, s2))) && lists(st, d.items(p)) && d.tok(s2) == d.next(p) && d.inv(s2) }
pub proof fn runs<T, E, P, S, D: VPlan<T, E, P, S>>(d: D, u: Unfold<T, E, S>, s: S, n: nat, out: Seq<Item<T, E>>, done: bool)
  requires run(u, s, n, out, done), d.inv(s), forall|s: S, o: Next<T, E, S>| #[trigger] u.may(s, o) ==> stepped::<T, E, P, S, D>(d, s, o)
  ensures rest::<T, E, P, S, D>(d, d.tok(s), n, out, done) decreases n
{
  if n > 0 && !(out.len() == 0 && !done) {
    let o = choose|o: Next<T, E, S>| #[trigger] u.may(s, o) && run_on(u, o, (n - 1) as nat, out, done);
    assert(stepped::<T, E, P, S, D>(d, s, o));
    if d.tok(s) is Some {
      let t = d.tok(s)->Some_0;
      let r = choose|r: core::result::Result<P, E>| #[trigger] outcome(r) && d.ask(t, r) && match r { Err(e) => o == Err::<Option<(Strm<T, E>, S)>, E>(e), Ok(p) => followed::<T, E, P, S, D>(d, p, o) };
      if r is Ok {
        let p = r->Ok_0;
        let (st, s2) = o->Ok_0->Some_0;
        if !(!done && st.gives(out, false)) {
          assert(joined(u, st, s2, (n - 1) as nat, out, done));
          let (x, y) = choose|x: Seq<Item<T, E>>, y: Seq<Item<T, E>>| st.gives(x, true) && run(u, s2, (n - 1) as nat, y, done) && out == #[trigger] (x + y);
          runs::<T, E, P, S, D>(d, u, s2, (n - 1) as nat, y, done);
          assert(x =~= oks(d.items(p)));
          assert(rest::<T, E, P, S, D>(d, d.next(p), (n - 1) as nat, y, done));
          assert(out == oks(d.items(p)) + y);
        }
        assert(after::<T, E, P, S, D>(d, p, (n - 1) as nat, out, done));
      }
    }
  }
}
/// what is given when the first page is chained with the unfolding of the others
pub proof fn whole<T, E, P, S, D: VPlan<T, E, P, S>>(d: D, p: P, a: Strm<T, E>, b: Strm<T, E>, out: Seq<Item<T, E>>, done: bool)
  requires chained(a, b, out, done), lists(a, d.items(p)), d.tok(b.of::<S>().init()) == d.next(p), d.inv(b.of::<S>().init()),
    forall|out: Seq<Item<T, E>>, done: bool| #[trigger] b.gives(out, done) ==> exists|n: nat| #[trigger] run(b.of::<S>(), b.of::<S>().init(), n, out, done),
    forall|s: S, o: Next<T, E, S>| #[trigger] b.of::<S>().may(s, o) ==> stepped::<T, E, P, S, D>(d, s, o)
  ensures exists|n: nat| #[trigger] after::<T, E, P, S, D>(d, p, n, out, done)
{
  if a.gives(out, false) && !done { assert(after::<T, E, P, S, D>(d, p, 0, out, done)); }
  else {
    let (x, y) = choose|x: Seq<Item<T, E>>, y: Seq<Item<T, E>>| #[trigger] a.gives(x, true) && #[trigger] b.gives(y, done) && out == x + y;
    let u = b.of::<S>();
    let n = choose|n: nat| #[trigger] run(u, u.init(), n, y, done);
    runs::<T, E, P, S, D>(d, u, u.init(), n, y, done);
    assert(x =~= oks(d.items(p)));
    assert(out == oks(d.items(p)) + y);
    assert(after::<T, E, P, S, D>(d, p, n, out, done));
  }
}
}
pub use strm::*;
pub mod futures { pub mod stream { use vstd::prelude::*; use crate::strm::*;
#[verifier::external_body] pub fn iter<T>(v: Vec<T>) -> (r: Iter<T>) ensures r.items() == v@ { unimplemented!() }
#[verifier::external_body] pub fn try_unfold<T, E, S, F: Fn(S) -> Next<T, E, S>>(init: S, f: F) -> (r: Unfold<T, E, S>) requires forall|s: S| f.requires((s,)) ensures r.init() == init, forall|s: S, o: Next<T, E, S>| #[trigger] r.may(s, o) ==> f.ensures((s,), o) { unimplemented!() }
} }
'''

SUBST = [(r'\buse\s*(?:::)?futures::\w+;', ''), (r'\basync move\b', ''), (r'\basync\b(?=\s*\{)', ''), (r'\.await\b', ''), (r'\.as_deref\(\)', '.vp_deref()')]
RET = r"impl futures::Stream\s*<\s*Item\s*=\s*Result\s*<(.*)>\s*>\s*\+\s*Unpin\s*\+\s*'\w+"


def world():
    return gen6.world() + STRM


def streamed(s, f):
    m = re.fullmatch(RET, s.txt(*f.ret).strip(), re.S)
    if not m:
        raise Lost(f'return type of {f.name}')
    parts = [x.strip() for x in split_top(m.group(1)) if x.strip()]
    if len(parts) != 2:
        raise Lost(f'item type of {f.name}')
    return parts


def page_of(ret):
    S, E = gen6.split_ret(ret)
    return S, E



def contract(w, op, f, T, E, P, S, plan, D, prop):
    """the stream function: its closures and the proof that ties them together"""
    tag = lambda t: f'{prop}.{t} {w.doc}.{op.oid}'
    rv = f'ResponseValue<{P}>'
    g = f'{T}, {E}, {rv}, {S}, {D}'
    n = len(find_closures(w.src, f.body[0] + 1, f.body[1]))
    if n != 3:
        raise Lost(f'{n} closures in {f.name}')
    w.ctors = {'Ok': (f'core::result::Result<{T}, {E}>', f'Ok::<{T}, {E}>')}
    aft = f'exists|n: nat| #[trigger] after::<{g}>(vp_d, $P, n, out, done)'
    every = f'forall|out: Seq<Item<{T}, {E}>>, done: bool|'
    cl = [dict(ptypes=[rv], ret=f'Strm<{T}, {E}>', start='let ghost vp_page = $c0;', ens=f'{every} #[trigger] cr.gives(out, done) ==> ' + aft.replace('$P', '$c0')),
          dict(ptypes=[S], ret=f'Next<{T}, {E}, {S}>', start='let ghost vp_s = $c0;', ens=f'stepped::<{g}>(vp_d, $c0, cr)'),
          dict(ptypes=[rv], ret=f'Option<(Strm<{T}, {E}>, {S})>', ens=f'vp_d.inv(vp_s) ==> followed::<{g}>(vp_d, $c0, Ok(cr))')]
    for c in cl:
        c['ens'] += f' /*@{tag("pages")}@*/'
    return C(ens=[(tag('pages'), f'{every} #[trigger] r.gives(out, done) ==> documented::<{g}>({plan}, out, done)')], closures=cl,
             locals=dict(rest=r'let (\w+) = futures::stream::try_unfold', first=r'let (\w+) = futures::stream::iter'),
             start=f'let ghost vp_d = {plan};', subst=[(r'^impl futures::Stream.*$', f'Strm<{T}, {E}>')],
             inserts=[(r'\.try_flatten\(\);', f'proof {{ assert {every} chained($first, $rest, out, done) implies ' + aft.replace('$P', 'vp_page') + f' by {{ whole::<{g}>(vp_d, vp_page, $first, $rest, out, done); /*@{tag("pages")}@*/ }} }}')])


def plan_impl(D, T, E, P, S, first, ask, tok, inv, head):
    rv = f'ResponseValue<{P}>'
    return f"""{head}
impl<'a> VPlan<{T}, {E}, {rv}, {S}> for {D} {{
    open spec fn first(self, r: core::result::Result<{rv}, {E}>) -> bool {{ {first} }}
    open spec fn ask(self, t: String, r: core::result::Result<{rv}, {E}>) -> bool {{ {ask} }}
    open spec fn items(self, p: {rv}) -> Seq<{T}> {{ p.s_inner().items@ }}
    open spec fn next(self, p: {rv}) -> Option<String> {{ p.s_inner().next_page }}
    open spec fn tok(self, s: {S}) -> Option<String> {{ {tok} }}
    open spec fn inv(self, s: {S}) -> bool {{ {inv} }}
}}
"""


def later(p):
    """whether a parameter is sent with the requests for later pages"""
    return p.where != 'query' or p.api == 'limit'


def positional(w, op, prop):
    s = w.src
    find = lambda n: next((f for f in s.fns() if f.name == n and f.parent is not None and f.parent.kind == 'impl'), None)
    f, st = find(op.oid), find(op.oid + '_stream')
    if f is None or st is None:
        raise Lost(f'stream of {op.oid}')
    T, E = streamed(s, st)
    P, _ = gen6.split_ret(s.txt(*f.ret))
    names = [re.sub(r'^mut ', '', p) for p, _ in f.params]
    if len(names) != len(op.params) or [re.sub(r'^mut ', '', p) for p, _ in st.params] != [n for n, p in zip(names, op.params) if p.api != 'page_token']:
        raise Lost(f'parameters of {op.oid}')
    tys = {n: t for n, (_, t) in zip(names, f.params)}
    by = {(p.where, p.api): n for p, n in zip(op.params, names)}
    tokn = by['query', 'page_token']
    rv, S, D = f'ResponseValue<{P}>', 'Option<String>', f"Plan_{op.oid}<'a>"
    R = f'core::result::Result<{rv}, {E}>'
    args = ', '.join(f'{n}: ' + ('Option<Seq<char>>' if n == tokn else tys[n]) for n in names)
    w.raw(f"impl Client {{\npub uninterp spec fn asked_{op.oid}<'a>(&self, {args}, r: {R}) -> bool;\n"
          f"#[verifier::external_body] pub fn {op.oid}<'a>(&'a self, {', '.join(f'{n}: {tys[n]}' for n in names)}) -> (r: {R}) ensures outcome(r), self.asked_{op.oid}({', '.join(f'ov({n})' if n == tokn else n for n in names)}, r) {{ unimplemented!() }}\n}}\n")
    flds = [n for n in names if n != tokn]
    head = f"pub ghost struct Plan_{op.oid}<'a> {{ pub me: &'a Client, {' '.join(f'pub {n}: {tys[n]},' for n in flds)} }}"
    a0 = ', '.join('None' if n == tokn else f'self.{n}' for n in names)
    a1 = ', '.join('Some(t@)' if n == tokn else f'self.{n}' if later(p) else 'None' for n, p in zip(names, op.params))
    w.raw(plan_impl(D, T, E, P, S, f'self.me.asked_{op.oid}({a0}, r)', f'self.me.asked_{op.oid}({a1}, r)', 's', 'true', head))
    plan = f"Plan_{op.oid} {{ me: self, {', '.join(f'{n}: {n}' for n in flds)} }}"
    w.fn(st.name, contract(w, op, st, T, E, P, S, plan, D, prop), f=st, ty='Client')


def builder(w, op, prop):
    s = w.src
    ty = model.pascal(op.oid)
    impl = lambda n: next((f for f in s.fns() if f.name == n and f.parent is not None and f.parent.kind == 'impl' and not f.parent.trait and base(norm(f.parent.self_ty)) == ty), None)
    it = [x for x in s.items if x.kind == 'struct' and x.name == ty]
    send, st = impl('send'), impl('stream')
    if len(it) != 1 or send is None or st is None:
        raise Lost(f'stream of {ty}')
    fl = [n for n, _ in w._fields(*it[0].body)]
    T, E = streamed(s, st)
    P, _ = gen6.split_ret(s.txt(*send.ret))
    by = {p.name: p for p in op.params}
    tokn = next(p.name for p in op.params if p.where == 'query' and p.api == 'page_token')
    if [n for n in by if n not in fl] or len(fl) != len(by) + 1:
        raise Lost(f'fields of {ty}')
    w.struct(ty)
    rv, B = f'ResponseValue<{P}>', f"{ty}<'a>"
    S, D, R = f'(Option<String>, {B})', f"Plan_{ty}<'a>", f'core::result::Result<{rv}, {E}>'
    w.raw(f"impl<'a> Clone for {B} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
          f"impl<'a> {B} {{\npub uninterp spec fn sent(self, r: {R}) -> bool;\n#[verifier::external_body] pub fn send(self) -> (r: {R}) ensures outcome(r), self.sent(r) {{ unimplemented!() }}\n}}\n")
    kept = {n: 'Ok(Some(t))' if n == tokn else 'Ok(None)' if n in by and not later(by[n]) else f'self.me.{n}' for n in fl}
    ask = f'{ty} {{ ' + ', '.join(f'{n}: {v}' for n, v in kept.items()) + ' }.sent(r)'
    inv = ' && '.join(f's.1.{n} == {v}' if v != 'Ok(None)' else f'(s.1.{n} matches Ok(None))' for n, v in kept.items() if n != tokn)
    w.raw(plan_impl(D, T, E, P, S, 'self.me.sent(r)', f'({ask})', 's.0', inv, f"pub ghost struct Plan_{ty}<'a> {{ pub me: {B} }}"))
    w.fn('stream', contract(w, op, st, T, E, P, S, f'Plan_{ty} {{ me: self }}', D, prop), f=st, ty=ty)


USE = 'use vstd::prelude::*;\nuse crate::*;\nuse crate::progenitor_client::{Error, ResponseValue};\nuse crate::reqwest;\n'


def one(w0, e, code, prop):
    text = gen6.respace(code)
    for pat, rep in SUBST:
        t2 = re.sub(pat, rep, text)
        if t2 != text:
            w0.rules.add(f'W9 {pat} -> {rep}')
        text = t2
    src = Src(text, e['name'])
    types = Weave(Src(gen6.inside(src, 'types'), 'types'), prop)
    ops = [op for op in model.read(e) if op.paged]
    if not ops:
        raise Lost('no paginated operation in ' + e['name'])
    w = Weave(src, prop)
    w.probe, w.doc = w0.probe, e['name']
    w.raw(f'pub mod {e["name"]} {{\n{USE}')
    names = page_types(e['doc'], ops)
    pages = sorted({pg for pg in re.findall(r'ResponseValue\s*<\s*types::(\w+)', text) if pg in names})
    if not pages:
        raise Lost('no page types')
    w.raw(gen6.types_mod(text, e, e['interface'] == 'builder', pages, types))
    w.struct('Client')
    if e['interface'] != 'builder':
        for op in ops:
            positional(w, op, prop)
    else:
        w2 = Weave(Src(gen6.inside(src, 'builder'), e['name']), prop)
        w2.probe, w2.doc = w0.probe, w.doc
        w2.raw(f'pub mod builder {{\n{USE}use super::types;\n')
        for op in ops:
            builder(w2, op, prop)
        w2.raw('}\n')
        w.raw(w2.text())
        for k in ('contracted', 'uncontracted', 'tags', 'census'):
            getattr(w, k).extend(getattr(w2, k))
        w.rules |= w2.rules
    w.raw('}\n')
    w0.raw(w.text())
    for k in ('contracted', 'uncontracted', 'tags', 'census'):
        getattr(w0, k).extend([f'{w.doc}::{x}' for x in getattr(w, k)] if k in ('contracted', 'uncontracted') else getattr(w, k))
    w0.rules |= w.rules


def page_types(doc, ops):
    """names of the schemas of the pages"""
    return {op.ok_kind[1]['$ref'].rsplit('/', 1)[1] for op in ops if '$ref' in op.ok_kind[1]}


def load(root, prop):
    return gen6.load(root, prop, WHICH)


def build(src, probe):
    w = Weave(src, 'G22')
    w.probe = probe
    w.raw(gen6.HEAD + world())
    n = 0
    for e, code, err in src.docs:
        if e['name'].startswith(WHICH):
            if code is None:
                raise Lost(f'no client for {e["name"]}: {err}')
            only = os.environ.get('VP_ONLY')
            if only and e['name'] not in only.split(','):
                continue
            one(w, e, code, 'G22')
            n += 1
    w.programs = n
    w.raw('} // verus!\nfn main() {}\n')
    return w


BUILD = {'G22': build}
