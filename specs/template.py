"""G01-G05: path templates (progenitor-impl/src/template.rs)."""
import os, re
from vp.weave import Weave, C
from vp.rustlex import Src, Lost
from . import gen_stubs as S

FILE = 'progenitor-impl/src/template.rs'
LIB = 'progenitor-impl/src/lib.rs'


def load(root, prop=None):
    s = Src(open(os.path.join(root, FILE)).read(), FILE)
    s.lib = Src(open(os.path.join(root, LIB)).read(), LIB)
    return s


MODEL = r'''
/// a component: literal text or the name of a parameter
pub enum Piece { Lit(Seq<char>), Par(Seq<char>) }
pub open spec fn piece(c: Component) -> Piece { match c { Component::Constant(s) => Piece::Lit(s@), Component::Parameter(s) => Piece::Par(s@) } }
pub open spec fn pieces(cs: Seq<Component>) -> Seq<Piece> { cs.map_values(|c: Component| piece(c)) }

/// reading a path from the left: outside braces, inside, or already wrong
pub enum Sc { Bad, Out, In }
pub open spec fn step(st: Sc, c: char) -> Sc {
    match st {
        Sc::Bad => Sc::Bad,
        Sc::Out => if c == '{' { Sc::In } else if c == '}' { Sc::Bad } else { Sc::Out },
        Sc::In => if c == '}' { Sc::Out } else if c == '/' || c == '{' { Sc::Bad } else { Sc::In },
    }
}
pub open spec fn scan(s: Seq<char>) -> Sc decreases s.len() { if s.len() == 0 { Sc::Out } else { step(scan(s.drop_last()), s.last()) } }
pub open spec fn accept(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '/' && scan(s) == Sc::Out }
/// the path with runs of slashes outside braces collapsed to one
pub open spec fn norm(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s }
    else {
        let p = s.drop_last();
        if s.last() == '/' && p.len() > 0 && p.last() == '/' && scan(p) == Sc::Out { norm(p) } else { norm(p).push(s.last()) }
    }
}
pub open spec fn text(p: Piece) -> Seq<char> { match p { Piece::Lit(s) => s, Piece::Par(s) => seq!['{'] + s + seq!['}'] } }
pub open spec fn render(ps: Seq<Piece>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { render(ps.drop_last()) + text(ps.last()) }
}
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '{' && s[i] != '}' }
pub open spec fn single(s: Seq<char>) -> bool { forall|i: int| 0 < i < s.len() ==> !(#[trigger] s[i] == '/' && s[i - 1] == '/') }
pub open spec fn name_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '{' && s[i] != '}' && s[i] != '/' }
pub open spec fn piece_ok(p: Piece) -> bool { match p { Piece::Lit(s) => s.len() > 0 && plain(s) && single(s), Piece::Par(s) => name_ok(s) } }
/// the pieces of a well-formed path, in order: no two literals in a row, the first begins with the slash
pub open spec fn pre_wf(ps: Seq<Piece>) -> bool {
    (forall|i: int| 0 <= i < ps.len() ==> piece_ok(#[trigger] ps[i]))
    && (forall|i: int| 0 < i < ps.len() ==> !((#[trigger] ps[i]) is Lit && ps[i - 1] is Lit))
    && (ps.len() > 0 ==> ps[0] is Lit && ps[0]->Lit_0[0] == '/')
}
pub open spec fn wf(ps: Seq<Piece>) -> bool { ps.len() > 0 && pre_wf(ps) }

pub proof fn scan_push(s: Seq<char>, c: char) ensures scan(s.push(c)) == step(scan(s), c) { assert(s.push(c).drop_last() =~= s); }
pub proof fn bad_stays(s: Seq<char>, t: Seq<char>) requires scan(s) == Sc::Bad ensures scan(s + t) == Sc::Bad decreases t.len() {
    if t.len() == 0 { assert(s + t =~= s); } else { bad_stays(s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last()); }
}
pub proof fn bad_prefix(t: Seq<char>, n: int) requires 0 <= n <= t.len(), scan(t.take(n)) == Sc::Bad ensures scan(t) == Sc::Bad {
    bad_stays(t.take(n), t.skip(n)); assert(t.take(n) + t.skip(n) =~= t);
}
pub proof fn take_step(t: Seq<char>, n: int) requires 0 <= n < t.len()
    ensures t.take(n + 1) == t.take(n).push(t[n]), scan(t.take(n + 1)) == step(scan(t.take(n)), t[n]),
        norm(t.take(n + 1)) == (if t[n] == '/' && n > 0 && t[n - 1] == '/' && scan(t.take(n)) == Sc::Out { norm(t.take(n)) } else { norm(t.take(n)).push(t[n]) })
{
    let p = t.take(n); let q = t.take(n + 1);
    assert(q =~= p.push(t[n])); assert(q.drop_last() =~= p); assert(q.last() == t[n]);
    if n > 0 { assert(p.last() == t[n - 1]); }
}
pub proof fn render_push(ps: Seq<Piece>, p: Piece) ensures render(ps.push(p)) == render(ps) + text(p) { assert(ps.push(p).drop_last() =~= ps); }
pub proof fn pieces_push(cs: Seq<Component>, c: Component) ensures pieces(cs.push(c)) == pieces(cs).push(piece(c)) { assert(pieces(cs.push(c)) =~= pieces(cs).push(piece(c))); }
pub proof fn wf_push(ps: Seq<Piece>, p: Piece)
    requires pre_wf(ps), piece_ok(p), ps.len() == 0 ==> p is Lit && p->Lit_0[0] == '/', ps.len() > 0 ==> !(p is Lit && ps.last() is Lit)
    ensures wf(ps.push(p))
{
    let q = ps.push(p);
    assert forall|i: int| 0 <= i < q.len() implies piece_ok(#[trigger] q[i]) by { if i < ps.len() { assert(q[i] == ps[i]); } }
    assert forall|i: int| 0 < i < q.len() implies !((#[trigger] q[i]) is Lit && q[i - 1] is Lit) by { if i < ps.len() { assert(q[i] == ps[i] && q[i - 1] == ps[i - 1]); } else { assert(q[i - 1] == ps[i - 1]); } }
}
'''

TRANS = r'''
pub open spec fn in_const(p: Seq<char>, ps: Seq<Piece>, a: Seq<char>) -> bool {
    p.len() > 0 && p[0] == '/' && scan(p) == Sc::Out && pre_wf(ps) && (ps.len() > 0 ==> ps.last() is Par) && a.len() > 0 && plain(a) && single(a)
    && (ps.len() == 0 ==> a[0] == '/') && a.last() == p.last() && render(ps) + a == norm(p)
}
pub open spec fn after_par(p: Seq<char>, ps: Seq<Piece>) -> bool {
    p.len() > 0 && p[0] == '/' && scan(p) == Sc::Out && wf(ps) && ps.last() is Par && render(ps) == norm(p) && p.last() == '}'
}
pub open spec fn in_par(p: Seq<char>, ps: Seq<Piece>, a: Seq<char>) -> bool {
    p.len() > 0 && p[0] == '/' && wf(ps) && (forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != '}')
    && (if a.contains('/') || a.contains('{') { scan(p) == Sc::Bad } else { scan(p) == Sc::In && render(ps) + seq!['{'] + a == norm(p) })
}
pub proof fn trans(t: Seq<char>, n: int, ps: Seq<Piece>, a: Seq<char>)
    requires 0 <= n < t.len(),
    ensures
        n == 0 ==> if t[n] == '/' { in_const(t.take(n + 1), Seq::empty(), seq!['/']) } else { !accept(t) },
        after_par(t.take(n), ps) ==> if t[n] == '{' { in_par(t.take(n + 1), ps, Seq::empty()) } else if t[n] == '}' { !accept(t) } else { in_const(t.take(n + 1), ps, seq![t[n]]) },
        in_const(t.take(n), ps, a) ==> if t[n] == '{' { in_par(t.take(n + 1), ps.push(Piece::Lit(a)), Seq::empty()) } else if t[n] == '}' { !accept(t) }
            else if t[n] == '/' && a.last() == '/' { in_const(t.take(n + 1), ps, a) } else { in_const(t.take(n + 1), ps, a.push(t[n])) },
        in_par(t.take(n), ps, a) ==> if t[n] == '}' { if a.contains('/') || a.contains('{') { !accept(t) } else { after_par(t.take(n + 1), ps.push(Piece::Par(a))) } }
            else { in_par(t.take(n + 1), ps, a.push(t[n])) },
{
    let p = t.take(n); let q = t.take(n + 1); let c = t[n];
    take_step(t, n);
    assert(q.last() == c); assert(q[0] == t[0]);
    if n > 0 { assert(p.last() == t[n - 1]); assert(p[0] == t[0]); }
    if scan(q) is Bad { bad_prefix(t, n + 1); }
    if n == 0 { assert(p =~= Seq::empty()); reveal_with_fuel(norm, 2); assert(norm(q) =~= seq!['/'] || c != '/'); assert(render(Seq::empty()) + seq!['/'] =~= seq!['/']); }
    if after_par(p, ps) {
        if c == '{' { assert(render(ps) + seq!['{'] + Seq::<char>::empty() =~= norm(p).push(c)); }
        else if c != '}' { assert(render(ps) + seq![c] =~= norm(p).push(c)); }
    }
    if in_const(p, ps, a) {
        if c == '{' {
            wf_push(ps, Piece::Lit(a)); render_push(ps, Piece::Lit(a));
            assert(render(ps.push(Piece::Lit(a))) + seq!['{'] + Seq::<char>::empty() =~= norm(p).push(c));
        } else if c != '}' && !(c == '/' && a.last() == '/') {
            let b = a.push(c);
            assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != '{' && b[i] != '}' by { if i < a.len() { assert(b[i] == a[i]); } }
            assert forall|i: int| 0 < i < b.len() implies !(#[trigger] b[i] == '/' && b[i - 1] == '/') by { if i < a.len() { assert(b[i] == a[i] && b[i - 1] == a[i - 1]); } else { assert(b[i - 1] == a.last()); } }
            assert(render(ps) + b =~= (render(ps) + a).push(c));
        }
    }
    if in_par(p, ps, a) {
        if c == '}' {
            if !(a.contains('/') || a.contains('{')) {
                assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != '{' && a[i] != '}' && a[i] != '/' by { assert(a.contains(a[i])); }
                wf_push(ps, Piece::Par(a)); render_push(ps, Piece::Par(a));
                assert(ps.push(Piece::Par(a)).last() == Piece::Par(a));
                assert(render(ps) + (seq!['{'] + a + seq!['}']) =~= (render(ps) + seq!['{'] + a).push('}'));
            }
        } else {
            let b = a.push(c);
            assert(b.last() == c);
            if c == '/' { assert(b.contains('/')); }
            if c == '{' { assert(b.contains('{')); }
            if a.contains('/') { let i = choose|i: int| 0 <= i < a.len() && a[i] == '/'; assert(b[i] == '/'); }
            if a.contains('{') { let i = choose|i: int| 0 <= i < a.len() && a[i] == '{'; assert(b[i] == '{'); }
            if b.contains('/') && c != '/' { let i = choose|i: int| 0 <= i < b.len() && b[i] == '/'; assert(a[i] == '/'); }
            if b.contains('{') && c != '{' { let i = choose|i: int| 0 <= i < b.len() && b[i] == '{'; assert(a[i] == '{'); }
            assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != '}' by { if i < a.len() { assert(b[i] == a[i]); } }
            assert(render(ps) + seq!['{'] + b =~= (render(ps) + seq!['{'] + a).push(c));
        }
    }
}
pub proof fn finish(t: Seq<char>, ps: Seq<Piece>, a: Seq<char>)
    ensures
        in_const(t, ps, a) ==> accept(t) && wf(ps.push(Piece::Lit(a))) && render(ps.push(Piece::Lit(a))) == norm(t),
        after_par(t, ps) ==> accept(t) && wf(ps) && render(ps) == norm(t),
        in_par(t, ps, a) ==> !accept(t),
{
    if in_const(t, ps, a) { wf_push(ps, Piece::Lit(a)); render_push(ps, Piece::Lit(a)); }
}
'''


def lib_error(w, src):
    it = src.lib.find('enum', 'Error')
    v = w.variants.__func__(type('X', (), {'src': src.lib})(), it)
    if not re.match(r'\s*String\s*$', str(v.get('InvalidPath', ''))):
        raise Lost('Error::InvalidPath')
    ty = {'String': 'String', 'serde_json::Value': 'Opaque', 'typify::Error': 'Opaque'}
    vs = []
    for k, p in v.items():
        if not p:
            vs.append(k)
            continue
        if p == '{':
            raise Lost('Error variant with fields')
        vs.append(k + '(' + ', '.join(ty.get(re.sub(r'#\[[^\]]*\]\s*|\s', '', x), 'Opaque') for x in p.split(',') if x.strip()) + ')')
    w.raw('#[verifier::external_body]\npub struct Opaque(());\npub enum Error { ' + ', '.join(vs) + ' }\npub type Result<T> = std::result::Result<T, Error>;\n')


def common(src, probe, prop):
    w = Weave(src, prop)
    w.probe = probe
    w.raw(S.HEAD + S.STR + S.ITER + S.QUOTE)
    lib_error(w, src)
    w.glob_subst = [(r'HashMap<&String, &String>', 'RenameMap')]
    vs = w.enum('Component', expect=['Constant', 'Parameter'])
    if {k: re.sub(r'\s', '', v) if isinstance(v, str) else v for k, v in vs.items()} != {'Constant': 'String', 'Parameter': 'String'}:
        raise Lost('shape of Component')
    w.struct('PathTemplate', {'comps': 'Vec<Component>'})
    w.raw(MODEL)
    w.raw('impl PathTemplate { pub open spec fn ps(self) -> Seq<Piece> { pieces(self.%s@) } }\n' % w.names['comps'])
    return w


def parse_contract(tag):
    P = '$p0@.take(it.index() as int)'
    ok = ('$p0@', )
    return C(
        ens=[(tag + '.accepts-exactly', 'r is Ok == accept($p0@)'),
             (tag + '.pieces', 'r matches Ok(ok) ==> wf(ok.ps())'),
             (tag + '.no-text-lost', 'r matches Ok(ok) ==> render(ok.ps()) == norm($p0@)'),
             (tag + '.error-kind', 'r matches Err(e) ==> e is InvalidPath')],
        locals=dict(cs=r'let\s+mut\s+(\w+)\s*=\s*Vec::new', a=r'let\s+mut\s+(\w+)\s*=\s*String::new', st=r'let\s+mut\s+(\w+)\s*=\s*State::Start', ch=r'for\s+(\w+)\s+in'),
        loops=[dict(kind='for', inv=[
            (tag + '.whole-text', 'it.seq() == $p0@'),
            (tag + '.at-start', '$st is Start ==> it.index() == 0 && $cs@.len() == 0'),
            (tag + '.past-start', '!($st is Start) ==> it.index() > 0'),
            (tag + '.in-literal', f'$st is Constant ==> in_const({P}, pieces($cs@), $a@)'),
            (tag + '.after-parameter', f'$st is ConstantOrParameter ==> after_par({P}, pieces($cs@))'),
            (tag + '.in-parameter', f'$st is Parameter ==> in_par({P}, pieces($cs@), $a@)')],
            body_start='''proof {
                trans($p0@, it.index() as int, pieces($cs@), $a@);
                pieces_push($cs@, Component::Constant($a)); pieces_push($cs@, Component::Parameter($a));
                assert(pieces(Seq::<Component>::empty()) =~= Seq::<Piece>::empty());
                assert($cs@.len() == 0 ==> pieces($cs@) =~= Seq::<Piece>::empty());
            }''',
            after='''proof {
                assert($p0@.take($p0@.len() as int) =~= $p0@);
                finish($p0@, pieces($cs@), $a@);
                pieces_push($cs@, Component::Constant($a));
            }''')],
        fmt={'format': S.fmt_format})


FOLD = r'''
pub broadcast proof fn fold_render(r: String, ps: Seq<Piece>)
    requires (#[trigger] accs(r)).len() == ps.len() + 1, accs(r)[0]@ == Seq::<char>::empty(), accs(r).last() == r,
        forall|i: int| 0 <= i < ps.len() ==> accs(r)[i + 1]@ == (#[trigger] accs(r)[i])@ + text(ps[i])
    ensures r@ == #[trigger] render(ps)
{ fold_upto(accs(r), ps, ps.len() as int); assert(ps.take(ps.len() as int) =~= ps); }
proof fn fold_upto(a: Seq<String>, ps: Seq<Piece>, n: int)
    requires a.len() == ps.len() + 1, a[0]@ == Seq::<char>::empty(), 0 <= n <= ps.len(),
        forall|i: int| 0 <= i < ps.len() ==> a[i + 1]@ == (#[trigger] a[i])@ + text(ps[i])
    ensures a[n]@ == render(ps.take(n)) decreases n
{
    if n > 0 { fold_upto(a, ps, n - 1); assert(ps.take(n).drop_last() =~= ps.take(n - 1)); assert(a[n - 1 + 1]@ == a[n - 1]@ + text(ps[n - 1])); }
}
'''

ROUND = r'''
proof fn scan_plain(x: Seq<char>, s: Seq<char>) requires scan(x) == Sc::Out, plain(s) ensures scan(x + s) == Sc::Out decreases s.len() {
    if s.len() == 0 { assert(x + s =~= x); }
    else { assert(plain(s.drop_last())); scan_plain(x, s.drop_last()); assert((x + s).drop_last() =~= x + s.drop_last()); assert((x + s).last() == s.last()); }
}
proof fn scan_name(x: Seq<char>, s: Seq<char>) requires scan(x) == Sc::In, name_ok(s) ensures scan(x + s) == Sc::In decreases s.len() {
    if s.len() == 0 { assert(x + s =~= x); }
    else { assert(name_ok(s.drop_last())); scan_name(x, s.drop_last()); assert((x + s).drop_last() =~= x + s.drop_last()); assert((x + s).last() == s.last()); }
}
proof fn norm_step(x: Seq<char>, c: char) requires c == '/' ==> x.len() == 0 || x.last() != '/' ensures norm(x.push(c)) == norm(x).push(c) { assert(x.push(c).drop_last() =~= x); }
proof fn norm_plain(x: Seq<char>, s: Seq<char>)
    requires norm(x) == x, single(s), s.len() > 0 && x.len() > 0 && s[0] == '/' ==> x.last() != '/'
    ensures norm(x + s) == x + s decreases s.len()
{
    if s.len() == 0 { assert(x + s =~= x); }
    else {
        let d = s.drop_last();
        assert forall|i: int| 0 < i < d.len() implies !(#[trigger] d[i] == '/' && d[i - 1] == '/') by { assert(s[i] == d[i] && s[i - 1] == d[i - 1]); }
        norm_plain(x, d);
        assert(x + s =~= (x + d).push(s.last()));
        if d.len() > 0 { assert((x + d).last() == s[s.len() - 2]); assert(!(s[s.len() - 1] == '/' && s[s.len() - 1 - 1] == '/')); } else { assert(x + d =~= x); assert(s.last() == s[0]); }
        norm_step(x + d, s.last());
    }
}
proof fn norm_par(x: Seq<char>, s: Seq<char>) requires norm(x) == x, scan(x) == Sc::Out, name_ok(s)
    ensures norm(x + text(Piece::Par(s))) == x + text(Piece::Par(s)), scan(x + text(Piece::Par(s))) == Sc::Out
{
    let y = x.push('{'); norm_step(x, '{'); scan_push(x, '{');
    scan_name(y, s);
    if s.len() > 0 { assert(s[0] != '/'); }
    assert forall|i: int| 0 < i < s.len() implies !(#[trigger] s[i] == '/' && s[i - 1] == '/') by { assert(s[i] != '/'); }
    norm_plain(y, s);
    norm_step(y + s, '}'); scan_push(y + s, '}');
    assert(x + text(Piece::Par(s)) =~= (y + s).push('}'));
}
pub proof fn render_ok(ps: Seq<Piece>) requires pre_wf(ps)
    ensures scan(render(ps)) == Sc::Out, norm(render(ps)) == render(ps), ps.len() > 0 ==> render(ps).len() > 0 && render(ps)[0] == '/' && (ps.last() is Par ==> render(ps).last() == '}')
    decreases ps.len()
{
    if ps.len() > 0 {
        let q = ps.drop_last(); let l = ps.last();
        assert forall|i: int| 0 <= i < q.len() implies piece_ok(#[trigger] q[i]) by { assert(ps[i] == q[i]); }
        assert forall|i: int| 0 < i < q.len() implies !((#[trigger] q[i]) is Lit && q[i - 1] is Lit) by { assert(ps[i] == q[i] && ps[i - 1] == q[i - 1]); }
        render_ok(q);
        assert(piece_ok(ps[ps.len() - 1]));
        let x = render(q);
        match l {
            Piece::Lit(s) => { scan_plain(x, s); if q.len() > 0 { assert(!(ps[ps.len() - 1] is Lit && ps[ps.len() - 1 - 1] is Lit)); assert(q.last() is Par); } else { assert(x + s =~= s); } norm_plain(x, s); if q.len() > 0 { assert((x + s)[0] == x[0]); } }
            Piece::Par(s) => { norm_par(x, s); assert((x + text(l)).last() == '}'); if q.len() > 0 { assert((x + text(l))[0] == x[0]); } }
        }
    }
}
/// the part after the last c is determined
proof fn split_last(x: Seq<char>, s: Seq<char>, y: Seq<char>, t: Seq<char>, c: char)
    requires x + s == y + t, !s.contains(c), !t.contains(c), x.len() == 0 || x.last() == c, y.len() == 0 || y.last() == c
    ensures x == y, s == t
{
    let z = x + s;
    if x.len() < y.len() { assert(z[y.len() - 1] == y.last()); assert(s[y.len() - 1 - x.len()] == (x + s)[y.len() - 1]); assert(s.contains(c)); }
    if y.len() < x.len() { assert((y + t)[x.len() - 1] == t[x.len() - 1 - y.len()]); assert((x + s)[x.len() - 1] == x.last()); assert(t.contains(c)); }
    assert(x =~= z.take(x.len() as int)); assert(y =~= (y + t).take(x.len() as int));
    assert(s =~= z.skip(x.len() as int)); assert(t =~= (y + t).skip(x.len() as int));
}
pub proof fn render_inj(a: Seq<Piece>, b: Seq<Piece>) requires pre_wf(a), pre_wf(b), render(a) == render(b) ensures a == b decreases a.len() {
    render_ok(a); render_ok(b);
    if a.len() == 0 || b.len() == 0 { assert(a =~= b); }
    else {
        let a0 = a.drop_last(); let b0 = b.drop_last(); let al = a.last(); let bl = b.last();
        assert forall|i: int| 0 <= i < a0.len() implies piece_ok(#[trigger] a0[i]) by { assert(a[i] == a0[i]); }
        assert forall|i: int| 0 < i < a0.len() implies !((#[trigger] a0[i]) is Lit && a0[i - 1] is Lit) by { assert(a[i] == a0[i] && a[i - 1] == a0[i - 1]); }
        assert forall|i: int| 0 <= i < b0.len() implies piece_ok(#[trigger] b0[i]) by { assert(b[i] == b0[i]); }
        assert forall|i: int| 0 < i < b0.len() implies !((#[trigger] b0[i]) is Lit && b0[i - 1] is Lit) by { assert(b[i] == b0[i] && b[i - 1] == b0[i - 1]); }
        assert(piece_ok(a[a.len() - 1]) && piece_ok(b[b.len() - 1]));
        render_ok(a0); render_ok(b0);
        let x = render(a0); let y = render(b0);
        match (al, bl) {
            (Piece::Lit(s), Piece::Lit(t)) => {
                if a0.len() > 0 { assert(!(a[a.len() - 1] is Lit && a[a.len() - 1 - 1] is Lit)); assert(a0.last() is Par); }
                if b0.len() > 0 { assert(!(b[b.len() - 1] is Lit && b[b.len() - 1 - 1] is Lit)); assert(b0.last() is Par); }
                split_last(x, s, y, t, '}');
            }
            (Piece::Par(s), Piece::Par(t)) => {
                let x2 = x.push('{'); let y2 = y.push('{'); let s2 = s.push('}'); let t2 = t.push('}');
                assert(x2 + s2 =~= x + text(al)); assert(y2 + t2 =~= y + text(bl));
                split_last(x2, s2, y2, t2, '{');
                assert(x =~= x2.drop_last()); assert(y =~= y2.drop_last()); assert(s =~= s2.drop_last()); assert(t =~= t2.drop_last());
            }
            (Piece::Lit(s), Piece::Par(t)) => { assert((x + s).last() == s.last()); assert(s[s.len() - 1] != '}'); }
            (Piece::Par(s), Piece::Lit(t)) => { assert((y + t).last() == t.last()); assert(t[t.len() - 1] != '}'); }
        }
        render_inj(a0, b0);
        assert(a =~= a0.push(al)); assert(b =~= b0.push(bl));
    }
}
/// the property itself, from the contracts of parse and to_string alone
pub fn print_then_parse(path: &str) {
    if let Ok(t) = parse(path) {
        let printed = t.to_string();
        proof { render_ok(t.ps()); }
        match parse(&printed) {
            Ok(u) => {
                proof { render_inj(u.ps(), t.ps()); }
                assert(u.ps() == t.ps()); /*@G02.same-template@*/
                let again = u.to_string();
                assert(again@ == printed@); /*@G02.same-text@*/
            }
            Err(e) => { assert(false); /*@G02.printed-text-parses@*/ }
        }
    }
}
'''


def build_G01(src, probe):
    w = common(src, probe, 'G01')
    w.raw(TRANS)
    w.fn('parse', parse_contract('G01'))
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


ITERS = [(r'\.iter\(\)(?=\s*\.)', '.vp_iter()'), (r'\b(\w+) \+ &(\w+)\b', r'vstr::add(\1, &\2)')]


def to_string_contract(tag):
    return C(
        ens=[(tag + '.print', 'r@ == render(self.ps())')],
        closures=[dict(ret='String', ens='cr@ == text(piece(*$c0))'), dict(ret='String', ens='cr@ == $c0@ + $c1@')],
        start='broadcast use fold_render;', subst=ITERS, fmt={'format': S.fmt_format})


def build_G02(src, probe):
    w = common(src, probe, 'G02')
    w.raw(TRANS + FOLD)
    w.fn('parse', parse_contract('G02'))
    w.fn('to_string', to_string_contract('G02'), ty='PathTemplate', as_inherent=True)
    w.auto_helpers()
    w.raw(ROUND + S.TAIL)
    return w


NAMES = r'''
pub open spec fn names_of(ps: Seq<Piece>) -> Seq<Seq<char>> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { match ps.last() { Piece::Par(n) => names_of(ps.drop_last()).push(n), Piece::Lit(_) => names_of(ps.drop_last()) } }
}
pub broadcast proof fn flat_names(o: Seq<Option<String>>, ps: Seq<Piece>)
    requires o.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> match #[trigger] o[i] { Some(s) => ps[i] == Piece::Par(s@), None => ps[i] is Lit }
    ensures views(#[trigger] flat(o)) == #[trigger] names_of(ps)
    decreases ps.len()
{
    if ps.len() > 0 {
        let o0 = o.drop_last(); let p0 = ps.drop_last();
        assert forall|i: int| 0 <= i < p0.len() implies match #[trigger] o0[i] { Some(s) => p0[i] == Piece::Par(s@), None => p0[i] is Lit } by { assert(o[i] == o0[i] && ps[i] == p0[i]); }
        flat_names(o0, p0);
        assert(o[o.len() - 1] == o.last());
    }
    assert(views(flat(o)) =~= names_of(ps));
}
'''

WILD = r'''
pub open spec fn wild_text(p: Piece) -> Seq<char> { match p { Piece::Lit(s) => s, Piece::Par(_) => "[^/]*"@ } }
pub open spec fn param_text(p: Piece, want: Seq<char>) -> Seq<char> { match p { Piece::Lit(s) => s, Piece::Par(n) => if n == want { "{}"@ } else { ".*"@ } } }
pub open spec fn wild(ps: Seq<Piece>) -> Seq<char> { concat(ps.map_values(|p: Piece| wild_text(p))) }
pub open spec fn wild_param(ps: Seq<Piece>, want: Seq<char>) -> Seq<char> { concat(ps.map_values(|p: Piece| param_text(p, want))) }
pub broadcast proof fn concat_wild(s: Seq<String>, ps: Seq<Piece>)
    requires s.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] s[i])@ == wild_text(ps[i])
    ensures #[trigger] concat(views(s)) == #[trigger] wild(ps)
{ assert(s.map_values(|x: String| x@) =~= ps.map_values(|p: Piece| wild_text(p))); }
pub broadcast proof fn concat_wild_param(s: Seq<String>, ps: Seq<Piece>, want: Seq<char>)
    requires s.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] s[i])@ == param_text(ps[i], want)
    ensures #[trigger] concat(views(s)) == #[trigger] wild_param(ps, want)
{ assert(s.map_values(|x: String| x@) =~= ps.map_values(|p: Piece| param_text(p, want))); }
'''

COMPILE = r'''
#[verifier::external_body]
pub struct RenameMap(());
impl View for RenameMap { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl RenameMap {
    #[verifier::external_body]
    pub fn get(&self, k: &&String) -> (r: Option<&String>)
        ensures match r { Some(v) => self@.contains_key(k@) && v@ == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
}
pub open spec fn fmt_text(p: Piece) -> Seq<char> { match p { Piece::Lit(s) => s, Piece::Par(_) => "{}"@ } }
pub open spec fn fmt_of(ps: Seq<Piece>) -> Seq<char> decreases ps.len() { if ps.len() == 0 { "{}"@ } else { fmt_of(ps.drop_last()) + fmt_text(ps.last()) } }
pub open spec fn arg(id: Seq<char>) -> Seq<Tok> { seq![Tok::Lit("encode_path ( &"@), Tok::Id(id), Tok::Lit(". to_string ( ) )"@)] }
pub open spec fn args(names: Seq<Seq<char>>, rename: Map<Seq<char>, Seq<char>>) -> Seq<Tok> {
    vq::joined(names.map_values(|n: Seq<char>| arg(rename[n])), ","@, ""@)
}
pub open spec fn call(ps: Seq<Piece>, rename: Map<Seq<char>, Seq<char>>, client: Seq<Tok>) -> Seq<Tok> {
    seq![Tok::Lit("format ! ("@), Tok::Str(fmt_of(ps)), Tok::Lit(","@)] + client + seq![Tok::Lit(". baseurl ,"@)] + args(names_of(ps), rename) + seq![Tok::Lit(")"@)]
}
pub proof fn fmt_push(cs: Seq<Component>, n: int) requires 0 <= n < cs.len()
    ensures fmt_of(pieces(cs.take(n + 1))) == fmt_of(pieces(cs.take(n))) + fmt_text(piece(cs[n]))
{ assert(pieces(cs.take(n + 1)).drop_last() =~= pieces(cs.take(n))); assert(pieces(cs.take(n + 1)).last() == piece(cs[n])); }
pub broadcast proof fn flat_args(o: Seq<Option<TokenStream>>, ps: Seq<Piece>, rename: Map<Seq<char>, Seq<char>>)
    requires o.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> match #[trigger] o[i] { Some(s) => ps[i] is Par && s@ == arg(rename[ps[i]->Par_0]), None => ps[i] is Lit }
    ensures vq::joined(vq::toks(#[trigger] flat(o)), ","@, ""@) == #[trigger] args(names_of(ps), rename)
{
    flat_args_ind(o, ps, rename);
    assert(vq::toks(flat(o)) =~= names_of(ps).map_values(|n: Seq<char>| arg(rename[n])));
}
proof fn flat_args_ind(o: Seq<Option<TokenStream>>, ps: Seq<Piece>, rename: Map<Seq<char>, Seq<char>>)
    requires o.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> match #[trigger] o[i] { Some(s) => ps[i] is Par && s@ == arg(rename[ps[i]->Par_0]), None => ps[i] is Lit }
    ensures flat(o).len() == names_of(ps).len(), forall|i: int| 0 <= i < flat(o).len() ==> (#[trigger] flat(o)[i])@ == arg(rename[names_of(ps)[i]])
    decreases ps.len()
{
    if ps.len() > 0 {
        let o0 = o.drop_last(); let p0 = ps.drop_last();
        assert forall|i: int| 0 <= i < p0.len() implies match #[trigger] o0[i] { Some(s) => p0[i] is Par && s@ == arg(rename[p0[i]->Par_0]), None => p0[i] is Lit } by { assert(o[i] == o0[i] && ps[i] == p0[i]); }
        flat_args_ind(o0, p0, rename);
        assert(o[o.len() - 1] == o.last());
    }
}
/// the format text of a parsed template opens as many slots as there are arguments: the base URL and one per parameter
pub open spec fn opens(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { opens(s.drop_last()) + if s.last() == '{' { 1nat } else { 0 } } }
pub proof fn opens_add(a: Seq<char>, b: Seq<char>) ensures opens(a + b) == opens(a) + opens(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { opens_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn opens_plain(s: Seq<char>) requires plain(s) ensures opens(s) == 0 decreases s.len() { if s.len() > 0 { assert(plain(s.drop_last())); opens_plain(s.drop_last()); assert(s[s.len() - 1] != '{'); } }
pub proof fn slots_match(ps: Seq<Piece>) requires forall|i: int| 0 <= i < ps.len() ==> piece_ok(#[trigger] ps[i])
    ensures opens(fmt_of(ps)) == 1 + names_of(ps).len() decreases ps.len()
{
    reveal_strlit("{}"); assert("{}"@ =~= seq!['{', '}']); assert("{}"@.drop_last() =~= seq!['{']); assert(seq!['{'].drop_last() =~= Seq::<char>::empty());
    reveal_with_fuel(opens, 4);
    assert(opens("{}"@) == 1);
    if ps.len() > 0 {
        let q = ps.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies piece_ok(#[trigger] q[i]) by { assert(ps[i] == q[i]); }
        slots_match(q); opens_add(fmt_of(q), fmt_text(ps.last())); assert(piece_ok(ps[ps.len() - 1]));
        match ps.last() { Piece::Lit(s) => opens_plain(s), Piece::Par(_) => {} }
    }
}
'''

EXPECT = [(r'\.expect\(\s*&format!\([^()]*\)\s*,?\s*\)', '.expect("_")')]


def build_G03(src, probe):
    w = common(src, probe, 'G03')
    w.raw(NAMES)
    w.fn('names', C(ens=[('G03.names', 'views(r@) == names_of(self.ps())')],
                    closures=[dict(ret='Option<String>', ens='match cr { Some(s) => piece(*$c0) == Piece::Par(s@), None => piece(*$c0) is Lit }')],
                    start='broadcast use flat_names;', subst=ITERS), ty='PathTemplate')
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


def build_G04(src, probe):
    w = common(src, probe, 'G04')
    w.raw(WILD)
    lit = 'reveal_strlit("[^/]*"); reveal_strlit("{}"); reveal_strlit(".*");'
    w.fn('as_wildcard', C(ens=[('G04.wildcard', "r@ == seq!['^'] + wild(self.ps()) + seq!['$']")],
                          closures=[dict(ret='String', ens='cr@ == wild_text(piece(*$c0))')],
                          start='broadcast use concat_wild;', subst=ITERS, fmt={'format': S.fmt_format}), ty='PathTemplate')
    w.fn('as_wildcard_param', C(ens=[('G04.one-parameter', "r@ == seq!['^'] + wild_param(self.ps(), $p0@) + seq!['$']")],
                                closures=[dict(ret='String', ens='cr@ == param_text(piece(*$c0), $p0@)')],
                                start='broadcast use concat_wild_param;', subst=ITERS, fmt={'format': S.fmt_format}), ty='PathTemplate')
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


def build_G05(src, probe):
    w = common(src, probe, 'G05')
    w.raw(NAMES + COMPILE)
    comps = 'self.' + w.names['comps']
    w.fn('compile', C(
        req=[('G05.renamed', 'forall|i: int| 0 <= i < ' + comps + '@.len() ==> match piece(#[trigger] ' + comps + '@[i]) { Piece::Par(n) => $p0@.contains_key(n), Piece::Lit(_) => true }')],
        ens=[('G05.call', 'r@ == call(self.ps(), $p0@, $p1@)')],
        locals=dict(fmt=r'let\s+mut\s+(\w+)\s*=\s*String::new'),
        loops=[dict(kind='for', inv=[('G05.components', f'it.seq().len() == {comps}@.len() && forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == {comps}@[i]'),
                                     ('G05.format-text', f'$fmt@ == fmt_of(pieces({comps}@.take(it.index() as int)))')],
                    before=f'proof {{ assert({comps}@.take(0) =~= Seq::empty()); assert(pieces(Seq::<Component>::empty()) =~= Seq::<Piece>::empty()); assert(Seq::<char>::empty() + "{{}}"@ =~= "{{}}"@); }}',
                    body_start=f'proof {{ fmt_push({comps}@, it.index() as int); }}',
                    after=f'proof {{ assert({comps}@.take({comps}@.len() as int) =~= {comps}@); }}')],
        closures=[dict(ret='Option<TokenStream>', req='piece(*$c0) is Par ==> $p0@.contains_key(piece(*$c0)->Par_0)',
                       ens='match cr { Some(t) => piece(*$c0) is Par && t@ =~= arg($p0@[piece(*$c0)->Par_0]), None => piece(*$c0) is Lit }')],
        start='broadcast use flat_args;', subst=ITERS + EXPECT, fmt={'format_ident': S.fmt_ident}, quote=True), ty='PathTemplate')
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


BUILD = {'G01': build_G01, 'G02': build_G02, 'G03': build_G03, 'G04': build_G04, 'G05': build_G05}
