"""C02, C03, C04: the query-parameter serializer of progenitor-client."""
import re
from vp.weave import Weave, C
from vp.rustlex import Src, Lost, base
from . import client_stubs as S

FILE = 'progenitor-client/src/progenitor_client.rs'

SCALARS = [('bool', 'bool', 'Bool', 'v'), ('i8', 'i8', 'I8', 'v'), ('i16', 'i16', 'I16', 'v'), ('i32', 'i32', 'I32', 'v'),
           ('i64', 'i64', 'I64', 'v'), ('u8', 'u8', 'U8', 'v'), ('u16', 'u16', 'U16', 'v'), ('u32', 'u32', 'U32', 'v'),
           ('u64', 'u64', 'U64', 'v'), ('f32', 'f32', 'F32', 'v'), ('f64', 'f64', 'F64', 'v'), ('char', 'char', 'Char', 'v'),
           ('str', '&str', 'Str', 'v@')]

DATA = '''pub enum Data { Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64), F32(f32), F64(f64),
    Char(char), Str(Seq<char>), Bytes(Seq<u8>), None, Some(Box<Data>), Unit, UnitStruct(Seq<char>),
    UnitVariant(Seq<char>, u32, Seq<char>), NewtypeStruct(Seq<char>, Box<Data>), NewtypeVariant(Seq<char>, u32, Seq<char>, Box<Data>),
    /// sequences, arrays and pairs
    List(Seq<Data>),
    /// structs, maps, tuples of another kind: described by the serializer methods they start with
    Compound(int) }
'''

# method, parameters, generics, contract over r, property group
OK = 'Result<Self::Ok, Self::Error>'


def table():
    t = []
    for n, ty, d, v in SCALARS:
        t.append((f'serialize_{n}', f'v: {ty}', '', OK, f'sem(Data::{d}({v}), r)', 'C02', ['v']))
    t += [
        ('serialize_some', 'value: &T', '<T: ?Sized + Serialize>', OK, 'sem(Data::Some(Box::new(value.data())), r)', 'C02', ['value']),
        ('serialize_unit_variant', "name: &'static str, i: u32, variant: &'static str", '', OK,
         'sem(Data::UnitVariant(name@, i, variant@), r)', 'C02', ['name', 'i', 'variant']),
        ('serialize_seq', 'len: Option<usize>', '', 'Result<Self::SerializeSeq, Self::Error>', 'seq_start(len, r)', 'C03', ['len']),
        ('serialize_bytes', 'v: &[u8]', '', OK, 'sem(Data::Bytes(v@), r)', 'C04', ['v']),
        ('serialize_none', '', '', OK, 'sem(Data::None, r)', 'C04', []),
        ('serialize_unit', '', '', OK, 'sem(Data::Unit, r)', 'C04', []),
        ('serialize_unit_struct', "name: &'static str", '', OK, 'sem(Data::UnitStruct(name@), r)', 'C04', ['name']),
        ('serialize_newtype_struct', "name: &'static str, value: &T", '<T: ?Sized + Serialize>', OK,
         'sem(Data::NewtypeStruct(name@, Box::new(value.data())), r)', 'C04', ['name', 'value']),
        ('serialize_newtype_variant', "name: &'static str, i: u32, variant: &'static str, value: &T", '<T: ?Sized + Serialize>', OK,
         'sem(Data::NewtypeVariant(name@, i, variant@, Box::new(value.data())), r)', 'C04', ['name', 'i', 'variant', 'value']),
        ('serialize_tuple', 'len: usize', '', 'Result<Self::SerializeTuple, Self::Error>', 'tuple_start(len, r)', 'C04', ['len']),
        ('serialize_tuple_struct', "name: &'static str, len: usize", '', 'Result<Self::SerializeTupleStruct, Self::Error>',
         'tuple_struct_start(name@, len, r)', 'C04', ['name', 'len']),
        ('serialize_tuple_variant', "name: &'static str, i: u32, variant: &'static str, len: usize", '',
         'Result<Self::SerializeTupleVariant, Self::Error>', 'tuple_variant_start(name@, i, variant@, len, r)', 'C04', ['name', 'i', 'variant', 'len']),
        ('serialize_map', 'len: Option<usize>', '', 'Result<Self::SerializeMap, Self::Error>', 'map_start(len, r)', 'C04', ['len']),
        ('serialize_struct', "name: &'static str, len: usize", '', 'Result<Self::SerializeStruct, Self::Error>', 'struct_start(name@, len, r)', 'C04', ['name', 'len']),
        ('serialize_struct_variant', "name: &'static str, i: u32, variant: &'static str, len: usize", '',
         'Result<Self::SerializeStructVariant, Self::Error>', 'struct_variant_start(name@, i, variant@, len, r)', 'C04', ['name', 'i', 'variant', 'len']),
    ]
    return t


ASSOC = ['SerializeTuple', 'SerializeTupleStruct', 'SerializeTupleVariant', 'SerializeMap', 'SerializeStructVariant']
STARTS = [('seq_start', 'len: Option<usize>', 'SerializeSeq'), ('tuple_start', 'len: usize', 'SerializeTuple'),
          ('tuple_struct_start', 'name: Seq<char>, len: usize', 'SerializeTupleStruct'),
          ('tuple_variant_start', 'name: Seq<char>, i: u32, variant: Seq<char>, len: usize', 'SerializeTupleVariant'),
          ('map_start', 'len: Option<usize>', 'SerializeMap'), ('struct_start', 'name: Seq<char>, len: usize', 'SerializeStruct'),
          ('struct_variant_start', 'name: Seq<char>, i: u32, variant: Seq<char>, len: usize', 'SerializeStructVariant')]


def serde_mod():
    o = 'pub mod serde {\nuse vstd::prelude::*;\n' + DATA
    o += r'''
pub mod ser {
use vstd::prelude::*;
use super::{Data, Serialize, Serializer};
pub trait SerializeSeq: Sized {
    type Ok; type Error;
    /// handing element d over gives r and leaves the serializer as post
    spec fn push(self, d: Data, r: Result<(), Self::Error>, post: Self) -> bool;
    spec fn fin(self, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_element<T>(&mut self, value: &T) -> (r: Result<(), Self::Error>) where T: ?Sized + Serialize
        ensures old(self).push(value.data(), r, *final(self));
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.fin(r);
}
pub trait SerializeStruct: Sized {
    type Ok; type Error;
    spec fn push(self, k: Seq<char>, d: Data, r: Result<(), Self::Error>, post: Self) -> bool;
    spec fn fin(self, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_field<T>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>) where T: ?Sized + Serialize
        ensures old(self).push(key@, value.data(), r, *final(self));
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.fin(r);
}
}
use ser::*;
pub trait Serialize { spec fn data(&self) -> Data; }
pub trait Serializer: Sized {
    type Ok; type Error;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
''' + ''.join(f'    type {a};\n' for a in ASSOC) + '''
    /// serializing a value that is d gives r
    spec fn sem(self, d: Data, r: Result<Self::Ok, Self::Error>) -> bool;
'''
    for n, ps, at in STARTS:
        o += f'    spec fn {n}(self, {ps}, r: Result<Self::{at}, Self::Error>) -> bool;\n'
    for n, ps, g, ret, ens, _, _ in table():
        o += f'    fn {n}{g}(self{", " + ps if ps else ""}) -> (r: {ret}) ensures self.{ens};\n'
    o += r'''}
/// handing the elements over one after the other, stopping at the first error, then ending, gives r
pub open spec fn drive<Q: SerializeSeq>(s: Q, items: Seq<Data>, r: Result<Q::Ok, Q::Error>) -> bool
    decreases items.len()
{
    if items.len() == 0 { s.fin(r) }
    else {
        exists|r0: Result<(), Q::Error>, post: Q| #[trigger] s.push(items[0], r0, post)
            && (match r0 { Ok(_) => drive(post, items.skip(1), r), Err(e) => r == Err::<Q::Ok, Q::Error>(e) })
    }
}
pub open spec fn list_sem<S: Serializer>(s: S, items: Seq<Data>, r: Result<S::Ok, S::Error>) -> bool {
    exists|len: Option<usize>, rs: Result<S::SerializeSeq, S::Error>| #[trigger] s.seq_start(len, rs)
        && (match rs { Ok(q) => drive(q, items, r), Err(e) => r == Err::<S::Ok, S::Error>(e) })
}
/// what serializing a value that is d with s means
pub open spec fn accepts<S: Serializer>(s: S, d: Data, r: Result<S::Ok, S::Error>) -> bool {
    match d { Data::List(items) => list_sem(s, items, r), Data::Compound(_) => true, _ => s.sem(d, r) }
}
pub trait SerializeExt: Serialize {
    fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) ensures accepts(s, self.data(), r);
}
impl<T: Serialize + ?Sized> SerializeExt for T {
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
}
impl<T: Serialize + ?Sized> Serialize for &T { open spec fn data(&self) -> Data { (**self).data() } }
impl<A: Serialize, B: Serialize> Serialize for (A, B) { open spec fn data(&self) -> Data { Data::List(seq![self.0.data(), self.1.data()]) } }
impl<A: Serialize> Serialize for [A; 1] { open spec fn data(&self) -> Data { Data::List(seq![self@[0].data()]) } }
impl<A: Serialize> Serialize for Option<A> {
    open spec fn data(&self) -> Data { match *self { Some(x) => Data::Some(Box::new(x.data())), None => Data::None } }
}
impl Serialize for str { open spec fn data(&self) -> Data { Data::Str(self@) } }
impl Serialize for String { open spec fn data(&self) -> Data { Data::Str(self@) } }
impl Serialize for () { open spec fn data(&self) -> Data { Data::Unit } }
'''
    for n, ty, d, v in SCALARS:
        if n != 'str':
            o += f'impl Serialize for {ty} {{ open spec fn data(&self) -> Data {{ Data::{d}(*self) }} }}\n'
    o += '}\nuse serde::{Data, Serialize, SerializeExt as _, Serializer as _, drive, list_sem, accepts};\n'
    o += 'use serde::ser::{SerializeStruct as _, SerializeSeq as _};\n'
    return o


QSPEC = r'''
pub open spec fn pair(name: Seq<char>, d: Data) -> Data { Data::List(seq![Data::Str(name), d]) }
pub open spec fn pairs(name: Seq<char>, items: Seq<Data>) -> Seq<Data> { items.map_values(|d: Data| pair(name, d)) }
pub open spec fn is_scalar(d: Data) -> bool {
    d is Bool || d is I8 || d is I16 || d is I32 || d is I64 || d is U8 || d is U16 || d is U32 || d is U64 || d is F32 || d is F64
    || d is Char || d is Str
}
/// exactly one field, named by the variant
pub open spec fn one_field<S: serde::Serializer>(inner: S, name: Seq<char>, k: Seq<char>, d: Data, r: Result<S::Ok, S::Error>) -> bool {
    exists|rs: Result<S::SerializeStruct, S::Error>| #[trigger] inner.struct_start(name, 1, rs)
        && (match rs {
            Ok(m) => exists|r0: Result<(), S::Error>, post: S::SerializeStruct| #[trigger] serde::ser::SerializeStruct::push(m, k, d, r0, post)
                && (match r0 { Ok(_) => serde::ser::SerializeStruct::fin(post, r), Err(e) => r == Err::<S::Ok, S::Error>(e) }),
            Err(e) => r == Err::<S::Ok, S::Error>(e),
        })
}
/// the property: what the query parameter `name` with a value that is d must do to the underlying serializer
pub open spec fn qsem<S: serde::Serializer>(inner: S, name: Seq<char>, d: Data, r: Result<S::Ok, S::Error>) -> bool
    decreases d
{
    match d {
        Data::Some(b) => qsem(inner, name, *b, r),
        Data::UnitVariant(_, _, v) => list_sem(inner, seq![pair(name, Data::Str(v))], r),
        Data::NewtypeVariant(n, _, v, b) => one_field(inner, n, v, *b, r),
        Data::List(items) => list_sem(inner, pairs(name, items), r),
        Data::Compound(_) => true,
        _ => if is_scalar(d) { list_sem(inner, seq![pair(name, d)], r) } else { inner.sem(d, r) },
    }
}
pub broadcast proof fn lemma_one(name: Seq<char>, d: Data)
    ensures #[trigger] pairs(name, seq![d]) == seq![pair(name, d)]
{ assert(pairs(name, seq![d]) =~= seq![pair(name, d)]); }
'''

LEMMA = r'''
/// driving a query sequence drives the underlying one with every element paired with the name, in order
pub proof fn lemma_drive<'a, Q: serde::ser::SerializeSeq>(s: QuerySeq<'a, Q>, items: Seq<Data>, r: Result<Q::Ok, Q::Error>)
    requires drive(s, items, r)
    ensures drive(s.%(i)s, pairs(s.%(n)s@, items), r)
    decreases items.len()
{
    let ps = pairs(s.%(n)s@, items);
    assert(ps.len() == items.len());
    if items.len() > 0 {
        let (r0, post) = choose|r0: Result<(), Q::Error>, post: QuerySeq<'a, Q>| #[trigger] s.push(items[0], r0, post)
            && (match r0 { Ok(_) => drive(post, items.skip(1), r), Err(e) => r == Err::<Q::Ok, Q::Error>(e) });
        assert(ps[0] == pair(s.%(n)s@, items[0]));
        assert(ps.skip(1) =~= pairs(s.%(n)s@, items.skip(1)));
        if r0 is Ok { lemma_drive(post, items.skip(1), r); }
        assert(s.%(i)s.push(ps[0], r0, post.%(i)s));
    }
}
pub broadcast proof fn lemma_accepts<'a, S: serde::Serializer>(q: QuerySerializer<'a, S>, d: Data, r: Result<S::Ok, S::Error>)
    requires #[trigger] accepts(q, d, r)
    ensures qsem(q.%(qi)s, q.%(qn)s@, d, r)
{
    if let Data::List(items) = d {
        let (len, rs) = choose|len: Option<usize>, rs: Result<QuerySeq<'a, S::SerializeSeq>, S::Error>| #[trigger] q.seq_start(len, rs)
            && (match rs { Ok(x) => drive(x, items, r), Err(e) => r == Err::<S::Ok, S::Error>(e) });
        match rs {
            Ok(x) => { lemma_drive(x, items, r); assert(q.%(qi)s.seq_start(len, Ok(x.%(i)s))); }
            Err(e) => { assert(q.%(qi)s.seq_start(len, Err(e))); }
        }
    }
}
'''


def build(prop):
    def go(src, probe=False):
        w = Weave(src, prop)
        w.probe = probe
        w.raw(S.HEAD)
        w.raw(serde_mod())
        w.raw(QSPEC)
        w.struct('QuerySerializer', {'qi': 'S', 'qn': r"&'a str"})
        w.struct('QuerySeq', {'i': 'S', 'n': r"&'a str"})
        w.struct('QueryParam', {'pn': r"&'a str", 'pv': r"&'a T"})
        N = w.names
        imp = [x for x in src.items if x.kind == 'impl' and x.trait and base(x.trait.split('::')[-1]) == 'Serializer' and base(x.self_ty) == 'QuerySerializer']
        if len(imp) != 1:
            raise Lost('impl Serializer for QuerySerializer')
        imp = imp[0]
        # associated types: what the start contracts speak about
        types = {c.name: src.text[c.a:c.b] for c in imp.children if c.kind == 'type'}
        # the trait impl, assumed; every method has the same contract as the extracted method below
        o = "impl<'a, S> serde::Serializer for QuerySerializer<'a, S> where S: serde::Serializer {\n"
        o += ''.join('    ' + t + '\n' for t in types.values())
        o += f"    open spec fn sem(self, d: Data, r: Result<Self::Ok, Self::Error>) -> bool {{ qsem(self.{N['qi']}, self.{N['qn']}@, d, r) }}\n"
        for n, ps, at in STARTS:
            args = ', '.join(p.split(':')[0] for p in ps.split(', '))
            if n == 'seq_start':
                body = (f"match r {{ Ok(s) => s.{N['n']}@ == self.{N['qn']}@ && self.{N['qi']}.seq_start(len, Ok(s.{N['i']})), "
                        f"Err(e) => self.{N['qi']}.seq_start(len, Err(e)) }}")
            else:
                body = f"self.{N['qi']}.{n}({args}, r)"
            o += f'    open spec fn {n}(self, {ps}, r: Result<Self::{at}, Self::Error>) -> bool {{ {body} }}\n'
        for n, ps, g, ret, ens, _, _ in table():
            o += f'    #[verifier::external_body] fn {n}{g}(self{", " + ps if ps else ""}) -> (r: {ret}) {{ unimplemented!() }}\n'
        o += '}\n'
        w.raw(o)
        # QuerySeq
        qi = [x for x in src.items if x.kind == 'impl' and x.trait and base(x.trait.split('::')[-1]) == 'SerializeSeq' and base(x.self_ty) == 'QuerySeq']
        if len(qi) != 1:
            raise Lost('impl SerializeSeq for QuerySeq')
        qi = qi[0]
        tys = '\n'.join(src.text[c.a:c.b] for c in qi.children if c.kind == 'type')
        qhead = f'impl{qi.generics} serde::ser::SerializeSeq for {qi.self_ty} {qi.where}'
        specs = (f"    open spec fn push(self, d: Data, r: Result<(), Self::Error>, post: Self) -> bool {{ post.{N['n']}@ == self.{N['n']}@ "
                 f"&& self.{N['i']}.push(pair(self.{N['n']}@, d), r, post.{N['i']}) }}\n"
                 f"    open spec fn fin(self, r: Result<Self::Ok, Self::Error>) -> bool {{ self.{N['i']}.fin(r) }}\n")
        w.raw(qhead + ' {\n' + tys + '\n' + specs)
        fns = {f.name: f for f in src.fns() if f.parent is qi}
        for n, tag, ens in (('serialize_element', 'C03.element', 'old(self).push($p0.data(), r, *final(self))'), ('end', 'C03.end', 'self.fin(r)')):
            if n not in fns:
                raise Lost(f'QuerySeq::{n}')
            if prop == 'C03':
                t = w.fn_text(fns[n], C(ens=[(tag, ens)]), f'QuerySeq::{n}')
                w.raw(re.sub(r'(?m)^pub ', '', t, count=1))
                w.contracted.append(f'QuerySeq::{n}')
                w.emitted_ids.add(id(fns[n]))
                w.emitted_src.append(fns[n])
            else:
                w.raw('#[verifier::external_body] fn serialize_element<T>(&mut self, value: &T) -> (r: Result<(), Self::Error>) where T: ?Sized + Serialize '
                      '{ unimplemented!() }' if n == 'serialize_element' else
                      '#[verifier::external_body] fn end(self) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }')
        w.raw('}\n')
        w.raw(LEMMA % N)
        # the methods under contract, as an inherent impl
        sub = [(r'\bSelf::(Ok|Error|Serialize\w+)\b', r'<Self as serde::Serializer>::\1')]
        qfns = {f.name: f for f in src.fns() if f.parent is imp}
        exp = {}
        for mname in sorted(set(c.name for c in imp.children if c.kind == 'macro_call')):
            for t in w.expand_macro(imp, mname):
                s2 = Src(t, 'expansion')
                for f in s2.fns():
                    exp[f.name] = (s2, f)
        hdr = f'impl{imp.generics} {imp.self_ty} {imp.where}'
        tgt = {'sem(': f'qsem(self.{N["qi"]}, self.{N["qn"]}@, '}
        known = set()
        for n, ps, g, ret, ens, grp, names in table():
            known.add(n)
            if grp != prop:
                continue
            if n.startswith('serialize_') and n in qfns:
                s2, f = src, qfns[n]
            elif n in exp:
                s2, f = exp[n]
            else:
                raise Lost(f'QuerySerializer::{n}')
            pn = [re.sub(r'^mut\s+', '', p) for p, _ in f.params]
            e = ens
            for i, a in enumerate(names):
                e = re.sub(r'\b' + a + r'\b', f'$p{i}', e)
            if e.startswith('sem('):
                e = tgt['sem('] + e[4:]
            else:
                e = f'<Self as serde::Serializer>::{e.split("(")[0]}(self, {e.split("(", 1)[1]}'
            old = w.src
            w.src = s2
            t = w.fn_text(f, C(ens=[(f'{prop}.{n[10:]}', e)], subst=sub, start='broadcast use {lemma_accepts, lemma_one};'), f'QuerySerializer::{n}')
            w.src = old
            w.raw(f'{hdr} {{\n{t}}}\n')
            w.contracted.append(f'QuerySerializer::{n}')
            if s2 is src:
                w.emitted_ids.add(id(f))
                w.emitted_src.append(f)
        for n in set(qfns) | set(exp):
            if n not in known:
                w.census.append((f'QuerySerializer::{n}', 'method without contract', 0, 1))
        w.emitted_types.add('QuerySerializer')
        w.fn('new', C(ens=[(f'{prop}.param.new', 'r.$pn == $p0 && r.$pv == $p1')]), ty='QueryParam')
        qp = [f for f in src.fns() if f.name == 'serialize' and f.parent and f.parent.trait and base(f.parent.self_ty) == 'QueryParam']
        if len(qp) != 1:
            raise Lost('impl Serialize for QueryParam')
        w.fn('serialize', C(ens=[(f'{prop}.param.serialize', 'qsem($p0, self.$pn@, self.$pv.data(), r)')], start='broadcast use lemma_accepts;'),
             ty='QueryParam', f=qp[0], as_inherent=True)
        w.auto_helpers(skip=('serialize', 'new', 'end'))
        w.raw(S.TAIL)
        return w
    return go


BUILD = {p: build(p) for p in ('C02', 'C03', 'C04')}
