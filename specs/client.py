"""Contracts for progenitor-client. One builder per property."""
import re
from vp.weave import Weave, C
from vp.rustlex import Src, Lost, base
from . import client_stubs as S

FILE = 'progenitor-client/src/progenitor_client.rs'
RV_FIELDS = {'inner': 'T', 'status': r'reqwest::StatusCode', 'headers': r'reqwest::header::HeaderMap'}
ERR = ['InvalidRequest', 'CommunicationError', 'InvalidUpgrade', 'ErrorResponse', 'ResponseBodyError',
       'InvalidResponsePayload', 'UnexpectedResponse', 'PreHookError', 'PostHookError']


def start(src, prop, probe=False):
    w = Weave(src, prop)
    w.probe = probe
    w.raw(S.HEAD)
    return w


def err_ctors(w, e='E'):
    for pre in ('Error', 'Self'):
        for v in ERR:
            w.ctors[f'{pre}::{v}'] = (f'Error<{e}>', f'Error::<{e}>::{v}')


def rv(w):
    w.struct('ResponseValue', RV_FIELDS)


def c05(src, probe=False):
    w = start(src, 'C05', probe)
    w.raw(S.HTTP)
    rv(w)
    w.enum('Error', expect=ERR)
    err_ctors(w)
    w.fn('from_response', C(
        ens=[('C05.decoded', '''response.s_bytes() is Ok && serde_json::s_decode::<T>(response.s_bytes()->Ok_0@) is Ok ==>
                r is Ok && r->Ok_0.$inner == serde_json::s_decode::<T>(response.s_bytes()->Ok_0@)->Ok_0'''.replace('response', '$p0')),
             ('C05.status', 'r is Ok ==> r->Ok_0.$status == $p0.s_status()'),
             ('C05.headers', 'r is Ok ==> r->Ok_0.$headers == $p0.s_headers()'),
             ('C05.undecodable', '''$p0.s_bytes() is Ok && serde_json::s_decode::<T>($p0.s_bytes()->Ok_0@) is Err ==>
                r is Err && r->Err_0 == Error::<E>::InvalidResponsePayload($p0.s_bytes()->Ok_0,
                    serde_json::s_decode::<T>($p0.s_bytes()->Ok_0@)->Err_0)'''),
             ('C05.unreadable', '''$p0.s_bytes() is Err ==>
                r is Err && r->Err_0 == Error::<E>::ResponseBodyError($p0.s_bytes()->Err_0)'''),
             ]), ty='ResponseValue')
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


def c06(src, probe=False):
    w = start(src, 'C06', probe)
    w.raw(S.HTTP)
    rv(w)
    w.enum('Error', expect=ERR)
    err_ctors(w)
    w.fn('upgrade', C(
        ens=[('C06.not_101', '''$p0.s_status().0 != 101 ==> r is Err && r->Err_0 == Error::<E>::UnexpectedResponse($p0)'''),
             ('C06.upgraded', '''$p0.s_status().0 == 101 && $p0.s_upgrade() is Ok ==> r is Ok && r->Ok_0.$inner == $p0.s_upgrade()->Ok_0
                 && r->Ok_0.$status == $p0.s_status() && r->Ok_0.$headers == $p0.s_headers()'''),
             ('C06.failed', '''$p0.s_status().0 == 101 && $p0.s_upgrade() is Err ==>
                 r is Err && r->Err_0 == Error::<E>::InvalidUpgrade($p0.s_upgrade()->Err_0)'''),
             ]), ty='ResponseValue')
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


def c07(src, probe=False):
    w = start(src, 'C07', probe)
    w.raw(S.HTTP)
    w.raw(S.STREAM)
    rv(w)
    w.struct('ByteStream')
    w.glob_subst = [(r'\bBox::pin\(', 'vbox_pin(')]
    keep = [('C07.status', 'r.$status == $p0.s_status()'), ('C07.headers', 'r.$headers == $p0.s_headers()')]
    w.fn('stream', C(ens=keep + [('C07.stream', 'r.$inner.0 == s_boxed($p0.s_stream())')]), ty='ResponseValue')
    w.fn('empty', C(ens=keep), ty='ResponseValue')
    w.fn('new', C(ens=[('C07.wrap', 'r.0 == $p0')]), ty='ByteStream', trait='')
    w.fn('into_inner', C(ens=[('C07.unwrap', 'r == self.0')]), ty='ByteStream', trait='')
    w.fn('into_inner', C(ens=[('C07.rv_unwrap', 'r == self.$inner')]), ty='ResponseValue<T>', trait='')
    w.fn('into_inner_stream', C(ens=[('C07.unwrap_stream', 'r == self.$inner.0')]), ty='ResponseValue')
    w.glob_subst = w.glob_subst + [(r'\bSelf::Target\b', 'InnerByteStream')]
    w.fn('deref', C(ens=[('C07.deref', '*r == self.0')]), ty='ByteStream', trait='Deref', as_inherent=True)
    w.fn('deref_mut', C(ens=[('C07.deref_mut', '*r == old(self).0 && *final(r) == final(self).0')]),
         ty='ByteStream', trait='DerefMut', as_inherent=True)
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


def c08(src, probe=False):
    w = start(src, 'C08', probe)
    w.raw(S.HTTP)
    rv(w)
    R = 'ResponseValue<T>'
    w.fn('new', C(ens=[('C08.new', 'r.$inner == $p0 && r.$status == $p1 && r.$headers == $p2')]), ty=R)
    w.fn('into_inner', C(ens=[('C08.into_inner', 'r == self.$inner')]), ty=R)
    w.fn('status', C(ens=[('C08.status', 'r == self.$status')]), ty=R)
    w.fn('headers', C(ens=[('C08.headers', '*r == self.$headers')]), ty=R)
    # exactly-once application: the only value known to be related to the argument by the function is the
    # one it returned; FnOnce makes a second application impossible
    w.fn('map', C(req=[('C08.map.pre', '$p0.requires((self.$inner,))')],
                  ens=[('C08.map.ok', 'r is Ok'),
                       ('C08.map.value', '$p0.ensures((self.$inner,), r->Ok_0.$inner)'),
                       ('C08.map.status', 'r->Ok_0.$status == self.$status'),
                       ('C08.map.headers', 'r->Ok_0.$headers == self.$headers')]), ty=R)
    w.fn('as_ref', C(ens=[('C08.as_ref', '*r == self.$inner')]), ty=R, trait='AsRef', as_inherent=True)
    w.glob_subst = [(r'\bSelf::Target\b', 'T')]
    w.fn('deref', C(ens=[('C08.deref', '*r == self.$inner')]), ty=R, trait='Deref', as_inherent=True)
    w.fn('deref_mut', C(ens=[('C08.deref_mut', '*r == old(self).$inner && *final(r) == final(self).$inner'),
                             ('C08.deref_mut.frame', 'final(self).$status == old(self).$status && final(self).$headers == old(self).$headers')]),
         ty=R, trait='DerefMut', as_inherent=True)
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


PARSE = r'''
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized { type ExternalTraitSpecificationFor: core::str::FromStr; type Err; }
/// what parsing a text as an F gives
pub uninterp spec fn s_parse<F: core::str::FromStr>(s: Seq<char>) -> Result<F, F::Err>;
pub assume_specification<F: core::str::FromStr> [ str::parse::<F> ] (s: &str) -> (r: Result<F, F::Err>)
    ensures r == s_parse::<F>(s@);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(core::num::ParseIntError);
pub open spec fn is_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] && s[i] <= '9' }
pub open spec fn dec_value(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { dec_value(s.drop_last()) * 10 + (s.last() as nat - '0' as nat) as nat }
}
/// u64::from_str: an optional plus sign, then decimal digits whose value fits 64 bits
#[verifier::external_body]
pub broadcast proof fn axiom_parse_u64(s: Seq<char>)
    ensures
        (#[trigger] s_parse::<u64>(s)) is Ok == ({ let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s }; is_digits(d) && dec_value(d) <= u64::MAX }),
        s_parse::<u64>(s) is Ok ==> s_parse::<u64>(s)->Ok_0 as nat == ({ let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s }; dec_value(d) }),
{}
'''


def c09(src, probe=False):
    w = start(src, 'C09', probe)
    w.raw(S.HTTP)
    w.raw(PARSE)
    rv(w)
    h = 'self.$headers.s_get(reqwest::header::CONTENT_LENGTH)'
    t = f'{h}->Some_0.s_text()'
    w.fn('content_length', C(
        start='broadcast use axiom_parse_u64;',
        ens=[('C09.absent', f'{h} is None ==> r is None'),
             ('C09.not_text', f'{h} is Some && {t} is None ==> r is None'),
             ('C09.number', f'''{h} is Some && {t} is Some && is_digits({t}->Some_0) && dec_value({t}->Some_0) <= u64::MAX ==>
                r is Some && r->Some_0 as nat == dec_value({t}->Some_0)'''),
             ('C09.not_number', f'''{h} is Some && {t} is Some && !(is_digits({t}->Some_0) && dec_value({t}->Some_0) <= u64::MAX)
                && !({t}->Some_0.len() > 0 && {t}->Some_0[0] == '+') ==> r is None'''),
             ]), ty='ResponseValue<T>')
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


def c10(src, probe=False):
    w = start(src, 'C10', probe)
    w.raw(S.HTTP)
    rv(w)
    w.enum('Error', expect=ERR)
    w.fn('status', C(ens=[('C10.accessor', 'r == self.$status')]), ty='ResponseValue<T>')
    w.fn('status', C(
        ens=[('C10.error_response', 'self is ErrorResponse ==> r == Some(self->ErrorResponse_0.$status)'),
             ('C10.unexpected', 'self is UnexpectedResponse ==> r == Some(self->UnexpectedResponse_0.s_status())'),
             ('C10.communication', 'self is CommunicationError ==> r == self->CommunicationError_0.s_status()'),
             ('C10.upgrade', 'self is InvalidUpgrade ==> r == self->InvalidUpgrade_0.s_status()'),
             ('C10.body', 'self is ResponseBodyError ==> r == self->ResponseBodyError_0.s_status()'),
             ('C10.none', '''(self is InvalidRequest || self is PreHookError || self is PostHookError || self is InvalidResponsePayload)
                  ==> r is None''')]), ty='Error<E>')
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


S_STATUS = r'''
/// the status contract of property C10, as a function
pub open spec fn s_err_status<E>(e: Error<E>) -> Option<reqwest::StatusCode> {
    match e {
        Error::ErrorResponse(rv) => Some(rv.%(status)s),
        Error::UnexpectedResponse(r) => Some(r.s_status()),
        Error::CommunicationError(x) => x.s_status(),
        Error::InvalidUpgrade(x) => x.s_status(),
        Error::ResponseBodyError(x) => x.s_status(),
        _ => None,
    }
}
'''


def c11(src, probe=False):
    w = start(src, 'C11', probe)
    w.raw(S.HTTP)
    rv(w)
    w.enum('Error', expect=ERR)
    w.raw(S_STATUS % w.names)
    same = []
    for v in ['InvalidRequest', 'PreHookError', 'PostHookError', 'CommunicationError', 'InvalidUpgrade', 'ResponseBodyError', 'UnexpectedResponse']:
        same.append((f'C11.{v}', f'self is {v} ==> r is {v} && r->{v}_0 == self->{v}_0'))
    same += [('C11.payload', '''self is InvalidResponsePayload ==> r is InvalidResponsePayload
                && r->InvalidResponsePayload_0 == self->InvalidResponsePayload_0 && r->InvalidResponsePayload_1 == self->InvalidResponsePayload_1'''),
             ('C11.response', '''self is ErrorResponse ==> r is ErrorResponse && r->ErrorResponse_0.$status == self->ErrorResponse_0.$status
                && r->ErrorResponse_0.$headers == self->ErrorResponse_0.$headers'''),
             ('C11.same_status', 's_err_status(r) == s_err_status(self)')]
    w.fn('into_untyped', C(ens=same), ty='Error<E>')
    w.auto_helpers()
    w.raw(S.TAIL)
    return w



def c01(src, probe=False):
    w = start(src, 'C01', probe)
    w.raw(S.PERCENT)
    ef = src.find_fn('encode_path')
    used = set(t.s for t in src.toks[ef.body[0]:ef.body[1]])
    refs = set()
    for it in src.items:
        if it.kind == 'const' and 'AsciiSet' in src.text[it.a:it.b]:
            m = re.match(r'(?:pub(?:\([a-z ]+\))?\s+)?const\s+(\w+)\s*:\s*(&?)\s*(?:\'static\s+)?([\w:]*AsciiSet)\s*=(.*);\s*$', src.text[it.a:it.b], re.S)
            if not m:
                raise Lost('AsciiSet constant')
            name, ref, ty, init = m.group(1), m.group(2), m.group(3), m.group(4).strip()
            if ref:
                if not init.startswith('&'):
                    raise Lost('AsciiSet constant')
                init = init[1:]
                w.rules.add('W10 `const X: &T = &e` becomes `const X: T = e`, its uses `&X`')
                refs.add(name)
            mm = re.fullmatch(r"\(?([\w:]+)\)?((?:\s*\.\s*(?:add|remove)\(\s*b'(?:[^'\\]|\\.)'\s*\))*)", init)
            if name in used:
                ens, tag = f'good_set({name})', 'C01.set'
            elif mm and '.remove' not in init:
                bs = re.findall(r"b'(?:[^'\\]|\\.)'", mm.group(2))
                ens, tag = f'forall|b: u8| #[trigger] {name}.has(b) == ({" || ".join([mm.group(1) + ".has(b)"] + ["b == " + x for x in bs])})', 'C01.base_set'
            else:
                raise Lost('AsciiSet constant')
            w.raw(f'pub exec const {name}: {ty}\n    ensures\n        {ens}, /*@{tag}@*/\n{{ {init} }}\n')
            w.tags.append((name, 'ensures', tag))
            w.contracted.append(name)
    sub = [(r'\b' + n + r'\b', f'(&{n})') for n in refs]
    w.fn('encode_path', C(
        subst=sub,
        start='broadcast use lemma_enc_any;',
        ens=[('C01.encoded', '''exists|e: Seq<u8>| #[trigger] ascii(e) == r@ && segment(e) && dec(e) == vstd::utf8::encode_utf8($p0@)''')]))
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


def c12(src, probe=False):
    w = start(src, 'C12', probe)
    w.raw(S.http_dyn())
    rv(w)
    w.enum('Error', expect=ERR)
    w.raw('pub trait ErrorFormat {}')
    err_ctors(w)
    fs = [f for f in src.fns() if f.name == 'from' and f.parent and 'From' in (f.parent.trait or '')]
    a = [f for f in fs if 'InvalidHeaderValue' in f.parent.trait]
    b = [f for f in fs if 'InvalidHeaderValue' not in f.parent.trait and 'reqwest::Error' in f.parent.trait]
    if len(a) != 1 or len(b) != 1:
        raise Lost('From impls')
    w.fn('from', C(ens=[('C12.transport', 'r == Error::<E>::CommunicationError($p0)')], rename='from_transport'), ty='Error<E>', f=b[0],
         as_inherent=True)
    w.fn('from', C(ens=[('C12.header', 'r is InvalidRequest && r->InvalidRequest_0@ == $p0.s_msg()')], rename='from_header'), ty='Error<E>',
         f=a[0], as_inherent=True)
    w.glob_subst = [(r'\(dyn std::error::Error \+ \'static\)', 'DynError'), (r"dyn std::error::Error \+ 'static", 'DynError')]
    w.fn('source', C(ens=SOURCE), ty='Error<E>', trait='Error', as_inherent=True)
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


SOURCE = [(f'C12.source.{v}', f'self is {v} ==> r is Some && *r->Some_0 == self->{v}_{k}') for v, k in
          (('CommunicationError', 0), ('InvalidUpgrade', 0), ('ResponseBodyError', 0), ('InvalidResponsePayload', 1))] + [
    ('C12.no_source', '''(self is InvalidRequest || self is PreHookError || self is PostHookError || self is ErrorResponse
        || self is UnexpectedResponse) ==> r is None''')]

C13_SPEC = r'''
pub open spec fn s_error_source<E>(e: Error<E>) -> Option<DynError> {
    match e {
        Error::CommunicationError(x) => Some(x),
        Error::InvalidUpgrade(x) => Some(x),
        Error::ResponseBodyError(x) => Some(x),
        Error::InvalidResponsePayload(_, x) => Some(x),
        _ => None,
    }
}
/// the text of every error from o on, in order, each once
pub open spec fn chain(o: Option<DynError>) -> Seq<char>
    decreases (match o { Some(e) => e.depth() + 1, None => 0 })
    via chain_decreases
{
    match o { Some(e) => ": "@ + e.s_text() + chain(e.s_source()), None => Seq::empty() }
}
#[via_fn]
proof fn chain_decreases(o: Option<DynError>) { broadcast use axiom_depth; }

pub open spec fn label_text<E>(e: Error<E>) -> Seq<char> where ResponseValue<E>: ErrorFormat {
    match e {
        Error::InvalidRequest(s) => "Invalid Request: "@ + s@,
        Error::CommunicationError(x) => "Communication Error: "@ + x.s_text(),
        Error::ErrorResponse(rve) => "Error Response: "@ + rve.s_info(),
        Error::InvalidUpgrade(x) => "Invalid Response Upgrade: "@ + x.s_text(),
        Error::ResponseBodyError(x) => "Invalid Response Body Bytes: "@ + x.s_text(),
        Error::InvalidResponsePayload(b, x) => "Invalid Response Payload ("@ + vfmt::dbg_bytes(b) + "): "@ + x.s_text(),
        Error::UnexpectedResponse(r) => "Unexpected Response: "@ + vfmt::dbg_resp(r),
        Error::PreHookError(s) => "Pre-hook Error: "@ + s@,
        Error::PostHookError(s) => "Post-hook Error: "@ + s@,
    }
}
pub open spec fn error_text<E>(e: Error<E>, alt: bool) -> Seq<char> where ResponseValue<E>: ErrorFormat {
    if alt {
        label_text(e) + (match s_error_source(e) { Some(x) => chain(x.s_source()), None => Seq::empty() })
    } else { label_text(e) }
}
pub trait ErrorFormat {
    spec fn s_info(&self) -> Seq<char>;
    fn fmt_info(&self, f: &mut vfmt::Formatter<'_>) -> (r: vfmt::Result)
        ensures vfmt::wrote(*old(f), *final(f), r, self.s_info());
}
'''
LITS = ['Invalid Request: ', 'Communication Error: ', 'Error Response: ', 'Invalid Response Upgrade: ', 'Invalid Response Body Bytes: ',
        'Invalid Response Payload (', '): ', 'Unexpected Response: ', 'Pre-hook Error: ', 'Post-hook Error: ', ': ']


def c13(src, probe=False):
    w = start(src, 'C13', probe)
    w.raw(S.http_dyn())
    w.raw(S.FMT)
    w.raw(S.STREAM)
    rv(w)
    w.struct('ByteStream')
    w.enum('Error', expect=ERR)
    tr = src.find('trait', 'ErrorFormat')
    w.raw(C13_SPEC)
    w.glob_subst = [(r'\(dyn std::error::Error \+ \'static\)', 'DynError'), (r"dyn std::error::Error \+ 'static", 'DynError'),
                    (r'\bstd::fmt::', 'vfmt::'), (r'use std::error::Error as _;', ''), (r'use std::error::Error;', '')]
    lits = set()

    def wr(pieces, pre):
        f = pre[0]
        out = None
        for k, e in reversed(pieces):
            if k == 'lit':
                lits.add(e)
                call = f'vfmt::w_lit({f}, "{e}")'
            else:
                call = f'vfmt::w_{k}({f}, &({e}))'
            out = call if out is None else f'match {call} {{ Ok(()) => {out}, Err(e_) => Err(e_) }}'
        return '(' + (out or 'Ok(())') + ')'
    h = {'write': wr}

    def reveal(*spec):
        return 'proof { ' + ' '.join(f'reveal_strlit("{x}");' for x in sorted(set(spec) | lits)) + ' }'

    def lower(f):      # collect the literals first
        for i in range(f.body[0], f.body[1]):
            t = src.toks[i]
            if t.k == 'str' and src.toks[i - 1].s in (',', '('):
                lits.update(x for k, x in parse_fmt_safe(t.s) if k == 'lit')

    w.fn('source', C(ens=[('C13.source', 'r is Some == s_error_source(*self) is Some && (r is Some ==> *r->Some_0 == s_error_source(*self)->Some_0)')]),
         ty='Error<E>', trait='Error', as_inherent=True)
    infos = [f for f in src.fns() if f.name == 'fmt_info' and f.parent is not None and f.parent.kind == 'impl']
    if len(infos) != 2:
        raise Lost('fmt_info impls')
    for f in infos:
        bs = 'ByteStream' in f.parent.self_ty
        lits.clear()
        lower(f)
        tail = '"; value: <stream>"@' if bs else '"; value: "@ + self.%s.s_dbg()' % w.names['inner']
        spec = ['status: ', '; headers: '] + (['; value: <stream>'] if bs else ['; value: '])
        assoc = ('open spec fn s_info(&self) -> Seq<char> { "status: "@ + vfmt::disp_status(self.%s) + "; headers: "@ + vfmt::dbg_headers(self.%s) + %s }'
                 % (w.names['status'], w.names['headers'], tail))
        w.fn('fmt_info', C(ens=[('C13.info.stream' if bs else 'C13.info', 'vfmt::wrote(*old($p0), *final($p0), r, self.s_info())')], fmt=h,
                           start=reveal(*spec)), ty='ResponseValue' + ('<ByteStream>' if bs else '<E>'), f=f, assoc=assoc)
    disp = [f for f in src.fns() if f.name == 'fmt' and f.parent and f.parent.trait and f.parent.trait.endswith('Display') and base(f.parent.self_ty) == 'Error']
    dbg = [f for f in src.fns() if f.name == 'fmt' and f.parent and f.parent.trait and f.parent.trait.endswith('Debug') and base(f.parent.self_ty) == 'Error']
    if len(disp) != 1 or len(dbg) != 1:
        raise Lost('Display/Debug of Error')
    lits.clear()
    lower(disp[0])
    ens = lambda t: [(t, 'vfmt::wrote(*old($p0), *final($p0), r, error_text(*self, old($p0).s_alt()))')]
    src_v = {'src': r'while let Some\(\w+\) = (\w+)'}
    w.fn('fmt', C(ens=ens('C13.display'), fmt=h, start='broadcast use axiom_depth;\n' + reveal(*LITS), rename='display_fmt', locals=src_v,
                  closures=[dict(ret='Option<&DynError>', ens='cr is Some == $c0.s_source() is Some && (cr is Some ==> *cr->Some_0 == $c0.s_source()->Some_0)')],
                  loops=[dict(kind='while let',
                              before='let ghost o0: Option<DynError> = match $src { Some(x) => Some(*x), None => None };\nlet ghost a0 = $p0@;',
                              inv=[('C13.chain', '''$p0.s_alt() == old($p0).s_alt() &&
                                $p0@ + chain(match $src { Some(x) => Some(*x), None => None }) =~= a0 + chain(o0)''')],
                              ens=[('C13.chain.end', '$src is None')],
                              dec='(match $src { Some(x) => x.depth() + 1, None => 0 })',
                              body_start='broadcast use axiom_depth;\n' + reveal(*LITS))]),
         ty='Error<E>', as_inherent=True, f=disp[0])
    w.fn('fmt', C(ens=ens('C13.debug'), rename='debug_fmt', subst=[(r'vfmt::Display::fmt\(self,', 'self.display_fmt('),
                                                                    (r'vfmt::Display::fmt\(', 'Self::display_fmt(')], fmt=h),
         ty='Error<E>', as_inherent=True, f=dbg[0])
    w.auto_helpers(skip=('fmt', 'fmt_info', 'source'))
    w.raw(S.TAIL)
    return w


def parse_fmt_safe(lit):
    from vp.weave import parse_fmt
    try:
        return parse_fmt(lit, ['_'] * 9)
    except Exception:
        return []


def c14(src, probe=False):
    w = start(src, 'C14', probe)
    w.raw(S.HTTP)
    w.raw(S.FORM)
    rv(w)
    w.enum('Error', expect=ERR)
    err_ctors(w)
    n = {'ct': 'reqwest::header::CONTENT_TYPE.0'}
    e = 'serde_urlencoded::s_urlencode($p0)'
    w.fn('form_urlencoded', C(gen=lambda g: '<E, ' + g[1:], ens=[
        ('C14.ok', f'r is Ok == {e} is Some'),
        ('C14.content_type', f'r is Ok ==> r->Ok_0.s_headers() =~= self.s_headers().push((reqwest::header::CONTENT_TYPE.0, Some("application/x-www-form-urlencoded"@)))'),
        ('C14.body', f'r is Ok ==> r->Ok_0.s_body() == Some({e}->Some_0)'),
        ('C14.rest', 'r is Ok ==> r->Ok_0.s_rest() == self.s_rest()'),
        ('C14.err', 'r is Err ==> r->Err_0 is InvalidRequest')]), ty='RequestBuilder', trait='RequestBuilderExt',
        header='impl RequestBuilder', as_inherent=True)
    w.auto_helpers()
    w.raw(S.TAIL)
    return w


BUILD = {'C01': c01, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14}
