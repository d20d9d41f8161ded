"""A small Rust tokenizer and item parser, used only to cut items out of /repo's sources
verbatim and to find the places where contracts, invariants and closure specifications go."""
import re

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}


class LexError(Exception):
    pass


class Lost(Exception):
    """An anchor (item, loop, local, parameter) the contract needs is not in the source any more."""


class Tok:
    __slots__ = ('k', 's', 'a', 'b')

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f'{self.k}:{self.s!r}'


_ident = re.compile(r'(?:r#)?[A-Za-z_][A-Za-z0-9_]*')
_num = re.compile(r'[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?')
_rawstr = re.compile(r'(?:b|c)?r(#*)"')
_life = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*")
_char = re.compile(r"b?'(?:\\(?:u\{[^}]*\}|x[0-9a-fA-F]{2}|.)|[^\\'])'", re.S)


def lex(t, keep_comments=False):
    out = []
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        if c.isspace():
            i += 1
            continue
        if t.startswith('//', i):
            j = t.find('\n', i)
            j = n if j < 0 else j
            if keep_comments:
                out.append(Tok('comment', t[i:j], i, j))
            i = j
            continue
        if t.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if t.startswith('/*', j):
                    d += 1
                    j += 2
                elif t.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            if keep_comments:
                out.append(Tok('comment', t[i:j], i, j))
            i = j
            continue
        m = _rawstr.match(t, i)
        if m:
            end = '"' + m.group(1)
            j = t.find(end, m.end())
            if j < 0:
                raise LexError('raw string')
            j += len(end)
            out.append(Tok('str', t[i:j], i, j))
            i = j
            continue
        if c == '"' or (c in 'bc' and i + 1 < n and t[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while t[j] != '"':
                j += 2 if t[j] == '\\' else 1
            j += 1
            out.append(Tok('str', t[i:j], i, j))
            i = j
            continue
        m = _char.match(t, i)
        if m and (c == "'" or c == 'b'):
            # 'a' (char) versus 'a (lifetime)
            out.append(Tok('char', m.group(), i, m.end()))
            i = m.end()
            continue
        m = _life.match(t, i)
        if m:
            out.append(Tok('life', m.group(), i, m.end()))
            i = m.end()
            continue
        m = _ident.match(t, i)
        if m:
            out.append(Tok('id', m.group(), i, m.end()))
            i = m.end()
            continue
        m = _num.match(t, i)
        if m:
            s = m.group()
            out.append(Tok('num', s, i, i + len(s)))
            i += len(s)
            continue
        for p in ('..=', '...', '<<=', '>>=', '->', '=>', '::', '..', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/='):
            if t.startswith(p, i):
                # keep '>>' and '<<' as single angle tokens; '||' handled by closure finder
                out.append(Tok('p', p, i, i + len(p)))
                i += len(p)
                break
        else:
            out.append(Tok('p', c, i, i + 1))
            i += 1
    return out


def match_delims(toks):
    """index of the matching delimiter for every (, [, {"""
    st, m = [], {}
    for i, t in enumerate(toks):
        if t.k == 'p' and t.s in OPEN:
            st.append(i)
        elif t.k == 'p' and t.s in CLOSE:
            if not st or OPEN[toks[st[-1]].s] != t.s:
                raise LexError(f'unbalanced {t.s} at {t.a}')
            j = st.pop()
            m[j] = i
            m[i] = j
    if st:
        raise LexError('unbalanced')
    return m


def norm(s):
    """whitespace- and comment-free text, with one space where two words would join"""
    r = ''
    for t in lex(s):
        if r and (r[-1].isalnum() or r[-1] == '_') and (t.s[0].isalnum() or t.s[0] in "_'"):
            r += ' '
        r += t.s
    return r


class Item:
    def __init__(self, **kw):
        self.attrs = ''
        self.children = []
        self.__dict__.update(kw)


def skip_angles(toks, i):
    """toks[i] is '<': index just after the matching '>'"""
    d = 0
    while i < len(toks):
        s = toks[i].s
        if toks[i].k == 'p':
            if s == '<':
                d += 1
            elif s == '>':
                d -= 1
                if d == 0:
                    return i + 1
            elif s in ('>=', '>>='):
                d -= 1
                if d == 0:
                    return i + 1
        i += 1
    raise LexError('angles')


class Src:
    def __init__(self, text, name=''):
        self.text, self.name = text, name
        self.toks = lex(text)
        self.m = match_delims(self.toks)
        self.items = self._items(0, len(self.toks))

    # -- items ------------------------------------------------------------------------------
    def _items(self, i, end):
        out = []
        T = self.toks
        while i < end:
            start = i
            attrs = []
            while i < end and T[i].s == '#' and T[i].k == 'p':
                j = i + 1
                if T[j].s == '!':
                    j += 1
                e = self.m[j] + 1
                if T[i + 1].s != '!':
                    attrs.append(self.text[T[i].a:T[e - 1].b])
                else:
                    start = e
                i = e
            if i >= end:
                break
            it, i = self._item(i, end)
            it.attrs = attrs
            it.outer_a = T[start].a
            out.append(it)
        return out

    def _item(self, i, end):
        T, m = self.toks, self.m
        s0 = i
        vis = ''
        if T[i].s == 'pub':
            i += 1
            if T[i].s == '(':
                i = m[i] + 1
            vis = self.text[T[s0].a:T[i - 1].b]
        quals = []
        while T[i].s in ('async', 'unsafe', 'extern', 'const', 'default') or T[i].k == 'str':
            if T[i].s == 'const' and not (T[i + 1].s in ('fn', 'unsafe', 'async', 'extern')):
                break
            quals.append(T[i].s)
            i += 1
        kw = T[i].s
        if kw == 'fn':
            return self._fn(s0, i, vis, quals, end)
        if kw in ('struct', 'enum', 'union', 'trait', 'mod'):
            name = T[i + 1].s
            j = i + 2
            while not (T[j].k == 'p' and T[j].s in '{;'):
                if T[j].s in ('(', '['):
                    j = m[j]
                j += 1
            if T[j].s == '{':
                e = m[j] + 1
                it = Item(kind=kw, name=name, vis=vis, a=T[s0].a, b=T[e - 1].b, ti=s0, te=e, body=(j, m[j]))
                if kw in ('trait', 'mod'):
                    it.children = self._items(j + 1, m[j])
                return it, e
            return Item(kind=kw, name=name, vis=vis, a=T[s0].a, b=T[j].b, ti=s0, te=j + 1, body=None), j + 1
        if kw == 'impl':
            j = i + 1
            gen = ''
            if T[j].s == '<':
                g = j
                j = skip_angles(T, j)
                gen = self.text[T[g].a:T[j - 1].b]
            h = j
            brace = wh = fr = None
            d = 0
            k = j
            while True:
                s = T[k].s
                if T[k].k == 'p' and s in ('(', '['):
                    k = m[k]
                elif T[k].k == 'p' and s == '<':
                    k = skip_angles(T, k) - 1
                elif T[k].k == 'p' and s == '{':
                    brace = k
                    break
                elif s == 'for' and T[k].k == 'id' and wh is None and fr is None:
                    fr = k
                elif s == 'where' and wh is None:
                    wh = k
                k += 1
            tyend = wh if wh is not None else brace
            tr = self.text[T[h].a:T[fr - 1].b] if fr is not None else None
            ts = fr + 1 if fr is not None else h
            ty = self.text[T[ts].a:T[tyend - 1].b]
            where = self.text[T[wh].a:T[brace - 1].b] if wh is not None else ''
            e = m[brace] + 1
            it = Item(kind='impl', name=norm(ty), vis='', a=T[s0].a, b=T[e - 1].b, ti=s0, te=e, body=(brace, m[brace]),
                      generics=gen, trait=tr, self_ty=ty, where=where)
            it.children = self._items(brace + 1, m[brace])
            for c in it.children:
                c.parent = it
            return it, e
        if kw == 'macro_rules':
            name = T[i + 2].s
            j = i + 3
            e = m[j] + 1
            if e < end and T[e].s == ';':
                e += 1
            return Item(kind='macro_rules', name=name, vis='', a=T[s0].a, b=T[e - 1].b, ti=s0, te=e, body=(j, m[j])), e
        if kw in ('use', 'static', 'type', 'const', 'let'):
            j = i
            while not (T[j].k == 'p' and T[j].s == ';'):
                if T[j].k == 'p' and T[j].s in OPEN:
                    j = m[j]
                j += 1
            name = T[i + 1].s if kw != 'use' else ''
            return Item(kind=kw, name=name, vis=vis, a=T[s0].a, b=T[j].b, ti=s0, te=j + 1, body=None), j + 1
        if kw == 'extern':
            j = i
            while T[j].s != ';':
                j += 1
            return Item(kind='extern', name='', vis=vis, a=T[s0].a, b=T[j].b, ti=s0, te=j + 1, body=None), j + 1
        # macro invocation: path ! delim
        j = i
        while T[j].s != '!':
            if not (T[j].k == 'id' or T[j].s == '::'):
                raise LexError(f'unknown item at {T[j].a}: {self.text[T[j].a:T[j].a+40]!r}')
            j += 1
        j += 1
        e = m[j] + 1
        if e < end and T[e].s == ';':
            e += 1
        return Item(kind='macro_call', name=T[i].s, vis='', a=T[s0].a, b=T[e - 1].b, ti=s0, te=e, body=(j, m[j])), e

    def _fn(self, s0, i, vis, quals, end):
        T, m = self.toks, self.m
        name = T[i + 1].s
        j = i + 2
        gen = ''
        if T[j].s == '<':
            g = j
            j = skip_angles(T, j)
            gen = self.text[T[g].a:T[j - 1].b]
        assert T[j].s == '(', T[j]
        pl, pr = j, m[j]
        params = []
        k = pl + 1
        st = k
        while k <= pr:
            if k == pr or (T[k].s == ',' and T[k].k == 'p'):
                if k > st:
                    params.append((st, k))
                st = k + 1
            elif T[k].k == 'p' and T[k].s in OPEN:
                k = m[k]
            elif T[k].k == 'p' and T[k].s == '<':
                k = skip_angles(T, k) - 1
            k += 1
        plist = []
        selfp = None
        for (a, b) in params:
            txt = self.text[T[a].a:T[b - 1].b]
            ids = [t.s for t in T[a:b]]
            if 'self' in ids and ':' not in ids or ids[:1] == ['self'] or ids[:2] == ['mut', 'self']:
                selfp = txt
                continue
            # pattern : type, at depth 0
            d = a
            while d < b and T[d].s != ':':
                if T[d].k == 'p' and T[d].s in OPEN:
                    d = m[d]
                d += 1
            pat = self.text[T[a].a:T[d - 1].b]
            ty = self.text[T[d + 1].a:T[b - 1].b] if d < b else ''
            plist.append((pat, ty))
        j = pr + 1
        ret = None
        if j < len(T) and T[j].s == '->':
            a = j + 1
            k = a
            while not (T[k].k == 'p' and T[k].s in '{;') and not (T[k].k == 'id' and T[k].s == 'where'):
                if T[k].k == 'p' and T[k].s in ('(', '['):
                    k = m[k]
                elif T[k].k == 'p' and T[k].s == '<':
                    k = skip_angles(T, k) - 1
                k += 1
            ret = (a, k)
            j = k
        wh = None
        if T[j].s == 'where':
            a = j
            while not (T[j].k == 'p' and T[j].s in '{;'):
                if T[j].k == 'p' and T[j].s in ('(', '['):
                    j = m[j]
                j += 1
            wh = (a, j)
        if T[j].s == '{':
            body = (j, m[j])
            e = m[j] + 1
        else:
            body = None
            e = j + 1
        it = Item(kind='fn', name=name, vis=vis, quals=quals, a=T[s0].a, b=T[e - 1].b, ti=s0, te=e, body=body,
                  generics=gen, params=plist, selfp=selfp, ret=ret, where=wh, pl=pl, pr=pr, parent=None)
        return it, e

    # -- lookups ----------------------------------------------------------------------------
    def find(self, kind, name):
        r = [x for x in self.items if x.kind == kind and x.name == name]
        if len(r) != 1:
            raise Lost(f'{kind} {name}: {len(r)} in {self.name}')
        return r[0]

    def fns(self):
        for x in self.items:
            if x.kind == 'fn':
                yield x
            elif x.kind == 'impl':
                for c in x.children:
                    if c.kind == 'fn':
                        yield c

    def find_fn(self, name, ty=None, trait=None):
        """ty: self type (base name or full normalised text); trait: base name of the trait, '' = inherent"""
        r = []
        for f in self.fns():
            if f.name != name:
                continue
            p = f.parent
            if ty is None:
                if p is None:
                    r.append(f)
                continue
            if p is None:
                continue
            if p.name != ty and base(p.name) != ty:
                continue
            tb = base(norm(p.trait)) if p.trait else ''
            if trait is not None and tb != trait:
                continue
            r.append(f)
        if len(r) != 1:
            raise Lost(f'fn {ty or ""}::{name} [{trait}]: {len(r)} in {self.name}')
        return r[0]

    def txt(self, ta, tb):
        return self.text[self.toks[ta].a:self.toks[tb - 1].b] if tb > ta else ''


def base(t):
    """last path segment without generic arguments"""
    t = re.sub(r"^&('[a-z_]+ )?(mut )?", '', t)
    t = t.split('<')[0]
    return t.split('::')[-1]
