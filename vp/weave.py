"""Cuts items out of a /repo source file verbatim on every run and weaves contracts into them.

What the weaver does to the extracted text (everything else is copied byte for byte):
  W1  attributes and doc comments in front of an item are dropped;
  W2  a visibility is widened to `pub`; struct fields too (Verus wants contract-visible fields);
  W3  `-> T` becomes `-> (r: T)`, and requires/ensures clauses go in front of the body;
  W4  `for p in e {` becomes `for p in it: e invariant .. {`, other loops get invariants/decreases;
  W5  a closure without a specification gets one (its body is copied); `f` naming an enum
      variant constructor used as a function value is eta-expanded `|x| Variant(x)`;
  W12 a pattern in closure-parameter position becomes a `let` at the start of the closure body;
  W6  ghost code (`proof { .. }`, ghost lets) is inserted at stated anchors;
  W7  format-like macros are lowered piece by piece to calls of stub functions (see lower_fmt);
  W8  `macro_rules!` items of one arm are expanded by token substitution where they are invoked;
  W9  named textual path substitutions listed by the contract file (`subst`);
  W11 `quote! { .. }` is lowered token by token to calls of stub functions that append literal tokens,
      interpolated values and repetitions to a token sequence (see lower_quotes);
  W14 `E.try_for_each(|P| B)` and `E.for_each(|P| B)` become loops over `E.next()` that leave with the first
      error, `return X` in B becoming the result of the loop (see lower_for_each): this is what they are
      documented to do, and lets B change captured variables;
  W15 `for P in E { B }` over a modelled iterator becomes a loop over its `next()` (see lower_for);
  W16 `E.map(|P| B).collect::<Result<Vec<_>>>()?` becomes a loop over `E.next()` that pushes `(B)?` to a vector
      (see lower_collect): an error inside B leaves the function in both forms; lets B change captured variables.
"""
import re
from .rustlex import *


class Clause:
    def __init__(self, tag, text):
        self.tag, self.text = tag, text


class C:
    """contract of one function"""

    def __init__(self, req=(), ens=(), loops=(), closures=(), fields=None, locals=None, start='', end='', inserts=(),
                 subst=(), decreases='', attrs='', ret='r', no_decreases=False, external=False, opens='',
                 post_body=None, rename=None, params=None, bounds='', fmt=False, tail='', gen=None, quote=False, post=None):
        self.__dict__.update(locals_=locals or {}, **{k: v for k, v in vars().items() if k not in ('self', 'locals')})
        self.req = [Clause(*x) if isinstance(x, tuple) else x for x in req]
        self.ens = [Clause(*x) if isinstance(x, tuple) else x for x in ens]


class Edit:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


def apply_edits(text, a, b, edits):
    out, pos = [], a
    for e in sorted(edits, key=lambda e: (e.a, e.b)):
        if e.a < pos and not (e.a == pos):
            raise Lost(f'overlapping edits at {e.a}')
        out.append(text[pos:e.a])
        out.append(e.s)
        pos = e.b
    out.append(text[pos:b])
    return ''.join(out)


PREV_EXPR = {'(', ',', '=', '{', ';', '=>', '&&', '||', '[', '?', ':', '&'}


def find_closures(src, ta, tb):
    """closures in token range: list of dict(params=(a,b) token range, body=(a,b), block=bool, ret)"""
    T, m = src.toks, src.m
    out = []
    i = ta
    while i < tb:
        t = T[i]
        if t.k == 'p' and t.s in ('|', '||'):
            p = T[i - 1]
            starts = (p.k == 'p' and p.s in PREV_EXPR) or (p.k == 'id' and p.s in ('return', 'move', 'else', 'in'))
            if starts:
                # or-patterns at the head of a match arm also follow ',' or '{': need the closing bar and an
                # expression, so demand that a '=>' does not come first at depth 0
                if t.s == '||':
                    ps, pe = i + 1, i + 1
                    j = i + 1
                else:
                    j = i + 1
                    d_ok = True
                    while j < tb and not (T[j].k == 'p' and T[j].s == '|'):
                        if T[j].k == 'p' and T[j].s in OPEN:
                            j = m[j]
                        elif T[j].k == 'p' and T[j].s in ('=>', ';', '}', ')'):
                            d_ok = False
                            break
                        j += 1
                    if not d_ok or j >= tb:
                        i += 1
                        continue
                    ps, pe = i + 1, j
                    j += 1
                ret = None
                if T[j].s == '->':
                    k = j + 1
                    while T[k].s != '{':
                        k += 1
                    ret = (j + 1, k)
                    j = k
                if T[j].s == '{':
                    body = (j, m[j] + 1)
                    blk = True
                else:
                    k = j
                    while k < tb and not (T[k].k == 'p' and T[k].s in (',', ';', ')', '}', ']')):
                        if T[k].k == 'p' and T[k].s in OPEN:
                            k = m[k]
                        elif T[k].k == 'p' and T[k].s == '<' and T[k - 1].s == '::':
                            k = skip_angles(T, k) - 1
                        k += 1
                    body = (j, k)
                    blk = False
                mv = T[i - 1].s == 'move'
                out.append(dict(start=i - 1 if mv else i, bar=i, params=(ps, pe), body=body, block=blk, ret=ret))
        i += 1
    return out


def find_loops(src, ta, tb):
    T, m = src.toks, src.m
    out = []
    for i in range(ta, tb):
        t = T[i]
        if t.k == 'id' and t.s in ('for', 'while', 'loop'):
            if t.s == 'for' and T[i + 1].s == '<':
                continue
            j = i + 1
            while not (T[j].k == 'p' and T[j].s == '{'):
                if T[j].k == 'p' and T[j].s in OPEN:
                    j = m[j]
                j += 1
            inn = None
            if t.s == 'for':
                k = i + 1
                while T[k].s != 'in':
                    if T[k].k == 'p' and T[k].s in OPEN:
                        k = m[k]
                    k += 1
                inn = k
            kind = t.s
            if t.s == 'while' and T[i + 1].s == 'let':
                kind = 'while let'
            out.append(dict(kind=kind, tok=i, inn=inn, brace=j, end=m[j]))
    return out


class Weave:
    def __init__(self, src, prop):
        self.src, self.prop = src, prop
        self.parts = []
        self.emitted_fns = []       # (qualified name, has contract)
        self.contracted = []
        self.uncontracted = []
        self.tags = []
        self.census = []            # (fn, what, expected, found) mismatches
        self.names = {}             # $placeholders for fields
        self.glob_subst = []
        self.rules = set(['W1', 'W2', 'W3'])
        self.ctors = {}             # 'Error::InvalidUpgrade' -> spec path
        self.probe = False
        self.emitted_ids = set()
        self.emitted_src = []
        self.emitted_types = set()

    def raw(self, s):
        self.parts.append(s)

    # -- data types -------------------------------------------------------------------------
    def struct(self, name, fields=None, attrs='', drop_fields=(), keep_fields=None):
        """fields: {placeholder: type regexp or field name}; resolves each to the field's current name"""
        s = self.src
        it = [x for x in s.items if x.kind == 'struct' and x.name == name]
        if len(it) != 1:
            raise Lost(f'struct {name}')
        it = it[0]
        T = s.toks
        if it.body is None:       # tuple struct
            txt = s.text[it.a:it.b]
            m = re.match(r'(?:pub(?:\([a-z ]+\))?\s+)?struct\s+(\w+(?:<[^>]*>)?)\s*\((.*)\)\s*;$', txt, re.S)
            if not m:
                raise Lost(f'tuple struct {name}')
            self.raw(f'{attrs}\npub struct {m.group(1)}(pub {self._subst(m.group(2))});\n')
            return
        a, b = it.body
        fl = self._fields(a, b)
        out = []
        got = {}
        for fname, fty in fl:
            if fname in drop_fields or (keep_fields is not None and fname not in keep_fields):
                self.rules.add(f'W13 field {name}::{fname} left out: no extracted function may use it')
                continue
            out.append(f'    pub {fname}: {self._subst(fty)},')
        for ph, pat in (fields or {}).items():
            c = [f for f, ty in fl if f == pat] or [f for f, ty in fl if re.fullmatch(pat, norm(ty))]
            if len(c) != 1:
                raise Lost(f'field {ph} of {name}')
            got[ph] = c[0]
        self.names.update(got)
        head = s.text[T[it.ti].a:T[a].a]
        head = re.sub(r'^pub(\s*\([^)]*\))?\s*', '', head)
        self.raw(f'{attrs}\npub {self._subst(head)}{{\n' + '\n'.join(out) + '\n}\n')

    def _fields(self, a, b):
        T, m, s = self.src.toks, self.src.m, self.src
        fl = []
        i = a + 1
        while i < b:
            while T[i].s == '#':
                i = m[i + 1] + 1
            if i >= b:
                break
            if T[i].s == 'pub':
                i += 1
                if T[i].s == '(':
                    i = m[i] + 1
            fname = T[i].s
            assert T[i + 1].s == ':'
            j = i + 2
            while j < b and not (T[j].k == 'p' and T[j].s == ','):
                if T[j].k == 'p' and T[j].s in ('(', '[', '{'):
                    j = m[j]
                elif T[j].k == 'p' and T[j].s == '<':
                    j = skip_angles(T, j) - 1
                j += 1
            fl.append((fname, s.text[T[i + 2].a:T[j - 1].b]))
            i = j + 1
        return fl

    def enum(self, name, attrs='', expect=None, scope=None):
        """copied with attributes inside dropped; expect: names of the variants the contract speaks of"""
        s = self.src
        it = [x for x in (scope or s.items) if x.kind == 'enum' and x.name == name]
        if len(it) != 1:
            raise Lost(f'enum {name}')
        it = it[0]
        txt = self._drop_attrs(it.ti, it.te)
        txt = re.sub(r'^pub(\s*\([^)]*\))?\s*', '', txt)
        vs = self.variants(it)
        if expect is not None:
            for v in expect:
                if v not in vs:
                    raise Lost(f'variant {name}::{v}')
        self.raw(f'{attrs}\npub {self._subst(txt)}\n')
        return vs

    def variants(self, it):
        T, m = self.src.toks, self.src.m
        a, b = it.body
        vs = {}
        i = a + 1
        while i < b:
            while T[i].s == '#':
                i = m[i + 1] + 1
            v = T[i].s
            i += 1
            arity = 0
            if i < b and T[i].s in ('(', '{'):
                inner = self.src.txt(i + 1, m[i])
                arity = inner if T[i].s == '(' else '{'
                i = m[i] + 1
            vs[v] = arity
            while i < b and T[i].s != ',':
                i += 1
            i += 1
        return vs

    def _drop_attrs(self, ta, tb):
        T, m, s = self.src.toks, self.src.m, self.src
        edits = []
        i = ta
        while i < tb:
            if T[i].s == '#' and T[i + 1].s == '[':
                edits.append(Edit(T[i].a, T[m[i + 1]].b, ''))
                i = m[i + 1]
            i += 1
        txt = apply_edits(s.text, T[ta].a, T[tb - 1].b, edits)
        return txt

    def item(self, kind, name):
        it = self.src.find(kind, name)
        self.raw(self._subst(self._drop_attrs(it.ti, it.te)) + '\n')
        return it

    def _subst(self, txt, extra=()):
        for pat, rep in list(self.glob_subst) + list(extra):
            txt2 = re.sub(pat, rep, txt)
            if txt2 != txt:
                self.rules.add(f'W9 {pat} -> {rep}')
            txt = txt2
        return txt

    # -- functions --------------------------------------------------------------------------
    def fn_text(self, f, c, qual):
        s, T, m = self.src, self.src.toks, self.src.m
        names = dict(self.names)
        for i, (pat, ty) in enumerate(f.params):
            mm = re.fullmatch(r'(?:mut\s+)?(\w+)', pat)
            if mm:
                names[f'p{i}'] = mm.group(1)
        if f.body is None:
            raise Lost(f'{qual} has no body')
        ba, bb = f.body
        btext = s.text[T[ba].a:T[bb].b]
        for ph, pat in c.locals_.items():
            mm = re.findall(pat, btext)
            if len(set(mm)) != 1:
                raise Lost(f'local {ph} of {qual}')
            names[ph] = mm[0]

        def fill(t):
            def rep(mo):
                k = mo.group(1)
                if k not in names:
                    raise Lost(f'placeholder ${k} in {qual}')
                return names[k]
            return re.sub(r'\$([A-Za-z_0-9]+)', rep, t)

        edits = []
        # signature
        vis = 'pub '
        quals = ' '.join(q for q in f.quals)
        name = c.rename or f.name
        params = s.text[T[f.pl].a:T[f.pr].b]
        ret = s.txt(*f.ret) if f.ret else None
        gen = c.gen(f.generics) if c.gen else f.generics
        sig = f'{quals + " " if quals else ""}fn {name}{gen}{self._subst(params, c.subst)}'
        if ret:
            sig += f' -> ({c.ret}: {self._subst(ret, c.subst)})'
        wh = self._subst(s.txt(*f.where), c.subst) if f.where else ''
        if c.bounds:
            wh = (wh.rstrip().rstrip(',') + ', ' if wh else 'where ') + c.bounds
        if wh and not wh.rstrip().endswith(','):
            wh = wh.rstrip() + ','
        spec = []
        if c.req:
            spec.append('    requires')
            for x in c.req:
                spec.append(f'        {fill(x.text)}, /*@{x.tag}@*/')
                self.tags.append((qual, 'requires', x.tag))
        if c.ens:
            spec.append('    ensures')
            for x in c.ens:
                spec.append(f'        ({fill(x.text)}), /*@{x.tag}@*/')
                self.tags.append((qual, 'ensures', x.tag))
        if c.opens:
            spec.append(c.opens)
        if c.decreases:
            spec.append(f'    decreases {fill(c.decreases)},')
        # loops
        quoted = [(i, m[i + 2]) for i in range(ba, bb) if T[i].k == 'id' and T[i].s == 'quote' and T[i + 1].s == '!' and T[i + 2].s in OPEN]
        loops = [x for x in find_loops(s, ba, bb) if not any(a < x['tok'] < b for a, b in quoted)]
        if len(loops) != len(c.loops):
            self.census.append((qual, 'loops', len(c.loops), len(loops)))
        for lp, sp in zip(loops, c.loops):
            if sp is None:
                continue
            if sp.get('kind') and sp['kind'] != lp['kind']:
                self.census.append((qual, 'loop kind', sp['kind'], lp['kind']))
                raise Lost(f'loop kind in {qual}: {lp["kind"]}')
            self.rules.add('W4')
            if lp['kind'] == 'for':
                edits.append(Edit(T[lp['inn']].b, T[lp['inn']].b, f" {sp.get('it', 'it')}:"))
            inv = ''
            if sp.get('inv_except_break'):
                inv += '\n        invariant_except_break\n'
                for tag, t in sp['inv_except_break']:
                    inv += f'            ({fill(t)}), /*@{tag}@*/\n'
                    self.tags.append((qual, 'invariant', tag))
            if sp.get('inv'):
                inv += '\n        invariant\n'
                for tag, t in sp['inv']:
                    inv += f'            ({fill(t)}), /*@{tag}@*/\n'
                    self.tags.append((qual, 'invariant', tag))
            if sp.get('ens'):
                inv += '        ensures\n'
                for tag, t in sp['ens']:
                    inv += f'            ({fill(t)}), /*@{tag}@*/\n'
            if sp.get('dec'):
                inv += f"        decreases {fill(sp['dec'])},\n"
            edits.append(Edit(T[lp['brace']].a, T[lp['brace']].a, inv))
            if sp.get('body_start'):
                edits.append(Edit(T[lp['brace']].b, T[lp['brace']].b, '\n' + fill(sp['body_start']) + '\n'))
            if sp.get('body_end'):
                edits.append(Edit(T[lp['end']].a, T[lp['end']].a, '\n' + fill(sp['body_end']) + '\n'))
            if sp.get('before'):
                edits.append(Edit(T[lp['tok']].a, T[lp['tok']].a, fill(sp['before']) + '\n'))
            if sp.get('after'):
                edits.append(Edit(T[lp['end']].b, T[lp['end']].b, '\n' + fill(sp['after']) + '\n'))
        # closures
        quoted = [(i, m[i + 2]) for i in range(ba, bb) if T[i].k == 'id' and T[i].s == 'quote' and T[i + 1].s == '!' and T[i + 2].s in OPEN]
        cls = [x for x in find_closures(s, ba + 1, bb) if not any(a < x['start'] < b for a, b in quoted)]
        cls_outer = cls
        if c.closures and len(cls_outer) != len(c.closures):
            self.census.append((qual, 'closures', len(c.closures), len(cls_outer)))
        for k, cl in enumerate(cls_outer):
            sp = c.closures[k] if k < len(c.closures) else None
            if sp is None:
                sp = self.auto_closure(cl)
                if sp is None:
                    if not c.closures:
                        self.census.append((qual, 'closure without specification', 0, 1))
                    continue
            self.rules.add('W5')
            ps = s.txt(*cl['params'])
            cn = {}
            for i, p in enumerate([x.strip() for x in split_top(ps)]):
                mm = re.match(r'&?\s*(\w+)', p)
                if mm:
                    cn[f'c{i}'] = mm.group(1)
            old = dict(names)
            names.update(cn)
            if 'params' not in sp and re.search(r'(^|,)\s*_\s*(?=,|$)', ps):
                cnt = iter(range(99))
                sp = dict(sp, params=re.sub(r'(^|,)(\s*)_\s*(?=,|$)', lambda q: f'{q.group(1)}{q.group(2)}_w{next(cnt)}', ps))
            if sp.get('ptypes'):
                # a pattern in parameter position becomes a let at the start of the body
                parts = [x.strip() for x in split_top(ps)]
                if len(parts) != len(sp['ptypes']):
                    raise Lost(f'closure parameters in {qual}')
                lets, nps = '', []
                for i, (p, ty) in enumerate(zip(parts, sp['ptypes'])):
                    nm = f'vp_c{k}_{i}'
                    if re.fullmatch(r'\w+', p) and p != '_':
                        nm = p
                    elif p != '_':
                        lets += f'let {p} = {nm}; '
                    cn[f'c{i}'] = nm
                    nps.append(f'{nm}: {ty}')
                names.update(cn)
                sp = dict(sp, params=', '.join(nps), start=lets + (sp.get('start') or ''))
            if 'params' in sp:
                np = fill(sp['params'])
                edits.append(Edit(T[cl['params'][0]].a, T[cl['params'][1]].a, np))
            head = f" -> (cr: {fill(sp['ret'])})"
            if sp.get('req'):
                head += f" requires {fill(sp['req'])}"
            head += f" ensures {fill(sp['ens'])} "
            pre = fill(sp['start']) if sp.get('start') else ''
            names.clear()
            names.update(old)
            a, b = cl['body']
            if cl['ret']:
                raise Lost('closure already has a return type')
            if cl['block']:
                edits.append(Edit(T[a].a, T[a].a, head))
                if pre:
                    edits.append(Edit(T[a].b, T[a].b, ' ' + pre))
            else:
                edits.append(Edit(T[a].a, T[a].a, head + '{ ' + pre))
                edits.append(Edit(T[b - 1].b, T[b - 1].b, ' }'))
        # constructors used as values
        for i in range(ba + 1, bb):
            if T[i].s == '(' and T[i - 1].k == 'id' and i + 1 < bb:
                e = m[i]
                inner = T[i + 1:e]
                if inner and all(t.k == 'id' or t.s == '::' for t in inner) and len(inner) >= 1:
                    path = ''.join(t.s for t in inner)
                    if path in self.ctors:
                        ty, spec_path = self.ctors[path]
                        self.rules.add('W5')
                        edits.append(Edit(inner[0].a, inner[-1].b,
                                          f'|cx| -> (cr: {ty}) ensures cr == {spec_path}(cx) {{ {path}(cx) }}'))
        # format macros
        if c.fmt:
            self.rules.add('W7')
            edits += self.lower_formats(ba, bb, c.fmt)
        if c.quote:
            self.rules.add('W11')
            edits += self.lower_quotes(ba, bb)
        for anchor, text in c.inserts:
            mm = list(re.finditer(anchor, btext))
            if len(mm) != 1:
                raise Lost(f'anchor {anchor!r} in {qual}: {len(mm)}')
            pos = T[ba].a + mm[0].end()
            self.rules.add('W6')
            edits.append(Edit(pos, pos, '\n' + fill(text) + '\n'))
        if c.start or self.probe:
            st = '\n' + fill(c.start)
            if self.probe:
                st += '\nproof { assert(false); /*@PROBE:' + qual + '@*/ }\n'
            edits.append(Edit(T[ba].b, T[ba].b, st))
        # attributes inside the body (e.g. #[derive] on local types) are dropped
        i = ba + 1
        while i < bb:
            if T[i].s == '#' and T[i + 1].s == '[':
                edits.append(Edit(T[i].a, T[m[i + 1]].b, ''))
                i = m[i + 1]
            i += 1
        body = apply_edits(s.text, T[ba].a, T[bb].b, edits)
        body = self._subst(body, c.subst)
        if c.post:
            body = c.post(body)
        if c.tail:   # ghost code between the last statement and the tail expression is not always needed
            body = body
        attrs = c.attrs
        if c.external:
            attrs += '\n#[verifier::external_body]'
        out = f'{attrs}\n{vis}{sig}\n' + (f'    {wh}\n' if wh else '') + '\n'.join(spec) + '\n' + body + '\n'
        return out

    def auto_closure(self, cl):
        """W5: a closure that just applies a known constructor specifies itself"""
        s, T, m = self.src, self.src.toks, self.src.m
        a, b = cl['body']
        if cl['ret']:
            return None
        if cl['block']:
            a, b = a + 1, b - 1
        if b <= a or any(t.s in (';', '!') for t in T[a:b]):
            return None
        i = a
        path = ''
        while i < b and (T[i].k == 'id' or T[i].s == '::'):
            path += T[i].s
            i += 1
        if path not in self.ctors:
            return None
        ty, spec_path = self.ctors[path]
        if i == b:
            return dict(ret=ty, ens=f'cr == {spec_path}')
        if T[i].s != '(' or m[i] != b - 1:
            return None
        pure = True
        for j in range(i + 1, b - 1):
            t = T[j]
            if t.s in ('.', '*', '&') and t.k == 'p':
                pure = pure and (t.s != '.' or T[j + 2].s not in ('(', '::'))
            elif t.s == '(' and T[j - 1].k == 'id':
                pure = pure and T[j - 1].s[0].isupper()
            elif t.k == 'str':
                pure = False
        if pure:
            return dict(ret=ty, ens=f'cr == {spec_path}{s.txt(i, b)}')
        return dict(ret=ty, ens=f'cr is {path.split("::")[-1]}')

    def fn(self, name, c=None, ty=None, trait=None, as_inherent=False, vis=True, header=None, assoc='', wrap=True, f=None):
        s = self.src
        f = f or s.find_fn(name, ty, trait)
        qual = f'{ty + "::" if ty else ""}{c.rename if c and c.rename else name}'
        cc = c or C()
        t = self.fn_text(f, cc, qual)
        if f.parent is not None and wrap:
            p = f.parent
            if header is not None:
                hd = header
            else:
                tr = '' if (as_inherent or not p.trait) else f'{self._subst(p.trait)} for '
                hd = f'impl{p.generics} {tr}{self._subst(p.self_ty)} {self._subst(p.where)}'
            if f.parent.trait and not as_inherent:
                t = re.sub(r'(?m)^pub ', '', t, count=1)
                types = [c2 for c2 in p.children if c2.kind == 'type']
                assoc = assoc + '\n'.join(self._subst(s.text[x.a:x.b]) for x in types)
            t = f'{hd} {{\n{assoc}\n{t}}}\n'
        self.raw(t)
        self.emitted_ids.add(id(f))
        self.emitted_src.append(f)
        if f.parent is not None:
            self.emitted_types.add(base(f.parent.self_ty))
        (self.contracted if c else self.uncontracted).append(qual)

    def auto_helpers(self, skip=()):
        """helpers the extracted bodies call that have no contract: copied along, callers know nothing of them"""
        T = self.src.toks
        while True:
            names = set(skip)
            names.clear()
            for f in self.emitted_src:
                for i in range(f.body[0], f.body[1]):
                    if T[i].k == 'id' and T[i + 1].s in ('(', '::', ')', ','):
                        names.add(T[i].s)
            txt = '\n'.join(self.parts)
            new = [f for f in self.src.fns() if f.name in names and id(f) not in self.emitted_ids and f.name not in skip
                   and f.body is not None and not re.search(r'\bfn\s+' + f.name + r'\b', txt)
                   and (f.parent is None or (f.parent.kind == 'impl' and not f.parent.trait
                                             and base(f.parent.self_ty) in self.emitted_types))]
            if not new:
                return
            for f in new:
                self.fn(f.name, None, f=f, ty=f.parent.self_ty if f.parent else None)

    def lower_formats(self, ba, bb, handlers):
        """W7. handlers: {macro name: function(list of pieces, args before the literal) -> replacement text}.
        A piece is ('lit', text) | ('disp', expr) | ('dbg', expr)."""
        s, T, m = self.src, self.src.toks, self.src.m
        out = []
        i = ba + 1
        while i < bb:
            if T[i].k == 'id' and T[i].s in handlers and T[i + 1].s == '!' and T[i + 2].s in OPEN:
                a, b = i + 2, m[i + 2]
                args = [x for x in self._split(a + 1, b)]
                li = next((k for k, (x, y) in enumerate(args) if T[x].k == 'str' and y == x + 1), None)
                if li is None:
                    raise Lost('format macro without literal')
                lit = T[args[li][0]].s
                pieces = parse_fmt(lit, [s.txt(x, y) for (x, y) in args[li + 1:]])
                pre = [s.txt(x, y) for (x, y) in args[:li]]
                out.append(Edit(T[i].a, T[b].b, handlers[T[i].s](pieces, pre)))
                i = b
            i += 1
        return out

    def lower_quotes(self, ba, bb):
        T, m = self.src.toks, self.src.m
        out = []
        i = ba + 1
        while i < bb:
            if T[i].k == 'id' and T[i].s == 'quote' and T[i + 1].s == '!' and T[i + 2].s in OPEN:
                a, b = i + 2, m[i + 2]
                out.append(Edit(T[i].a, T[b].b, self.quote_expr(a + 1, b)))
                i = b
            i += 1
        return out

    def quote_expr(self, a, b):
        T, m = self.src.toks, self.src.m
        e = 'vq::new()'
        lit = []
        i = a

        def flush(e):
            if lit:
                t = ' '.join(lit).replace('\\', '\\\\').replace('"', '\\"')
                e = f'vq::lit({e}, "{t}")'
                lit.clear()
            return e
        while i < b:
            if T[i].s == 'let' and [x.s for x in T[i + 1:i + 3]] == ['_', '='] and T[i + 3].k == 'num' and T[i + 4].s == ';':
                i += 5      # a statement that does nothing
                continue
            if T[i].s == '#' and i + 1 < b and T[i + 1].k == 'id':
                e = f'vq::val({flush(e)}, &{T[i + 1].s})'
                i += 2
            elif T[i].s == '#' and i + 1 < b and T[i + 1].s == '(':
                x, y = i + 1, m[i + 1]
                j = y + 1
                sep = ''
                if T[j].s != '*':
                    sep = T[j].s
                    j += 1
                if T[j].s != '*':
                    raise Lost('quote repetition')
                # one interpolation among literal tokens
                hs = [k for k in range(x + 1, y) if T[k].s == '#']
                if not (len(hs) == 1 and T[hs[0] + 1].k == 'id'):
                    raise Lost('quote repetition of another form')
                h = hs[0]
                esc = lambda a, b: ' '.join(t.s for t in T[a:b]).replace('\\', '\\\\').replace('"', '\\"')
                before, after = esc(x + 1, h), esc(h + 2, y)
                if before:
                    e = f'vq::rep2({flush(e)}, {T[h + 1].s}, "{before}", "{after}", "{sep}")'
                else:
                    e = f'vq::rep({flush(e)}, {T[h + 1].s}, "{after}", "{sep}")'
                i = j + 1
            else:
                lit.append(T[i].s)
                i += 1
        return flush(e)

    def _split(self, a, b):
        T, m = self.src.toks, self.src.m
        st = a
        i = a
        while i <= b:
            if i == b or (T[i].k == 'p' and T[i].s == ','):
                if i > st:
                    yield (st, i)
                st = i + 1
            elif T[i].k == 'p' and T[i].s in OPEN:
                i = m[i]
            i += 1

    def expand_macro(self, impl_item, macro):
        """W8: text of each invocation of a one-arm macro_rules inside impl_item, as separate Src"""
        s, T, m = self.src, self.src.toks, self.src.m
        mi = s.find('macro_rules', macro)
        a, b = mi.body
        i = a + 1
        pa, pb = i, m[i]
        assert T[pb + 1].s == '=>'
        ta, tb = pb + 2, m[pb + 2]
        rest = [t for t in T[tb + 1:b] if t.s != ';']
        if rest:
            raise Lost(f'macro {macro} has more than one arm')
        params = re.findall(r'\$(\w+)\s*:\s*(\w+)', s.txt(pa + 1, pb))
        tmpl = s.text[T[ta].b:T[tb].a]
        out = []
        for c in impl_item.children:
            if c.kind == 'macro_call' and c.name == macro:
                x, y = c.body
                args = [s.txt(p, q) for p, q in self._split(x + 1, y)]
                if len(args) != len(params):
                    raise Lost(f'macro {macro} arguments')
                t = tmpl
                for (pn, _), av in zip(params, args):
                    t = re.sub(r'\$' + pn + r'\b', lambda _m: av, t)
                out.append(t)
        self.rules.add('W8')
        return out

    def text(self):
        return '\n'.join(self.parts)


def lower_for_each(text, depth=0):
    """W14, on a whole source text; the iterators become vp_it<depth>, the results vp_r<depth>"""
    toks = lex(text)
    m = match_delims(toks)
    edits, end = [], -1
    for i in range(1, len(toks) - 3):
        if i <= end or not (toks[i].k == 'id' and toks[i].s in ('try_for_each', 'for_each') and toks[i - 1].s == '.' and toks[i + 1].s == '(' and toks[i + 2].s in ('|', 'move')):
            continue
        tr = toks[i].s == 'try_for_each'
        j = i + 2 + (toks[i + 2].s == 'move')
        e = j + 1
        while toks[e].s != '|':
            e = m[e] + 1 if toks[e].s in OPEN else e + 1
        pat = text[toks[j].b:toks[e].a].strip()
        close = m[i + 1]
        last = close - 1 if toks[close - 1].s == ',' else close
        body = (e + 1, last)
        # the receiver: back to the start of the postfix chain
        k = i - 1
        while True:
            p = toks[k - 1]
            if p.s in (')', ']') and toks[k].s != '{':
                k = next(x for x in range(k - 1, -1, -1) if m.get(x) == k - 1)
            elif p.k in ('id', 'num', 'str') and p.s not in ('return', 'in', 'let', 'match', 'if', 'else', 'mut', 'move'):
                k -= 1
            elif p.s in ('.', '::', '?'):
                k -= 1
            else:
                break
        recv = text[toks[k].a:toks[i - 1].a]
        # `return` of this closure, not of closures inside it
        inner = []
        x, bt = body[0], text[toks[body[0]].a:toks[body[1] - 1].b]
        off = toks[body[0]].a
        sub = find_closures_in(toks, m, *body)
        loops = [y for y in range(*body) if toks[y].k == 'id' and toks[y].s in ('for', 'while', 'loop') and not any(a <= y < b for a, b in sub)]
        while x < body[1]:
            if toks[x].k == 'id' and toks[x].s == 'return' and not any(a <= x < b for a, b in sub):
                if loops:
                    raise Lost('return inside a loop inside a closure')
                y = x + 1
                while toks[y].s not in (';', ',', '}'):
                    y = m[y] + 1 if toks[y].s in OPEN else y + 1
                val = text[toks[x].b:toks[y].a].strip()
                inner.append(Edit(toks[x].a - off, toks[y].a - off, (f'{{ vp_r{depth} = {val}; break; }}' if tr else '{ continue; }')))
                x = y
            x += 1
        bt = lower_for_each(apply_edits(bt, 0, len(bt), inner), depth + 1)
        if tr:
            new = (f'({{ let mut vp_r{depth} = Ok(()); let mut vp_it{depth} = {recv}; loop {{ match vp_it{depth}.next() {{ None => {{ break; }} '
                   f'Some({pat}) => {{ vp_r{depth} = {bt}; if vp_r{depth}.is_err() {{ break; }} }} }} }} vp_r{depth} }})')
        else:
            new = f'{{ let mut vp_it{depth} = {recv}; loop {{ match vp_it{depth}.next() {{ None => {{ break; }} Some({pat}) => {{ {bt}; }} }} }} }}'
        edits.append(Edit(toks[k].a, toks[close].b, new))
        end = close
    return apply_edits(text, 0, len(text), edits)


def lower_for(text, only=None):
    """W15: `for P in E { B }` becomes a loop over `(E).vp_each().next()`; the iterators of a function are vp_f0, vp_f1, .."""
    toks = lex(text)
    m = match_delims(toks)
    edits, n, fn_end, name = [], 0, -1, ''
    for i, t in enumerate(toks):
        if t.k == 'id' and t.s == 'fn' and i > fn_end:
            j = i
            name = toks[i + 1].s
            while j < len(toks) and toks[j].s not in ('{', ';'):
                j = m[j] + 1 if toks[j].s in ('(', '[') else j + 1
            if j < len(toks) and toks[j].s == '{':
                n, fn_end = 0, m[j]
        if t.k == 'id' and t.s == 'for' and i < fn_end and toks[i + 1].s != '<' and (not only or name in only):
            j = i + 1
            while toks[j].s not in ('in', ';'):
                j = m[j] + 1 if toks[j].s in OPEN else j + 1
            if toks[j].s != 'in':
                raise Lost('a for without in')
            b = j + 1
            while toks[b].s != '{':
                b = m[b] + 1 if toks[b].s in OPEN else b + 1
            pat, e = text[toks[i].b:toks[j].a].strip(), text[toks[j].b:toks[b].a].strip()
            edits.append(Edit(toks[i].a, toks[b].b, f'{{ let mut vp_f{n} = ({e}).vp_each(); loop {{ let vp_n{n} = vp_f{n}.next(); if vp_n{n}.is_none() {{ break; }} let {pat} = vp_n{n}.unwrap(); '))
            edits.append(Edit(toks[m[b]].a, toks[m[b]].b, '} }'))
            n += 1
    return apply_edits(text, 0, len(text), edits)


def receiver(toks, m, k):
    """the first token of the postfix chain that ends before token k (a dot)"""
    while True:
        p = toks[k - 1]
        if p.s in (')', ']') and toks[k].s != '{':
            k = next(x for x in range(k - 1, -1, -1) if m.get(x) == k - 1)
        elif p.k in ('id', 'num', 'str') and p.s not in ('return', 'in', 'let', 'match', 'if', 'else', 'mut', 'move'):
            k -= 1
        elif p.s in ('.', '::', '?'):
            k -= 1
        else:
            return k


def lower_collect(text, only=None):
    """W16; the iterators of a function are vp_c0, vp_c1, .., the vectors vp_o0, vp_o1, .."""
    toks = lex(text)
    m = match_delims(toks)
    edits, n, fn_end, name = [], 0, -1, ''
    for i, t in enumerate(toks):
        if t.k == 'id' and t.s == 'fn' and i > fn_end:
            j = i
            name = toks[i + 1].s
            while j < len(toks) and toks[j].s not in ('{', ';'):
                j = m[j] + 1 if toks[j].s in ('(', '[') else j + 1
            if j < len(toks) and toks[j].s == '{':
                n, fn_end = 0, m[j]
        if i < 1 or i >= fn_end or not (t.k == 'id' and t.s == 'map' and toks[i - 1].s == '.' and toks[i + 1].s == '(' and toks[i + 2].s in ('|', 'move')) or (only and name not in only):
            continue
        close = m[i + 1]
        tail = re.match(r'\s*\.\s*collect::<\s*Result<\s*Vec<\s*_\s*>\s*>\s*>\(\)\?', text[toks[close].b:])
        if not tail:
            continue
        j = i + 2 + (toks[i + 2].s == 'move')
        e = j + 1
        while toks[e].s != '|':
            e = m[e] + 1 if toks[e].s in OPEN else e + 1
        pat = text[toks[j].b:toks[e].a].strip()
        last = close - 1 if toks[close - 1].s == ',' else close
        sub = find_closures_in(toks, m, e + 1, last)
        if any(toks[x].k == 'id' and toks[x].s == 'return' and not any(a <= x < b for a, b in sub) for x in range(e + 1, last)):
            raise Lost('return inside a collected closure')
        k = receiver(toks, m, i - 1)
        # the receiver and the body stay in place, so that their own parts can still be found
        edits.append(Edit(toks[k].a, toks[k].a, f'{{ let mut vp_o{n} = Vec::new(); let mut vp_c{n} = '))
        edits.append(Edit(toks[i - 1].a, toks[e].b, f'; loop {{ let vp_m{n} = vp_c{n}.next(); if vp_m{n}.is_none() {{ break; }} let {pat} = vp_m{n}.unwrap(); let vp_y{n}: Result<_> = '))
        edits.append(Edit(toks[last - 1].b, toks[close].b + tail.end(), f'; vp_o{n}.push(vp_y{n}?); }} vp_o{n} }}'))
        n += 1
    return apply_edits(text, 0, len(text), edits)


def find_closures_in(toks, m, a, b):
    """token ranges of the closure bodies in a token range (approximate: a bar after an opening or separating token)"""
    out = []
    i = a
    while i < b:
        if toks[i].s in ('|', '||') and toks[i - 1].s in ('(', ',', '=', 'move') and toks[i].k == 'p':
            j = i + 1
            if toks[i].s == '|':
                while toks[j].s != '|':
                    j = m[j] + 1 if toks[j].s in OPEN else j + 1
                j += 1
            e = j
            while e < b and toks[e].s not in (',', ')', ';', '}'):
                e = m[e] + 1 if toks[e].s in OPEN else e + 1
            out.append((i, e))
            i = e
        i += 1
    return out


def split_top(t):
    toks = lex(t)
    m = match_delims(toks)
    out, st, i = [], 0, 0
    while i < len(toks):
        if toks[i].k == 'p' and toks[i].s in OPEN:
            i = m[i]
        elif toks[i].k == 'p' and toks[i].s == ',':
            out.append(t[toks[st].a:toks[i - 1].b])
            st = i + 1
        i += 1
    if st < len(toks):
        out.append(t[toks[st].a:toks[-1].b])
    return out


def parse_fmt(lit, args):
    assert lit[0] == '"', lit
    body = lit[1:-1]
    pieces, cur, pos, i = [], '', 0, 0
    named = {}
    posargs = []
    for a in args:
        mm = re.match(r'(\w+)\s*=(?!=)\s*(.*)', a, re.S)
        if mm:
            named[mm.group(1)] = mm.group(2)
        else:
            posargs.append(a)
    while i < len(body):
        ch = body[i]
        if ch == '{':
            if body[i + 1] == '{':
                cur += '{'
                i += 2
                continue
            j = body.index('}', i)
            spec = body[i + 1:j]
            arg, _, fmt = spec.partition(':')
            arg = arg.strip()
            if cur:
                pieces.append(('lit', cur))
                cur = ''
            if arg == '':
                e = posargs[pos]
                pos += 1
            elif arg.isdigit():
                e = posargs[int(arg)]
            else:
                e = named.get(arg, arg)
            if fmt not in ('', '?', '#?'):
                raise Lost(f'format spec {fmt!r}')
            pieces.append(('disp' if fmt == '' else ('dbg' if fmt == '?' else 'dbgalt'), e))
            i = j + 1
        elif ch == '}':
            cur += '}'
            i += 2
        else:
            cur += ch
            i += 1
    if cur:
        pieces.append(('lit', cur))
    return pieces
