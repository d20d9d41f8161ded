"""What a document says about its operations, read independently of the generator."""
import re

METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'trace']
KEYWORDS = {'type', 'ref', 'self', 'match', 'use', 'in', 'for', 'fn', 'mod', 'loop', 'if', 'let', 'move', 'async', 'await', 'where', 'box', 'final'}


def snake(n):
    n = re.sub(r'[^A-Za-z0-9_]', '-', n.replace("'", ''))
    w = []
    for part in re.split(r'[-_]+', n):
        w += re.findall(r'[A-Z]+(?![a-z])|[A-Z]?[a-z0-9]+|[0-9]+', part)
    s = '_'.join(x.lower() for x in w) or 'x'
    if s[0].isdigit():
        s = '_' + s
    return s + '_' if s in KEYWORDS else s


def pascal(n):
    return ''.join(x[:1].upper() + x[1:] for x in snake(n).rstrip('_').split('_'))


class Op:
    pass


class Param:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return f'{self.where}:{self.api}'


def resolve(doc, x):
    while '$ref' in x:
        _, _, kind, name = x['$ref'].rsplit('/', 3)
        x = doc['components'][kind][name]
    return x


def typed(ct):
    return ct == 'application/json' or ct.startswith('application/json;')


def response_kind(doc, r, ws):
    r = resolve(doc, r)
    for ct, m in r.get('content', {}).items():
        if typed(ct):
            return ('typed', m['schema'])
    if ws:
        return ('upgrade', None)
    return ('raw', None) if r.get('content') else ('none', None)


def read(entry):
    """the operations of one member of the family"""
    doc, builder = entry['doc'], entry['interface'] == 'builder'
    ops = []
    for path, item in doc['paths'].items():
        for m in METHODS:
            if m not in item:
                continue
            o, x = item[m], Op()
            x.doc, x.builder, x.method, x.path, x.oid, x.tags = doc, builder, m, path, o['operationId'], o.get('tags', [])
            x.version, x.inner, x.hooks, x.style = doc['info']['version'], entry['inner'], entry['hooks'], entry['tag']
            x.ws = 'x-dropshot-websocket' in o
            d = {}
            for p in item.get('parameters', []) + o.get('parameters', []):
                p = resolve(doc, p)
                d[p['in'], p['name']] = p
            names = re.findall(r'\{([^{}]*)\}', path)
            ps = []
            for (where, api), p in d.items():
                s = p['schema']
                opt = where != 'path' and not p.get('required', False)
                s2 = resolve(doc, s)
                if where == 'query' and s2.get('nullable'):
                    opt = True
                ps.append(Param(where=where, api=api, name=snake(api), schema=s, opt=opt))
            order = {'path': 0, 'query': 1, 'header': 2, 'body': 3}
            ps.sort(key=lambda p: (order[p.where], names.index(p.api) if p.where == 'path' else 0, p.api))
            x.body = None
            if 'requestBody' in o:
                b = resolve(doc, o['requestBody'])
                (ct, mt), = b['content'].items()
                base = ct.split(';')[0]
                x.body = Param(where='body', api='body', name='body', schema=mt['schema'], opt=False, ct=base,
                               kind={'application/json': 'json', 'application/x-www-form-urlencoded': 'form', 'application/octet-stream': 'octets'}.get(base, 'text'))
                ps.append(x.body)
            x.params = ps
            # responses
            rs = [(k, response_kind(doc, v, x.ws)) for k, v in o['responses'].items()]
            if not any(k == 'default' or k == '2XX' or (k.isdigit() and 200 <= int(k) <= 299) for k, _ in rs):
                rs.append(('2XX', ('raw', None)))
            if x.ws:
                rs.append(('101', ('upgrade', None)))
            key = lambda k: 1000 if k == 'default' else int(k[0]) * 100 + 99.5 if k.endswith('XX') else int(k)
            rs.sort(key=lambda e: key(e[0]))
            x.rs = rs
            ok = [e for e in rs if e[0] in ('default', '2XX', '101') or (e[0].isdigit() and 200 <= int(e[0]) <= 299)]
            if any(k == '2XX' for k, _ in ok):
                ok = [e for e in ok if e[0] != 'default']
            bad = [e for e in rs if e[0] in ('default', '4XX', '5XX') or (e[0].isdigit() and 400 <= int(e[0]) <= 599)]
            arms = []
            for k, kind in ok:
                lo, hi = (200, 299) if k in ('default', '2XX') else (int(k), int(k))
                arms.append((lo, hi, True, kind))
            for k, kind in bad:
                if k == 'default' and kind[0] == 'upgrade':
                    continue
                lo, hi = (0, 65535) if k == 'default' else (int(k[0]) * 100, int(k[0]) * 100 + 99) if k.endswith('XX') else (int(k), int(k))
                arms.append((lo, hi, False, kind))
            x.arms = arms
            x.ok_kind = next((k for _, k in ok), ('none', None))
            x.err_kind = next((k for _, k in bad), ('none', None))
            x.accept = x.ok_kind[0] == 'typed' or (x.ok_kind[0] == 'none' and x.err_kind[0] == 'typed')
            # pages
            x.paged = False
            if 'x-dropshot-pagination' in o and x.ok_kind[0] == 'typed':
                s = resolve(doc, x.ok_kind[1])
                qs = [p for p in ps if p.where == 'query']
                pp = s.get('properties', {})
                x.paged = (set(pp) == {'items', 'next_page'} and {'page_token', 'limit'} <= {p.api for p in qs} and all(p.opt for p in qs)
                           and not (x.body and x.body.kind in ('octets', 'text')))
                x.item = pp['items']['items'] if x.paged else None
            ops.append(x)
    return ops


def arm(op, status):
    """-> (success?, kind) of the arm that answers a status, or None"""
    for lo, hi, good, kind in op.arms:
        if lo <= status <= hi:
            return good, kind
    return None


def pieces(path):
    """literal and parameter pieces of a path"""
    out = []
    for i, t in enumerate(re.split(r'\{([^{}]*)\}', path)):
        if i % 2:
            out.append(('p', t))
        elif t:
            out.append(('t', t))
    return out
