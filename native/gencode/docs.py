"""The documents whose generated clients are verified and run (G20, G21, G22)."""
import random

S = {'type': 'string'}
I = {'type': 'integer', 'format': 'int64'}
I32 = {'type': 'integer', 'format': 'int32'}
U8 = {'type': 'integer', 'format': 'uint8'}
B = {'type': 'boolean'}
F = {'type': 'number', 'format': 'double'}
A = {'type': 'array', 'items': S}
AI = {'type': 'array', 'items': I}
COLOR = {'$ref': '#/components/schemas/Color'}
THING = {'$ref': '#/components/schemas/Thing'}
FILTER = {'$ref': '#/components/schemas/Filter'}
PROBLEM = {'$ref': '#/components/schemas/Problem'}

SCHEMAS = {
    'Color': {'type': 'string', 'enum': ['red', 'dark-blue']},
    'Thing': {'type': 'object', 'required': ['id', 'name'], 'properties': {'id': I, 'name': S, 'note': S}},
    'Filter': {'type': 'object', 'required': ['low'], 'properties': {'low': I, 'high': I}},
    'Problem': {'type': 'object', 'required': ['code'], 'properties': {'code': S}},
}


def par(where, name, schema=S, required=True, **kw):
    return dict({'in': where, 'name': name, 'required': required, 'schema': schema}, **kw)


def path(n, s=S):
    return par('path', n, s)


def q(n, s=S, required=False, **kw):
    return par('query', n, s, required, **kw)


def h(n, s=S, required=False):
    return par('header', n, s, required)


def js(schema, d='d'):
    return {'description': d, 'content': {'application/json': {'schema': schema}}}


def none(d='d'):
    return {'description': d}


def raw(ct='application/octet-stream', d='d'):
    return {'description': d, 'content': {ct: {'schema': {'type': 'string', 'format': 'binary'}}}}


def body(ct, schema):
    return {'required': True, 'content': {ct: {'schema': schema}}}


BIN = {'type': 'string', 'format': 'binary'}
OK = {'200': js(THING), '4XX': js(PROBLEM), '5XX': js(PROBLEM)}


class Doc:
    def __init__(self, version='1.2.3', tags=False):
        self.paths, self.n, self.version, self.tags = {}, 0, version, tags
        self.components = {'schemas': dict(SCHEMAS), 'parameters': {}, 'requestBodies': {}, 'responses': {}}

    def op(self, oid, method, p, params=(), responses=None, body=None, shared=None, **kw):
        item = self.paths.setdefault(p, {})
        if shared:
            item['parameters'] = list(shared)
        assert method not in item, (oid, p)
        self.n += 1
        o = {'operationId': oid, 'parameters': list(params), 'responses': responses if responses is not None else {'204': none()}}
        if body:
            o['requestBody'] = body
        if self.tags:
            o['tags'] = [[], ['alpha'], ['beta'], ['alpha', 'beta']][self.n % 4]
        o.update(kw)
        item[method] = o

    def json(self):
        return {'openapi': '3.0.3', 'info': {'title': 'T', 'version': self.version}, 'paths': self.paths, 'components': self.components,
                'tags': [{'name': 'alpha', 'description': 'the first'}, {'name': 'beta'}] if self.tags else []}


METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'trace']


def main_doc(tags=False, objects=False):
    d = Doc(tags=tags)
    for m in METHODS:
        d.op('m_' + m, m, '/m', responses={'204': none()})
        d.op('mp_' + m, m, '/mp/{a}', [path('a'), q('b'), h('c')], responses={'2XX': none(), '404': none()})
    # paths
    d.op('p_two', 'get', '/p/{b}/{a}', [path('a'), path('b', I)], OK)
    d.op('p_joint', 'get', '/p/{x}-{y}/tail', [path('y', I32), path('x')])
    d.op('p_again', 'get', '/p/{id}/again/{id}', [path('id')])
    d.op('p_names', 'get', '/p/kebab/{kebab-name}/{type}/{camelCase}', [path('type'), path('kebab-name'), path('camelCase', B)])
    d.op('p_taken', 'get', '/p/taken/{url}/{request}', [path('url'), path('request'), q('response'), q('result', I, True), q('client'), h('x-url'), h('header_map')])
    d.op('p_enum', 'get', '/p/color/{c}', [path('c', COLOR)])
    d.op('p_shared', 'get', '/p/shared/{s}/{t}', [path('t', I)], shared=[path('t'), path('s'), q('u', S, True)])
    d.op('p_shared_put', 'put', '/p/shared/{s}/{t}', [q('u', I)], shared=None)
    d.components['parameters']['Page'] = q('page', I32, True)
    d.components['parameters']['Alias'] = {'$ref': '#/components/parameters/Page'}
    d.op('p_ref', 'get', '/p/ref', [{'$ref': '#/components/parameters/Alias'}])
    d.op('p_literal', 'get', '/p/lit%20eral/a.b:c/{z}.json', [path('z')])
    # queries
    d.op('q_scalars', 'get', '/q/scalars', [q('s', S, True), q('i', I, True), q('b', B, True), q('f', F, True), q('c', COLOR, True), q('u', U8, True)], OK)
    d.op('q_optional', 'get', '/q/optional', [q('s'), q('i', I), q('b', B), q('c', COLOR), q('z', F)], OK)
    d.op('q_arrays', 'get', '/q/arrays', [q('list', A, True), q('nums', AI), q('plain')])
    if objects:     # builder style does not support structured query parameters
        d.op('q_object', 'get', '/q/object', [q('filter', FILTER, True), q('more', FILTER)])
    d.op('q_names', 'get', '/q/names', [q('page[size]', I), q('camelCase'), q('kebab-case', S, True), q('Upper'), q('match', S, True), q('dot.ted')])
    d.op('q_signs', 'get', '/q/signs', [q('tag[]', A), q('$top', I), q('_from', S, True), q('a.b[c]'), q('limit', I), q('page_token', S, True), q('body'), q('UPPER_CASE', B, True), q('x:y')])
    d.op('q_nullable', 'get', '/q/nullable', [q('maybe', {'type': 'string', 'nullable': True}, True), q('other', S, True)])
    # headers
    d.op('h_both', 'get', '/h/both', [h('X-Required', S, True), h('x-optional'), h('X-Count', I), h('x-flag', B, True)], OK)
    d.op('h_value', 'get', '/h/value', [h('value'), h('another-value'), h('x-color', COLOR)])
    d.op('h_mixed', 'post', '/h/mixed/{a}', [h('x-h', S, True), q('q', S, True), path('a')], OK, body('application/json', THING))
    # bodies
    d.op('b_json', 'post', '/b/json', [], {'201': js(THING)}, body('application/json', THING))
    d.op('b_json_cs', 'put', '/b/json', [], {'201': js(THING)}, body('application/json; charset=utf-8', THING))
    d.op('b_list', 'post', '/b/list', [q('k')], {'204': none()}, body('application/json', {'type': 'array', 'items': S}))
    d.op('b_text', 'post', '/b/text', [], {'204': none()}, body('application/json', S))
    d.op('b_form', 'post', '/b/form', [q('k')], {'204': none()}, body('application/x-www-form-urlencoded', THING))
    d.op('b_octets', 'post', '/b/octets/{a}', [path('a'), h('x-h')], {'204': none()}, body('application/octet-stream', BIN))
    d.op('b_plain', 'post', '/b/plain', [], {'204': none()}, body('text/plain', S))
    d.op('b_markdown', 'put', '/b/plain', [q('k')], {'204': none()}, body('text/x-markdown', S))
    d.components['requestBodies']['ThingBody'] = body('application/json', THING)
    d.op('b_ref', 'post', '/b/ref', [], OK, {'$ref': '#/components/requestBodies/ThingBody'})
    # responses
    d.op('r_typed', 'get', '/r/typed', [], {'200': js(THING), '400': js(PROBLEM), '404': js(PROBLEM)})
    d.op('r_range', 'get', '/r/range', [], {'2XX': js(THING), '4XX': js(PROBLEM)})
    d.op('r_order', 'get', '/r/order', [], {'5XX': js(PROBLEM), '2XX': js(THING), '503': js(PROBLEM), '201': js(THING), '4XX': js(PROBLEM), '404': js(PROBLEM)})
    d.op('r_default', 'get', '/r/default', [], {'default': js(THING)})
    d.op('r_ok_default', 'get', '/r/okdefault', [], {'200': js(THING), '201': js(THING), 'default': js(THING)})
    d.op('r_range_default', 'get', '/r/rangedefault', [], {'2XX': js(THING), 'default': js(PROBLEM)})
    d.op('r_empty', 'get', '/r/empty', [], {'204': none(), '404': none()})
    d.op('r_empty_typed_error', 'get', '/r/emptyerr', [], {'204': none(), '4XX': js(PROBLEM)})
    d.op('r_raw', 'get', '/r/raw', [], {'200': raw(), '4XX': raw('text/plain')})
    d.op('r_raw_typed_error', 'get', '/r/rawerr', [], {'200': raw('text/plain'), '500': js(PROBLEM)})
    d.op('r_unlisted', 'get', '/r/unlisted', [], {'404': js(PROBLEM)})
    d.op('r_nothing', 'get', '/r/nothing', [], {})
    d.op('r_charset', 'get', '/r/charset', [], {'200': {'description': 'd', 'content': {'application/json; charset=utf-8': {'schema': THING}}}, '4XX': js(PROBLEM)})
    d.op('r_odd_class', 'get', '/r/oddclass', [], {'200': js(THING), '304': none(), '3XX': none(), '400': js(PROBLEM)})
    d.op('r_list', 'get', '/r/list', [], {'200': js({'type': 'array', 'items': THING}), '4XX': none()})
    d.op('r_scalar', 'get', '/r/scalar', [], {'200': js(I), '201': js(I)})
    d.components['responses']['Err'] = js(PROBLEM)
    d.components['responses']['Thing'] = js(THING)
    d.op('r_ref', 'get', '/r/ref', [], {'200': {'$ref': '#/components/responses/Thing'}, '4XX': {'$ref': '#/components/responses/Err'}})
    return d


def hook_doc():
    d = Doc('2.0.0-beta')
    d.op('k_get', 'get', '/k/{a}', [path('a'), q('q'), h('x-h')], OK)
    d.op('k_post', 'post', '/k/{a}', [path('a')], OK, body('application/json', THING))
    d.op('k_raw', 'put', '/k/{a}', [path('a')], {'200': raw()}, body('text/plain', S))
    return d


def socket_doc():
    d = Doc()
    d.op('w_plain', 'get', '/w/{a}', [path('a'), q('q', I, True)], {'default': none()}, **{'x-dropshot-websocket': {}})
    d.op('w_other', 'get', '/other', [h('x-h')], OK)
    return d


PAGE = {'type': 'object', 'required': ['items'], 'properties': {'items': {'type': 'array', 'items': THING}, 'next_page': {'type': 'string', 'nullable': True}}}
PAGES = {'2XX': js({'$ref': '#/components/schemas/ThingPage'}), '4XX': js(PROBLEM), '5XX': js(PROBLEM)}
PT, LIM = q('page_token', {'type': 'string', 'nullable': True}), q('limit', {'type': 'integer', 'format': 'uint32', 'nullable': True})


def page_doc(tags=False):
    d = Doc(tags=tags)
    d.components['schemas']['ThingPage'] = PAGE
    x = {'x-dropshot-pagination': {'required': []}}
    d.op('g_plain', 'get', '/g/plain', [PT, LIM], PAGES, **x)
    d.op('g_path', 'get', '/g/path/{a}/{b}', [LIM, path('a'), PT, path('b', I)], PAGES, **x)
    d.op('g_filter', 'get', '/g/filter', [q('aaa'), PT, LIM, q('sort', COLOR), q('zzz', I)], PAGES, **x)
    d.op('g_header', 'get', '/g/header', [h('x-h', S, True), h('x-o'), PT, LIM], PAGES, **x)
    d.op('g_body', 'post', '/g/body/{a}', [path('a'), PT, LIM], PAGES, body('application/json', THING), **x)
    d.op('g_first', 'get', '/g/first/{a}', [q('sort', COLOR), PT, path('a'), LIM, q('more', I), q('zzz')], PAGES, **{'x-dropshot-pagination': {'required': ['sort', 'zzz']}})
    d.op('g_last', 'get', '/g/last', [q('more'), q('sort'), PT, LIM, h('x-o')], PAGES, **{'x-dropshot-pagination': {'required': ['limit', 'sort']}})
    d.op('g_unmarked', 'get', '/g/unmarked', [PT, LIM], PAGES)
    return d


def mock_doc():
    """what the mocking extension supports"""
    d = Doc('3.1.4')
    for m in METHODS:
        d.op('m_' + m, m, '/m', responses={'204': none()})
        d.op('mp_' + m, m, '/mp/{a}', [path('a'), q('b'), q('c', I, True)], responses={'2XX': none(), '404': none()})
    d.op('p_two', 'get', '/p/{b}/{a}', [path('a'), path('b', I)], OK)
    d.op('p_joint', 'get', '/p/{x}-{y}/tail', [path('y', I32), path('x')])
    d.op('p_long', 'get', '/p/{b}/{a}/{c}/end', [path('a'), path('b', COLOR), path('c', B)], OK)
    d.op('p_names', 'get', '/p/kebab/{kebab-name}/{type}/{camelCase}', [path('type'), path('kebab-name'), path('camelCase', B)])
    d.op('p_enum', 'get', '/pcolor/{c}', [path('c', COLOR)])
    d.op('p_literal', 'get', '/lit-eral/abc/{z}_json', [path('z')])
    d.op('q_scalars', 'get', '/q/scalars', [q('s', S, True), q('i', I, True), q('b', B, True), q('c', COLOR, True), q('u', U8, True)], OK)
    d.op('q_optional', 'get', '/q/optional', [q('s'), q('i', I), q('b', B), q('c', COLOR), q('page_token')], OK)
    d.op('q_prefixes', 'get', '/q/prefixes', [q('page'), q('page_token'), q('token', S), q('pag', I)], OK)
    d.op('b_json', 'post', '/b/json', [], {'201': js(THING)}, body('application/json', THING))
    d.op('b_both', 'put', '/b/json', [q('k')], {'201': js(THING)}, body('application/json; charset=utf-8', THING))
    d.op('b_list', 'post', '/b/list', [q('k')], {'204': none()}, body('application/json', A))
    d.op('b_plain', 'post', '/b/plain/{a}', [path('a')], {'204': none()}, body('text/plain', S))
    d.op('b_octets', 'post', '/b/octets', [], {'204': none()}, body('application/octet-stream', BIN))
    d.op('r_typed', 'get', '/r/typed', [], {'200': js(THING), '400': js(PROBLEM), '404': js(PROBLEM), '418': js(PROBLEM)})
    d.op('r_range', 'get', '/r/range', [], {'2XX': js(THING), '3XX': none(), '4XX': js(PROBLEM), '5XX': js(PROBLEM), '503': js(PROBLEM)})
    d.op('r_default', 'get', '/r/default', [], {'2XX': js(THING), 'default': js(PROBLEM)})
    d.op('r_default_only', 'get', '/r/defaultonly', [], {'default': js(THING)})
    d.op('r_raw', 'get', '/r/raw', [], {'200': raw(), '5XX': raw('text/plain')})
    d.op('r_list', 'get', '/r/list', [], {'200': js({'type': 'array', 'items': THING}), '403': none()})
    d.op('r_nothing', 'get', '/r/nothing', [], {})
    d.op('w_sock', 'get', '/w/{a}', [path('a'), q('q', I, True)], {'default': none()}, **{'x-dropshot-websocket': {}})
    return d


def cli_doc():
    """what the command line supports"""
    d = Doc('0.9.1')
    sc = d.components['schemas']
    sc['Many'] = {'type': 'object', 'required': ['color', 'count', 'isOn', 'kebab-prop'], 'properties': {
        'color': dict(COLOR), 'count': dict(I32, description='how many'), 'isOn': B, 'kebab-prop': S, 'ratio': F, 'small': U8, 'type': S, 'shade': dict(COLOR), 'ANumber': I}}
    sc['Deep'] = {'type': 'object', 'required': ['name', 'tags'], 'properties': {'name': S, 'tags': A, 'note': dict(S, description='a note')}}
    sc['Loose'] = {'type': 'object', 'required': ['name'], 'properties': {'name': S, 'tags': A, 'inner': THING, 'some': dict(I, description='some of it')}}
    sc['Open'] = {'type': 'object', 'properties': {'a': S, 'b': B, 'limit': I}}
    ref = lambda n: {'$ref': '#/components/schemas/' + n}
    for m in METHODS:
        d.op('m_' + m, m, '/m', responses={'204': none()}, summary='do ' + m)
        d.op('mp_' + m, m, '/mp/{a}', [path('a'), q('b'), h('c'), q('d', I, True)], responses={'2XX': none(), '404': none()}, description='a longer text on ' + m, summary='with parameters')
    d.op('p_two', 'get', '/p/{b}/{a}', [path('a'), dict(path('b', I), description='the b')], OK)
    d.op('p_names', 'get', '/p/kebab/{kebab-name}/{type}/{camelCase}', [path('type'), path('kebab-name'), path('camelCase', B)])
    d.op('p_color', 'get', '/p/color/{c}', [path('c', COLOR), q('d', COLOR), dict(h('x-e', COLOR), description='a color')], OK)
    d.op('p_taken', 'get', '/p/taken/{value}/{request}', [path('value'), path('request'), q('matches'), q('config', I, True), h('client'), q('result'), q('json_body')])
    d.op('q_scalars', 'get', '/q/scalars', [q('s', S, True), q('i', I, True), q('b', B, True), q('c', COLOR, True), q('u', U8, True), q('f', F, True), q('n', I32, True)], OK)
    sc['Grade'] = {'type': 'string', 'enum': ['A', 'Mid-Way', 'HIGH', 'low']}
    d.op('q_grade', 'get', '/q/grade', [q('g', ref('Grade'), True), q('h', dict(ref('Grade'))), h('x-g', ref('Grade'))], OK)
    d.op('q_optional', 'get', '/q/optional', [dict(q('s'), description='a text'), q('i', I), q('b', B), q('c', COLOR), q('page_token'), q('limit', I), q('u', U8), q('camelCase')], OK)
    d.op('q_shared', 'get', '/q/shared/{t}', [q('u', I, True)], OK, shared=[path('t'), q('u'), q('v')])
    d.op('h_both', 'get', '/h/both', [h('X-Required', S, True), h('x-optional'), h('X-Count', I), h('x-flag', B, True)], OK)
    d.op('b_json', 'post', '/b/json', [], {'201': js(THING)}, body('application/json', THING))
    d.op('b_form', 'post', '/b/form', [q('k')], {'201': js(THING), '4XX': js(PROBLEM)}, body('application/x-www-form-urlencoded', THING))
    d.op('b_both', 'put', '/b/both/{a}', [path('a'), q('k', I), h('x-h', S, True)], {'201': js(THING)}, body('application/json; charset=utf-8', THING))
    d.op('b_many', 'put', '/b/many', [], {'204': none()}, body('application/json', ref('Many')))
    d.op('b_clash', 'patch', '/b/clash', [q('name')], {'204': none()}, body('application/json', THING))
    d.op('b_clash_open', 'patch', '/b/clash/{id}', [path('id'), q('note')], {'204': none()}, body('application/json', ref('Loose')))
    d.op('b_list', 'post', '/b/list', [q('k')], {'204': none()}, body('application/json', A))
    d.op('b_deep', 'post', '/b/deep', [], {'204': none()}, body('application/json', ref('Deep')))
    d.op('b_loose', 'post', '/b/loose', [], {'204': none()}, body('application/json', ref('Loose')))
    d.op('b_open', 'post', '/b/open', [q('limit', I)], {'204': none()}, body('application/json', ref('Open')))
    d.op('r_typed', 'get', '/r/typed', [], {'200': js(THING), '400': js(PROBLEM), '404': js(PROBLEM)})
    d.op('r_range', 'get', '/r/range', [], {'2XX': js(THING), '3XX': none(), '4XX': js(PROBLEM), '5XX': js(PROBLEM), '503': js(PROBLEM)})
    d.op('r_default', 'get', '/r/default', [], {'2XX': js(THING), 'default': js(PROBLEM)})
    d.op('r_none', 'get', '/r/none', [], {'204': none(), '4XX': none()})
    d.op('r_none_typed', 'get', '/r/nonetyped', [], {'204': none(), '4XX': js(PROBLEM)})
    d.op('r_list', 'get', '/r/list', [q('limit', I)], {'200': js({'type': 'array', 'items': THING}), '403': none()})
    sc['ThingPage'] = PAGE
    x = {'x-dropshot-pagination': {'required': []}}
    lim = q('limit', {'type': 'integer', 'format': 'uint32', 'minimum': 1, 'nullable': True})
    d.op('g_plain', 'get', '/g/plain', [PT, lim], PAGES, **x)
    d.op('g_path', 'get', '/g/path/{a}/{b}', [lim, path('a'), PT, path('b', I)], PAGES, **x)
    d.op('g_filter', 'get', '/g/filter', [q('aaa'), PT, lim, q('sort', COLOR), q('zzz', I), h('x-h', S, True)], PAGES, **x)
    d.op('g_first', 'get', '/g/first/{a}', [q('sort', COLOR), PT, path('a'), lim, q('more', I), q('zZz')], PAGES, **{'x-dropshot-pagination': {'required': ['sort', 'zZz']}})
    return d


def cli_random(seed):
    r = random.Random(seed)
    d = Doc()
    kinds = [S, I, B, COLOR, U8, F, I32]
    for k in range(10):
        names = r.sample([n for n in RNAMES if n[0].isalpha() and n.replace('-', '').replace('_', '').isalnum() and n != 'page_token'] + ['more', 'other', 'x1'], 9)
        params, p = [], '/y%d' % k
        for n in names[:r.randrange(3)]:
            p += r.choice(['/{%s}', '/x-{%s}', '/a/{%s}/b']) % n
            params.append(path(n, r.choice([S, I, B, COLOR, U8])))
        for n in names[3:3 + r.randrange(4)]:
            at = r.choice([q, q, h])
            params.append(at(n, r.choice([k for k in kinds if at is q or k is not F]), r.random() < .5))
        r.shuffle(params)
        m = r.choice(METHODS)
        bd = None
        if m in ('put', 'post', 'patch') and r.random() < .9:
            props = {n: r.choice(kinds + [A]) for n in r.sample(names[5:] + names[:2], r.randrange(1, 5))}
            d.components['schemas']['Body%d' % k] = {'type': 'object', 'required': [n for n in props if r.random() < .5], 'properties': props}
            bd = body('application/json', {'$ref': '#/components/schemas/Body%d' % k})
        good, bad = r.choice([js(THING), none()]), r.choice([js(PROBLEM), none()])
        rs = {c: good for c in r.sample(['200', '201', '204', '2XX', '206'], r.randrange(1, 3))}
        rs.update({c: bad for c in r.sample(['400', '404', '4XX', '5XX', '500', '503', '418'], r.randrange(4))})
        kw = {'summary': 's%d' % k} if r.random() < .5 else {}
        d.op('y_%d' % k, m, p, params, rs, bd, **kw)
    return d


def mock_random(seed):
    """what the mocking extension supports, drawn"""
    r = random.Random(seed)
    d = Doc()
    for k in range(8):
        names = r.sample([n for n in RNAMES if n not in ('limit', 'page_token')], 4)
        params, p = [], '/y%d' % k
        for n in names[:r.randrange(4)]:
            p += r.choice(['/{%s}', '/x-{%s}', '/a/{%s}/b', '/{%s}x']) % n
            params.append(path(n, r.choice([S, I, B, COLOR])))
        for n in r.sample(['q_a', 'q_b', 'limit', 'key', 'q1', 'page_token'], r.randrange(5)):
            params.append(q(n, r.choice([S, I, B, COLOR, U8]), r.random() < .5))
        r.shuffle(params)
        m = r.choice(METHODS)
        bd = None
        if m in ('put', 'post', 'patch') and r.random() < .8:
            bd = r.choice([body('application/json', THING), body('application/octet-stream', BIN), body('text/plain', S)])
        good, bad = r.choice([js(THING), none(), raw()]), r.choice([js(PROBLEM), none(), raw()])
        rs = {c: good for c in r.sample(['200', '201', '204', '2XX', '206'], r.randrange(1, 3))}
        rs.update({c: bad for c in r.sample(['400', '404', '4XX', '5XX', '500', '503', '418'], r.randrange(4))})
        d.op('y_%d' % k, m, p, params, rs, bd)
    return d


def mockx_doc():
    """what it does not support: known findings"""
    d = Doc()
    d.op('x_name', 'get', '/x/name', [q('kebab-case'), q('camelCase', S, True)])
    d.op('x_header', 'get', '/x/header', [h('x_h', S, True)])
    d.op('x_form', 'post', '/x/form', [], {'204': none()}, body('application/x-www-form-urlencoded', THING))
    return d


RNAMES = ['a', 'b', 'id', 'name', 'url', 'request', 'response', 'result', 'client', 'x-y', 'camelCase', 'type', 'n1', 'the_end', 'value', 'header', 'version', 'header_map', '_url', 'tag[]', '$top', 'a.b', 'Upper', 'limit', 'page_token', '_x_']


def random_doc(seed, objects=False):
    r = random.Random(seed)
    d = Doc('%d.%d' % (r.randrange(9), r.randrange(99)))
    for k in range(12):
        names = r.sample(RNAMES, 7)
        params, p = [], '/z%d' % k
        for _ in range(r.randrange(3)):
            n = names.pop()
            p += r.choice(['/{%s}', '/x-{%s}', '/a/{%s}/b', '/{%s}.x']) % n
            params.append(path(n, r.choice([S, I, B, COLOR])))
        for _ in range(r.randrange(4)):
            params.append(q(names.pop(), r.choice([S, I, B, F, COLOR, A] + [FILTER] * objects), r.random() < .4))
        for _ in range(r.randrange(3)):
            if names:
                params.append(h(names.pop(), r.choice([S, I, B, COLOR]), r.random() < .4))
        r.shuffle(params)
        m = r.choice(['get', 'put', 'post', 'delete', 'patch'])
        bd = None
        if m in ('put', 'post', 'patch') and r.random() < .8:
            bd = r.choice([body('application/json', THING), body('application/x-www-form-urlencoded', THING), body('application/octet-stream', BIN), body('text/plain', S)])
        good, bad = r.choice([js(THING), none(), raw()]), r.choice([js(PROBLEM), none(), raw()])
        rs = {}
        for c in r.sample(['200', '201', '204', '2XX', '206'], r.randrange(1, 3)):
            rs[c] = good
        for c in r.sample(['400', '404', '4XX', '5XX', '500', '503', '418'], r.randrange(0, 4)):
            rs[c] = bad
        d.op('z_%d' % k, m, p, params, rs, bd)
    return d


def family(tier='quick', seed=1):
    """name -> (document, settings)"""
    out = []

    def add(name, d, interface, tag='merged', inner=None, hooks=None):
        out.append(dict(name=name, doc=d.json(), interface=interface, tag=tag, inner=inner, hooks=hooks or {}))
    add('main_p', main_doc(objects=True), 'positional')
    add('main_b', main_doc(), 'builder')
    add('main_s', main_doc(True), 'builder', 'separate')
    hk = dict(pre='crate::hooks::pre', pre_async='crate::hooks::pre_async', post='crate::hooks::post', post_async='crate::hooks::post_async')
    hki = {k: v + '_inner' for k, v in hk.items()}
    add('hook_p', hook_doc(), 'positional', hooks=hk)
    add('hooki_p', hook_doc(), 'positional', inner='crate::hooks::Inner', hooks=hki)
    add('hooki_b', hook_doc(), 'builder', inner='crate::hooks::Inner', hooks=hki)
    add('pre_p', hook_doc(), 'positional', hooks=dict(pre=hk['pre']))
    add('post_b', hook_doc(), 'builder', hooks=dict(post_async=hk['post_async'], post=hk['post']))
    add('sock_p', socket_doc(), 'positional')
    add('sock_b', socket_doc(), 'builder')
    add('page_p', page_doc(), 'positional')
    add('page_b', page_doc(), 'builder')
    for n, d in (('mock', mock_doc()), ('mockx', mockx_doc()), ('mockr', mock_random(seed))):
        add(n + '_p', d, 'positional')
        out[-1]['ext'] = 'mock'
    for n, d in (('cli', cli_doc()), ('clir', cli_random(seed))):
        add(n + '_b', d, 'builder')
        out[-1]['ext'] = 'cli'
    for i in range(6 if tier == 'thorough' else 1):
        add(f'rand{i}_p', random_doc(seed * 1000 + i, True), 'positional')
        add(f'rand{i}_b', random_doc(seed * 1000 + i), 'builder')
    return out
