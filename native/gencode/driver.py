"""Calls of the generated methods, and what the document demands of each."""
import json, random, urllib.parse
from . import model, docs

TEXT = ['plain', 'a b', 'sl/ash', 'q?x=1&y=2#f', '100%25 A', 'ünï✓', ' +Plus ', 'semi;colon,comma', '{brace}', 'x' * 300, '\\back', '"quoted"', 'a%2Fb', '~tilde-._']
HTEXT = ['plain', 'two words', 'a=b;c', '100%', '"quoted"', 'x,y']


def rstr(s):
    return '"' + ''.join('\\u{%x}' % ord(c) if ord(c) > 126 or c in '"\\{}' or ord(c) < 32 else c for c in s) + '"'


def value(op, schema, i, where, mod):
    """the i-th value of a schema -> (positional expression, builder expression, text, JSON value)"""
    s = model.resolve(op.doc, schema)
    t = s.get('type')
    if 'enum' in s:
        n = model.pascal(schema['$ref'].rsplit('/')[-1])
        e = s['enum'][i % len(s['enum'])]
        v = f'{mod}::types::{n}::{model.pascal(e)}'
        return '&' + v, v if i % 3 else f'{rstr(e)}', e, e
    if t == 'string':
        pool = HTEXT if where == 'header' else TEXT
        x = pool[i % len(pool)]
        return rstr(x), rstr(x) if i % 2 else rstr(x) + '.to_string()', x, x
    if t == 'integer':
        f = {'int32': 'i32', 'uint8': 'u8', 'uint32': 'u32'}.get(s.get('format'), 'i64')
        x = {'i64': [7, -9223372036854775808, 9223372036854775807], 'i32': [5, -2147483648, 0], 'u8': [255, 0, 9], 'u32': [10, 4294967295, 0]}[f][i % 3]
        return f'{x}{f}' if x >= 0 else f'({x}{f})', f'({x}{f})', str(x), x
    if t == 'boolean':
        x = i % 2 == 0
        return str(x).lower(), str(x).lower(), str(x).lower(), x
    if t == 'number':
        x = [1.5, -0.25, 100.0][i % 3]
        return f'({x}f64)', f'({x}f64)', str(x), x
    if t == 'array':
        xs = [value(op, s['items'], i + k, where, mod) for k in range([2, 0, 1, 3][i % 4])]
        own = [x[1] + '.to_string()' if s['items'].get('type') == 'string' and not x[1].endswith('.to_string()') else x[1] for x in xs]
        v = '::std::vec![' + ', '.join(own) + ']'
        return '&' + v, v, None, [x[3] for x in xs]
    if t == 'object':
        n = model.pascal(schema['$ref'].rsplit('/')[-1])
        fs, j = [], {}
        for k, (name, sub) in enumerate(s['properties'].items()):
            e, b, _, val = value(op, sub, i + k, where, mod)
            if model.resolve(op.doc, sub).get('type') == 'string' and 'enum' not in sub and not b.endswith('.to_string()'):
                b += '.to_string()'
            if name in s.get('required', []):
                fs.append(f'{model.snake(name)}: {b}')
                j[name] = val
            elif (i + k) % 2:
                fs.append(f'{model.snake(name)}: Some({b})')
                j[name] = val
            else:
                fs.append(f'{model.snake(name)}: None')
        v = f'{mod}::types::{n} {{ {", ".join(fs)} }}'
        return '&' + v, v, None, j
    raise Exception('schema ' + json.dumps(s))


def sample(op, kind, i=0):
    """an answer body for a kind of response, and how the result shows it"""
    if kind[0] == 'typed':
        s = model.resolve(op.doc, kind[1])
        v = instance(op, s, i)
        return json.dumps(v), 'json ' + json.dumps(v)
    if kind[0] == 'raw':
        return 'raw bytes %d' % i, 'stream raw bytes %d' % i
    if kind[0] == 'none':
        return 'ignored', '()'
    return '', 'upgraded'


def instance(op, s, i):
    s = model.resolve(op.doc, s)
    if s.get('type') == 'object':
        return {k: instance(op, v, i) for k, v in s['properties'].items() if k in s.get('required', []) or i % 2}
    if s.get('type') == 'array':
        return [instance(op, s['items'], i + k) for k in range(1 + i % 3)]
    return {'string': 'txt%d' % i, 'integer': 40 + i, 'boolean': True, 'number': 1.5}[s['type']]


def jval(v):
    if isinstance(v, bool):
        return str(v).lower()
    return str(v)


class Want:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def expectation(op, args):
    """the request the document asks for, given the arguments (api name -> (text, JSON) or None)"""
    segs = ''
    for kind, t in model.pieces(op.path):
        segs += urllib.parse.quote(t, safe="/:@!$&'()*+,;=-._~%") if kind == 't' else '\0' + t + '\0'
    query, headers = [], [('api-version', op.version)]
    for p in op.params:
        a = args.get((p.where, p.api))
        if p.where == 'query' and a:
            v = a[1]
            if isinstance(v, list):
                query += [(p.api, jval(x)) for x in v]
            elif isinstance(v, dict):
                query += [(k, jval(x)) for k, x in v.items()]
            else:
                query.append((p.api, jval(v)))
        if p.where == 'header' and a:
            headers.append((p.api.lower(), a[0]))
    if op.accept:
        headers.append(('accept', 'application/json'))
    bd = None
    if op.body:
        headers.append(('content-type', op.body.ct))
        bd = (op.body.kind, args['body', 'body'][1])
    if op.ws:
        headers += [('connection', 'Upgrade'), ('upgrade', 'websocket'), ('sec-websocket-version', '13')]
    return Want(method=op.method.upper(), path=segs, path_args={p.api: args['path', p.api][0] for p in op.params if p.where == 'path'},
                query=query, headers=headers, body=bd)


def check_request(op, w, seen):
    """-> list of complaints"""
    out = []
    if seen['method'] != w.method:
        out.append(f'method {seen["method"]}, documented {w.method}')
    target, _, qs = seen['target'].partition('?')
    exp = w.path.split('\0')
    want = '/base' + ''.join(t if i % 2 == 0 else urllib.parse.quote(w.path_args[t], safe='') for i, t in enumerate(exp))
    norm = lambda t: '/'.join(urllib.parse.quote(urllib.parse.unquote_to_bytes(x), safe='') for x in t.split('/'))
    if norm(target) != norm(want):
        out.append(f'path {target}, documented {want}')
    got = [(urllib.parse.unquote_plus(k), urllib.parse.unquote_plus(v)) for k, v in (x.split('=', 1) if '=' in x else (x, '') for x in qs.split('&') if x)]
    by = lambda ps: sorted(ps, key=lambda p: p[0])
    num = lambda v: str(float(v)) if v.replace('.', '', 1).lstrip('-').isdigit() and '.' in v else v
    if [(k, num(v)) for k, v in by(got)] != [(k, num(v)) for k, v in by(w.query)]:
        out.append(f'query {by(got)}, documented {by(w.query)}')
    hs = [tuple(h) for h in seen['headers'] if h[0] not in ('host', 'content-length', 'transfer-encoding', 'user-agent')]
    extra = [h for h in hs if h[0] != 'x-hook' and h[0] != 'sec-websocket-key']
    have = sorted(extra)
    need = sorted(w.headers)
    if ('accept', '*/*') in have and not any(k == 'accept' for k, _ in need):
        have.remove(('accept', '*/*'))       # reqwest's own default
    if have != need:
        out.append(f'headers {have}, documented {need}')
    if op.ws and sum(1 for h in hs if h[0] == 'sec-websocket-key' and len(h[1]) == 24) != 1:
        out.append('no websocket key')
    b = bytes.fromhex(seen['body'])
    if w.body is None:
        if b:
            out.append(f'a body is sent: {b[:80]!r}')
    else:
        kind, v = w.body
        try:
            ok = (json.loads(b) == v if kind == 'json' else
                  sorted(urllib.parse.parse_qsl(b.decode(), keep_blank_values=True)) == sorted((k, jval(x)) for k, x in v.items()) if kind == 'form' else b == v.encode())
        except Exception as e:
            ok = False
        if not ok:
            out.append(f'body {b[:120]!r}, given {v!r}')
    return out


def want_result(op, status, payload, shown, bad_json=False):
    a = model.arm(op, status)
    if a is None:
        return f'unexpected {status} ' + ('' if status in (204, 304) or op.method == 'head' else payload)
    good, kind = a
    head = ('ok' if good else 'err') + f' {status} yes '
    if kind[0] == 'upgrade' and status != 101:
        return f'unexpected {status} ' + ('' if status in (204, 304) else payload)
    body = '' if status in (204, 304) or op.method == 'head' else payload
    if kind[0] == 'typed' and (bad_json or not body):
        return 'payload ' + body
    if kind[0] == 'raw':
        return head + 'stream ' + body
    return head + shown


def same_result(got, want):
    if got == want:
        return True
    g, w = got.split(' json ', 1), want.split(' json ', 1)
    if len(g) == 2 and len(w) == 2 and g[0] == w[0]:
        strip = lambda v: {k: strip(x) for k, x in v.items() if x is not None} if isinstance(v, dict) else [strip(x) for x in v] if isinstance(v, list) else v
        try:
            return strip(json.loads(g[1])) == strip(json.loads(w[1]))
        except ValueError:
            return False
    return False


def call(op, mod, args, exprs, tail='send().await'):
    """the expression that calls the generated method"""
    if not op.builder:
        ps = []
        for p in op.params:
            e = exprs.get((p.where, p.api))
            ps.append(('Some(%s)' % e[0] if e else 'None') if p.opt else e[0])
        return f'c.{op.oid}({", ".join(ps)}).await'
    s = f'c.{op.oid}()'
    for (where, api), e in exprs.items():
        p = next(p for p in op.params if (p.where, p.api) == (where, api))
        s += f'.{p.name}({e[1]})'
    return s + '.' + tail


def arguments(op, mod, i, given):
    """given: which parameters; -> (expressions, values)"""
    exprs, args = {}, {}
    for k, p in enumerate(op.params):
        if p.opt and not given(k, p):
            continue
        if p.where == 'body' and p.kind in ('octets', 'text'):
            t = TEXT[(i + k) % len(TEXT)] if i else 'line one\nline two'
            e = (rstr(t).replace('\n', '\\n') + ('.to_string()' if p.kind == 'text' else ''), rstr(t).replace('\n', '\\n') + '.to_string()', t, t)
        else:
            e = value(op, p.schema, i + k, p.where, mod)
        exprs[p.where, p.api] = e
        args[p.where, p.api] = (e[2], e[3])
    return exprs, args


def reply(status, body='', drop=False):
    return f'Reply {{ status: {status}, body: {rstr(body)}, drop: {str(drop).lower()} }}'


def build(entry, rng, tier):
    """-> (Rust code of the cases of a document, {case: (op, kind, expectations)})"""
    mod = entry['name']
    ops = model.read(entry)
    out, exp = [], {}
    inner = ', crate::support::hooks::Inner(77)' if entry['inner'] else ''

    def emit(op, tag, expr, replies, check, stream=False):
        case = f'{mod}/{op.oid}/{tag}'
        exp[case] = (op, check)
        show = f'crate::show_result!({expr})' if not stream else stream
        use = f'#[allow(unused_imports)] use {mod}::{{Client{", " + ", ".join(sorted({"Client" + model.pascal(t) + "Ext" for t in op.tags[:1]})) if entry["tag"] == "separate" else ""}}};'
        out.append(f'''
async fn c{len(out)}(url: &str, rc: &reqwest::Client) {{ {use} let _ = rc;
    begin(vec![{", ".join(replies)}]);
    let c = {f'Client::new(url{inner})' if len(out) % 7 == 0 else f'Client::new_with_client(url, rc.clone(){inner})'};
    let r = {show};
    end({rstr(case)}, r);
}}''')

    for op in ops:
        if entry['name'].startswith('page'):
            break
        k0 = rng.randrange(1000)
        full, _ = arguments(op, mod, 0, lambda k, p: True)
        good = next(a for a in op.arms if a[2])
        st = good[0] if good[3][0] != 'upgrade' else 101
        plans = [('all', 0, lambda k, p: True), ('required', 1 + k0, lambda k, p: False)]
        nopt = sum(p.opt for p in op.params)
        if op.params:
            plans.append(('more', 2 + k0, lambda k, p: True))
            plans.append(('some', 3 + k0, lambda k, p: (k + k0) % 2 == 0))
            for extra in range(6 if tier == 'thorough' else 1):
                i = rng.randrange(1000)
                plans.append((f'x{extra}', i, lambda k, p, i=i: (i >> (k % 9)) & 1))
        for tag, i, given in plans:
            exprs, args = arguments(op, mod, i, given)
            pay, shown = sample(op, good[3], i % 5)
            w = expectation(op, args)
            emit(op, tag, call(op, mod, args, exprs), [reply(st, pay)], ('sent', w, want_result(op, st, pay, shown), st))
        # a header that cannot be sent
        hs = [p for p in op.params if p.where == 'header' and p.schema == docs.S]
        if hs:
            exprs, args = arguments(op, mod, 0, lambda k, p: True)
            p = hs[k0 % len(hs)]
            exprs[p.where, p.api] = ('"bad\\nvalue"', '"bad\\nvalue"', None, None)
            emit(op, 'badheader', call(op, mod, args, exprs), [reply(st, 'x')], ('refused', 'invalid ', ''))
        # answers
        statuses = [200, 201, 204, 206, 299, 300, 304, 400, 404, 418, 499, 500, 503, 599] if op.oid.startswith(('r_', 'w_')) else [201, 404, 500] if op.oid[0] in 'pk' else [rng.choice([200, 202, 302, 404, 503])]
        exprs, args = arguments(op, mod, 0, lambda k, p: True)
        for s in statuses:
            a = model.arm(op, s)
            pay, shown = sample(op, a[1] if a else ('raw', None), s % 5)
            if a and a[1][0] == 'upgrade':
                pay = 'no upgrade'
            emit(op, f's{s}', call(op, mod, args, exprs), [reply(s, pay)], ('sent', expectation(op, args), want_result(op, s, pay, shown), s))
            if a and a[1][0] == 'typed' and s not in (204, 304):
                emit(op, f'j{s}', call(op, mod, args, exprs), [reply(s, '{"id": tru')], ('sent', expectation(op, args), want_result(op, s, '{"id": tru', '', True), s))
        emit(op, 'drop', call(op, mod, args, exprs), [reply(200, '', True)], ('dropped', expectation(op, args)))
        # hooks that stop the request
        if op.hooks:
            for f in ('failpre', 'failpost'):
                exprs, args = arguments(op, mod, 0, lambda k, p: True)
                exprs['path', 'a'] = (f'"{f}"', f'"{f}"', f, f)
                args['path', 'a'] = (f, f)
                pay, shown = sample(op, good[3], 0)
                emit(op, f, call(op, mod, args, exprs), [reply(st, pay)], (f, expectation(op, args), want_result(op, st, pay, shown), st))
        if op.builder:
            builder_cases(op, mod, emit, st, good)
    if entry['name'].startswith('page'):
        for op in ops:
            pages(op, mod, emit, rng, tier)
    return '\n'.join(out), len(out), exp


def builder_cases(op, mod, emit, st, good):
    pay, shown = sample(op, good[3], 0)
    exprs, args = arguments(op, mod, 0, lambda k, p: True)
    for p in op.params:
        key = (p.where, p.api)
        if not p.opt:
            less = {k: v for k, v in exprs.items() if k != key}
            emit(op, f'unset-{p.where}-{p.name}', call(op, mod, args, less), [reply(st, pay)], ('refused', 'invalid ', None if p.where == 'body' and p.kind in ('json', 'form') and is_struct(op, p) else p.name))
        # set twice: the last value counts
        if p.where != 'body':
            again = value(op, p.schema, 5, p.where, mod)
            e2 = dict(exprs)
            del e2[key]
            s = f'c.{op.oid}().{p.name}({again[1]})'
            for (w2, a2), e in list(e2.items()) + [(key, exprs[key])]:
                s += f'.{next(q for q in op.params if (q.where, q.api) == (w2, a2)).name}({e[1]})'
            emit(op, f'twice-{p.where}-{p.name}', s + '.send().await', [reply(st, pay)], ('sent', expectation(op, args), want_result(op, st, pay, shown), st))
        bad = unconvertible(op, p)
        if bad:
            e2 = dict(exprs)
            e2[key] = (None, bad, None, None)
            emit(op, f'unconvertible-{p.where}-{p.name}', call(op, mod, args, e2), [reply(st, pay)], ('refused', 'invalid ', p.name))
            # a good value afterwards repairs it
            e3 = {key: (None, bad, None, None)}
            s = f'c.{op.oid}().{p.name}({bad})'
            for (w2, a2), e in exprs.items():
                s += f'.{next(q for q in op.params if (q.where, q.api) == (w2, a2)).name}({e[1]})'
            emit(op, f'repaired-{p.where}-{p.name}', s + '.send().await', [reply(st, pay)], ('sent', expectation(op, args), want_result(op, st, pay, shown), st))
    if op.body and is_struct(op, op.body):
        e2 = {k: v for k, v in exprs.items() if k != ('body', 'body')}
        s = model.resolve(op.doc, op.body.schema)
        v, chain = {}, ''
        for k, (name, sub) in enumerate(s['properties'].items()):
            if name in s['required']:
                e = value(op, sub, k, 'body', mod)
                chain += f'.{model.snake(name)}({e[1]})'
                v[name] = e[3]
        a2 = dict(args)
        a2['body', 'body'] = (None, v)
        emit(op, 'body_map', call(op, mod, a2, e2, f'body_map(|b| b{chain}).send().await'), [reply(st, pay)], ('sent', expectation(op, a2), want_result(op, st, pay, shown), st))
        emit(op, 'body_partial', call(op, mod, a2, e2, f'body_map(|b| b.{model.snake(s["required"][0])}({value(op, s["properties"][s["required"][0]], 0, "body", mod)[1]})).send().await'), [reply(st, pay)], ('refused', 'invalid ', None))


def is_struct(op, p):
    return model.resolve(op.doc, p.schema).get('type') == 'object'


def unconvertible(op, p):
    if p.where == 'body':
        return None
    s = model.resolve(op.doc, p.schema)
    if 'enum' in s:
        return '"no such colour"'
    if s.get('type') == 'integer':
        return {'int32': '5000000000i64', 'uint8': '256u32', 'uint32': '-1i64'}.get(s.get('format'), 'u64::MAX')
    return None


# ------------------------------------------------------------------ pages
def pages(op, mod, emit, rng, tier):
    if not op.paged:
        exprs, args = arguments(op, mod, 0, lambda k, p: True)
        body = json.dumps({'items': [{'id': 1, 'name': 'n'}], 'next_page': None})
        emit(op, 'call', call(op, mod, args, exprs), [reply(200, body)], ('sent', expectation(op, args), f'ok 200 yes json {body}', 200))
        return
    plans = [[3], [0], [2, 2], [1, 0, 2], [0, 0, 0, 1], [1] * 8, [2, 'e404'], ['e404'], [1, 'drop'], ['e503'], [1, 'bad', 1], [1, 2, 'u300'], [2, 'e500', 2]]
    for _ in range(30 if tier == 'thorough' else 3):
        plans.append([rng.randrange(4) for _ in range(rng.randrange(1, 7))])
    for n, plan in enumerate(plans):
        for limit in (False, True):
            replies, items, toks, seq = [], [], [], 0
            end = None
            for k, x in enumerate(plan):
                if isinstance(x, int):
                    its = [{'id': seq + j, 'name': 'i%d' % (seq + j)} for j in range(x)]
                    seq += x
                    tok = None if k == len(plan) - 1 else 'tok/%d &' % k
                    replies.append(reply(200, json.dumps(dict({'items': its}, **({'next_page': tok} if tok else {})))))
                    items += ['item ' + json.dumps(i) for i in its]
                    toks.append(tok)
                else:
                    if x == 'drop':
                        replies.append(reply(200, '', True))
                        end = 'communication'
                    elif x == 'bad':
                        replies.append(reply(200, '{"items": ['))
                        end = 'payload {"items": ['
                    elif x[0] == 'u':
                        replies.append(reply(int(x[1:]), 'odd'))
                        end = f'unexpected {x[1:]} odd'
                    else:
                        replies.append(reply(int(x[1:]), '{"code": "c"}'))
                        end = f'err {x[1:]} {{"code":"c"}}'
                    break
            if end:
                items.append(end)
            exprs, args = arguments(op, mod, n, lambda k, p: p.api not in ('limit', 'page_token') or (p.api == 'limit' and limit))
            if n % 3 == 0:      # only what is required
                exprs, args = arguments(op, mod, n, lambda k, p: p.api == 'limit' and limit)
            wants = []
            for k in range(len(replies)):
                a = dict(args)
                if k:
                    for p in op.params:
                        if p.where == 'query' and p.api != 'limit':
                            a.pop((p.where, p.api), None)
                    a['query', 'page_token'] = (toks[k - 1], toks[k - 1])
                    a = {(p.where, p.api): a[p.where, p.api] for p in op.params if (p.where, p.api) in a}
                wants.append(expectation(op, a))
            if op.builder:
                expr = call(op, mod, args, exprs, 'stream()')
            else:
                ps = []
                for p in op.params:
                    if p.api == 'page_token':
                        continue
                    e = exprs.get((p.where, p.api))
                    ps.append(('Some(%s)' % e[0] if e else 'None') if p.opt else e[0])
                expr = f'c.{op.oid}_stream({", ".join(ps)})'
            emit(op, f'pages{n}{"l" if limit else ""}', '', replies, ('pages', wants, items), stream=f'crate::show_stream!({expr})')


def verdict(op, check, got):
    """-> list of complaints"""
    seen, log, res = got['seen'], got['log'], got['result']
    kind = check[0]
    out = []
    h = op.hooks
    if kind == 'refused':
        if not res.startswith(check[1]):
            out.append(f'result {res[:120]!r}, should be an invalid-request error')
        elif check[2] and check[2] not in res:
            out.append(f'result {res[:120]!r} does not name {check[2]}')
        if seen:
            out.append('a request was sent')
        return out
    if kind == 'pages':
        if len(seen) != len(check[1]):
            out.append(f'{len(seen)} requests, {len(check[1])} pages to get')
        for k, (s, w) in enumerate(zip(seen, check[1])):
            out += [f'request {k}: ' + x for x in check_request(op, w, s)]
        lines = json.loads(res) if res.startswith('[') else [res]
        strip = lambda l: 'item ' + json.dumps({k: v for k, v in json.loads(l[5:]).items() if v is not None}, sort_keys=True) if l.startswith('item ') else l.replace(' yes json ', ' ')
        if [strip(l) for l in lines] != [strip(l) for l in check[2]]:
            out.append(f'stream {lines}, pages hold {check[2]}')
        return out
    w = check[1]
    steps = []
    path = ''.join(x if i % 2 == 0 else urllib.parse.quote(w.path_args[x], safe='') for i, x in enumerate(w.path.split('\0')))
    ins = ['inner 77'] if op.inner else []
    status = 'error' if kind == 'dropped' else str(check[3])
    if 'pre' in h:
        steps += ins + ['pre']
    if 'pre_async' in h:
        steps += ins + ['pre_async']
    stopped = kind == 'failpre' and 'pre_async' in h
    if not stopped:
        steps.append('recv')
        if 'post' in h:
            steps += ins + ['post ' + status]
        if 'post_async' in h:
            steps += ins + ['post_async ' + status]
    short = [l.split(' ')[0] if l.startswith('pre') else l for l in log]
    if short != steps:
        out.append(f'steps {log}, configured {steps}')
    if len(seen) != (0 if stopped else 1):
        out.append(f'{len(seen)} requests were sent')
    for s in seen[:1]:
        out += check_request(op, w, s)
        if ('x-hook' in [x[0] for x in s['headers']]) != ('pre_async' in h):
            out.append('the change a hook made to the request is not what was sent')
    if kind == 'dropped':
        want = 'communication'
    elif stopped:
        want = 'prehook stopped before'
    elif kind == 'failpost' and 'post_async' in h:
        want = 'posthook stopped after'
    else:
        want = check[2]
    if not same_result(res, want):
        out.append(f'result {res[:200]!r}, documented {want[:200]!r}')
    return out
