"""Mocks of the generated mocking extensions against requests of the generated clients (G26)."""
import http, json, re
from . import driver, docs, model

TEXT = ['plain', 'abc123', 'x_y', 'Zz-9', 'other']


def reason(code):
    p = {418: "I'm a teapot"}.get(int(code)) or http.HTTPStatus(int(code)).phrase
    return model.snake(p.replace(' ', '-'))


def rtype(op, schema, mod):
    s = model.resolve(op.doc, schema)
    if 'enum' in s or s['type'] == 'object':
        return f'&{mod}::types::' + model.pascal(schema['$ref'].rsplit('/')[-1])
    return {'string': '&str', 'boolean': 'bool', 'integer': {'int32': 'i32', 'uint8': 'u8'}.get(s.get('format'), 'i64'), 'array': '&Vec<String>'}[s['type']]


def value(op, p, i, mod):
    """-> (expression of the client's argument, of the mock's, text, JSON)"""
    if p.where == 'body' and p.kind == 'octets':
        v = [{'a': [1, 'x']}, ['z'], 17, 'text'][i % 4]
        t = json.dumps(v)
        return f'{driver.rstr(t)}', f'serde_json::from_str::<serde_json::Value>({driver.rstr(t)}).unwrap()', t, v
    if p.where == 'body' and p.kind == 'text':
        e = driver.rstr(driver.TEXT[i % len(driver.TEXT)]) + '.to_string()'
        return e, e, driver.TEXT[i % len(driver.TEXT)], None
    s = model.resolve(op.doc, p.schema)
    if s.get('type') == 'string' and 'enum' not in s:
        x = (TEXT if p.where == 'path' else driver.TEXT)[i % (len(TEXT) if p.where == 'path' else len(driver.TEXT))]
        return driver.rstr(x), driver.rstr(x), x, x
    e = driver.value(op, p.schema, i, p.where, mod)
    return e[0], e[0], e[2], e[3]


def differs(op, p, i, mod):
    """a value that is not the i-th"""
    a = value(op, p, i, mod)
    for k in range(1, 12):
        b = value(op, p, i + k, mod)
        if (b[2], b[3]) != (a[2], a[3]):
            return b
    raise Exception('one value only')


def shape(op, segs, args):
    """a path of the operation, as a pattern and with its values"""
    return ''.join(segs(t) if k == 'p' else re.escape(t) for k, t in model.pieces(op.path))


def build(entry, rng, tier):
    mod = entry['name']
    ops = model.read(entry)
    out, exp = [], {}
    sep = f'#[allow(unused_imports)] use {mod}::Client; #[allow(unused_imports)] use {mod}_x::MockServerExt;'

    def emit(op, case, body, want):
        exp[case] = (op, want)
        out.append(f'''
async fn c{len(out)}(url: &str, rc: &reqwest::Client) {{ {sep} let _ = (url, rc);
    #[allow(unused_mut)] let mut m = serde_json::Map::new();
    let s = httpmock::MockServer;
{body}
    end({driver.rstr(case)}, serde_json::Value::Object(m).to_string());
}}''')

    known = entry['name'].startswith('mockx')
    for op in ops:
        n = (24 if tier == 'thorough' else 9) if op.params and not known else 1
        for k in range(n):
            i = k if k < len(driver.TEXT) else rng.randrange(1000)
            given = [not p.opt or k == 0 or (k != 1 and (i >> (j % 9)) & 1) for j, p in enumerate(op.params)]
            vals = {j: value(op, p, i + j, mod) for j, p in enumerate(op.params) if given[j]}
            args = {(p.where, p.api): (vals[j][2], vals[j][3]) for j, p in enumerate(op.params) if given[j]}
            exprs = {(p.where, p.api): (vals[j][0], None) for j, p in enumerate(op.params) if given[j]}
            good = next(a for a in op.arms if a[2])
            st = good[0] if good[3][0] != 'upgrade' else 101
            pay, _ = driver.sample(op, good[3], 1)
            body, want = [f'    begin(vec![{driver.reply(st, pay)}]);', f'    let c = Client::new_with_client(url, rc.clone());', f'    let _ = {driver.call(op, mod, args, exprs)};', '    let r = sent();'], {}

            def ask(key, chain, fits, o=op):
                body.append(f'    m.insert({driver.rstr(key)}.into(), tried(|| s.{o.oid}(|when, then| {{ let _ = (when{chain}, then); }}).fits(&r)));')
                want[key] = fits
            if not known:
                sentpath = ''.join(args['path', t][0] if kk == 'p' else t for kk, t in model.pieces(op.path))
                for o in ops:
                    fits = o.method == op.method and re.fullmatch(shape(o, lambda t: '[^/]*', args), sentpath) is not None
                    if o is op or k == 0:
                        ask(f'mock of {o.oid} without parameters', '', fits, o)
            full = ''
            for j, p in enumerate(op.params):
                if given[j]:
                    v = vals[j][1]
                    one = f'.{p.name}({f"Some({v})" if p.opt and (i + j) % 2 else v})'
                    ask(f'{p.where} parameter {p.api} as sent', one, True)
                    if known:
                        continue
                    d = differs(op, p, i + j, mod)[1]
                    ask(f'{p.where} parameter {p.api} with another value', f'.{p.name}({d})', False)
                    if p.opt:
                        ask(f'{p.where} parameter {p.api} absent though sent', f'.{p.name}(None::<{rtype(op, p.schema, mod)}>)', False)
                elif p.where == 'query':
                    one = f'.{p.name}(None::<{rtype(op, p.schema, mod)}>)'
                    ask(f'{p.where} parameter {p.api} absent', one, True)
                    ask(f'{p.where} parameter {p.api} with a value though absent', f'.{p.name}({value(op, p, i, mod)[1]})', False)
                full += one
            if known:
                emit(op, f'{mod}/{op.oid}', '\n'.join(body), want)
                break
            ask('all parameters', full, True)
            for j, p in enumerate(op.params):       # all but one as sent
                if given[j] and len(op.params) > 1:
                    ch = ''.join(f'.{q.name}({vals[x][1] if x != j else differs(op, p, i + j, mod)[1]})' for x, q in enumerate(op.params) if given[x])
                    ask(f'all parameters, {p.api} with another value', ch, False)
            emit(op, f'{mod}/{op.oid}/when{k}', '\n'.join(body), want)
        body, want = [], {}
        if known:
            continue
        for code, kind in op.rs:
            def reply(key, call, status, v):
                body.append(f'''    m.insert({driver.rstr(key)}.into(), match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.{op.oid}(|when, then| {{ let _ = (when, then.{call}); }}).reply)) {{
        Ok(r) => serde_json::json!({{"status": r.status, "headers": r.headers, "body": r.body}}), Err(_) => "refused".into() }});''')
                want[key] = 'refused' if status is None else {'status': status, 'headers': [['content-type', 'application/json']] if v is not None else [], 'body': v[1] if v is not None else None}
            if kind[0] == 'typed':
                e = driver.value(op, kind[1], 1, 'body', mod)
                v = (e[0], e[3])
            elif kind[0] == 'raw':
                v = ('serde_json::json!({"k": [1, "two"]})', {'k': [1, 'two']})
            else:
                v = None
            arg = v[0] if v else ''
            if code == 'default':
                for n in (200, 404, 599):
                    reply(f'default response {n}', f'default_response({n}{", " + arg if arg else ""})', n, v)
            elif code.endswith('XX'):
                name = ['informational', 'success', 'redirect', 'client_error', 'server_error'][int(code[0]) - 1]
                h = int(code[0]) * 100
                for n, ok in ((h, 1), (h + 7, 1), (h + 99, 1), (h - 1, 0), (h + 100, 0), (0, 0), (h + 1000, 0)):
                    reply(f'{name} {n}', f'{name}({n}{", " + arg if arg else ""})', n if ok else None, v)
            else:
                reply(f'{reason(code)}', f'{reason(code)}({arg})', int(code), v)
        emit(op, f'{mod}/{op.oid}/then', '\n'.join(body), want)
    return '\n'.join(out), len(out), exp


def verdict(op, want, got):
    out = []
    try:
        r = json.loads(got['result'])
    except ValueError:
        return [got['result']]
    strip = lambda v: {k: strip(x) for k, x in v.items() if x is not None} if isinstance(v, dict) else [strip(x) for x in v] if isinstance(v, list) else v
    for k, w in want.items():
        if isinstance(w, bool):
            if r.get(k) != w and got['case'].startswith('mockx'):
                out.append((got['case'] + '/' + k.split(' parameter ')[1].split(' ')[0], f'{k}: ' + (r.get(k) if isinstance(r.get(k), str) else 'the mock does not match the request that was sent with it')))
            elif r.get(k) != w:
                out.append(f'{k}: the mock {"does not match" if w else "matches"} a request that {"has" if w else "does not have"} that; request: {got["seen"]}')
        elif strip(r.get(k)) != strip(w):
            out.append(f'{k}: answers {r.get(k)}, documented {w}')
    return out
