"""Commands of the generated command lines: what they take, what they send and what they report (G27)."""
import json, re
from . import driver, docs, model

CLI = {'value': 'the command line'}


def kebab(n):
    return model.snake(n).strip('_').replace('_', '-')


def prop_words(op):
    """the body properties that can be given as arguments -> ([(argument, property, schema, required)], whether the file is required)"""
    s = model.resolve(op.doc, op.body.schema)
    if s.get('type') != 'object':
        return [], True
    taken = {kebab(p.api) for p in op.params if p.where != 'body' and not (op.paged and p.api == 'page_token')}
    out, need = [], False
    for n, sub in s['properties'].items():
        t = model.resolve(op.doc, sub)
        req = n in s.get('required', [])
        if t.get('type') in ('array', 'object') or kebab(n) in taken:
            need |= req
        else:
            out.append((kebab(n), n, sub, req))
            taken.add(kebab(n))
    return out, need


def word(op, schema, i, where):
    """a value -> (text of the argument, JSON)"""
    s = model.resolve(op.doc, schema)
    if 'enum' in s:
        e = s['enum'][i % len(s['enum'])]
        return e, e
    if s.get('minimum') == 1:
        n = [1, 3, 1000][i % 3]
        return str(n), n
    if s['type'] == 'string' and where == 'path':
        t = [x for x in driver.TEXT if len(x) < 50][i % 12]
        return t, t
    _, _, t, v = driver.value(op, schema, i, where, 'm')
    return t, v


def wrong(op, schema):
    s = model.resolve(op.doc, schema)
    if 'enum' in s:
        return s['enum'][-1].upper() + '~'
    return {'integer': '12x', 'number': 'one', 'boolean': 'yes'}.get(s['type'])


def build(entry, rng, tier):
    mod = entry['name']
    ops = model.read(entry)
    out, exp = [], {}
    doc_ops = {o['operationId']: o for item in entry['doc']['paths'].values() for k, o in item.items() if k in model.METHODS}
    out.append('''
async fn c0(url: &str, rc: &reqwest::Client) { let _ = (url, rc);
    begin(vec![]);
    let mut v: Vec<String> = %s_x::CliCommand::iter().map(|c| format!("{c:?}")).collect();
    v.sort();
    end("%s/commands", serde_json::json!(v).to_string());
}
pub struct Conf;
impl %s_x::CliConfig for Conf {
    crate::report!();
}''' % (mod, mod, mod))
    exp[f'{mod}/commands'] = (ops[0], ('commands', sorted(model.pascal(o.oid) for o in ops)))

    def emit(op, tag, words, file, replies, check, hook=None):
        case = f'{mod}/{op.oid}/{tag}'
        if case in exp:
            return
        n = len(out)
        exp[case] = (op, check)
        P = model.pascal(op.oid)
        conf = 'Conf'
        pre = ''
        if hook:
            conf = f'Conf{n}'
            pre = f'''
pub struct Conf{n};
impl {mod}_x::CliConfig for Conf{n} {{
    crate::report!();
    fn execute_{op.oid}(&self, matches: &clap::ArgMatches, request: &mut {mod}::builder::{P}) -> anyhow::Result<()> {{ {hook} }}
}}'''
        args = []
        for w, t in words:
            args += [f'--{w}={t}'] if len(args) % 4 == 0 else ['--' + w, t] if not t.startswith('-') else [f'--{w}={t}']
        if file is not None:
            args += ['--json-body', '@FILE@']
        out.append(f'''{pre}
async fn c{n}(url: &str, rc: &reqwest::Client) {{
    begin(vec![{", ".join(replies)}]);
    let args = crate::support::words(&[{", ".join(driver.rstr(a) for a in args)}], {driver.rstr(file) if file is not None else '""'});
    let cmd = {mod}_x::Cli::<{conf}>::get_command({mod}_x::CliCommand::{P});
    let texts = crate::support::texts(&cmd);
    let r = match cmd.no_binary_name(true).try_get_matches_from(args) {{
        Err(e) => format!("refused"),
        Ok(m) => {{
            let cli = {mod}_x::Cli::new({mod}::Client::new_with_client(url, rc.clone()), {conf});
            match cli.execute({mod}_x::CliCommand::{P}, &m).await {{ Ok(()) => "ok".into(), Err(e) => "failed".into() }}
        }}
    }};
    end({driver.rstr(case)}, serde_json::json!([r, texts]).to_string());
}}''')

    for op in ops:
        props, need = prop_words(op) if op.body else ([], False)
        first = doc_ops[op.oid].get('x-dropshot-pagination', {}).get('required', []) if op.paged else []
        P = [p for p in op.params if p.where != 'body' and not (op.paged and p.api == 'page_token')]
        must = lambda p: not p.opt or p.api in first
        good = next(a for a in op.arms if a[2])
        st = good[0]
        texts = {'about': doc_ops[op.oid].get('summary') or None, 'long': doc_ops[op.oid].get('description') or None, 'help': {}}
        raws = {(p['in'], p['name']): p for p in map(lambda p: model.resolve(op.doc, p), doc_ops[op.oid].get('parameters', []))}
        for p in P:
            d = raws.get((p.where, p.api), {}).get('description')
            texts['help'][kebab(p.api)] = d
        for w, n, sub, r in props:
            texts['help'][w] = sub.get('description')
        if op.body:
            texts['help']['json-body'] = ...

        def plan(i, given, gprops=None, file=None):
            words, args = [], {}
            for k, p in enumerate(P):
                if must(p) or given(k):
                    t, v = word(op, p.schema, i + k, p.where)
                    words.append((kebab(p.api), t))
                    args[p.where, p.api] = (t, v)
            if op.body:
                b = {}
                if gprops is not None:
                    for k, (w, n, sub, r) in enumerate(props):
                        if (r and file is None) or gprops(k):
                            t, v = word(op, sub, i + k + 3, 'body')
                            words.append((w, t))
                            b[n] = v
                if file is not None:
                    b = file
                args['body', 'body'] = (None, b)
            return words, args

        def sent(tag, words, args, file, status=st, hook=None, i=0, errs=None):
            a = model.arm(op, status)
            pay, shown = driver.sample(op, a[1] if a else ('raw', None), i)
            emit(op, tag, words, json.dumps(file) if file is not None else None, [driver.reply(status, pay)], ('sent', driver.expectation(op, args), errs or report(op, status, pay), texts), hook)

        def thing(i):
            s = model.resolve(op.doc, op.body.schema)
            return driver.value(op, op.body.schema, i, 'body', 'm')[3] if s['type'] == 'array' else {n: (word(op, sub, i + k, 'body')[1] if model.resolve(op.doc, sub)['type'] not in ('array', 'object') else driver.value(op, sub, i + k, 'body', 'm')[3])
                                                                                                     for k, (n, sub) in enumerate(s['properties'].items()) if n in s.get('required', []) or (i + k) % 2}
        if op.paged:
            pages(op, mod, emit, rng, tier, plan, texts)
            continue
        plans = [('all', 0, lambda k: True), ('required', 1, lambda k: False), ('some', rng.randrange(999), lambda k: k % 2), ('other', rng.randrange(999), lambda k: not k % 2)]
        for x in range(10 if tier == 'thorough' else 2):
            m = rng.randrange(1 << 12)
            plans.append((f'x{x}', rng.randrange(999), lambda k, m=m: m >> k & 1))
        if not P and not op.body:
            plans = plans[:1]
        for tag, i, g in plans:
            if op.body is None or not need:
                words, args = plan(i, g, g)
                sent(tag, words, args, None, i=i % 5)
                if tag == 'all':
                    full = (words, args)
            if op.body:
                f = thing(i)
                words, args = plan(i, g, None, f)
                sent(tag + '-file', words, args, f, i=i % 5)
                if tag == 'all' and need:
                    full = (words, args)
                words, args = plan(i, g, g, f)
                sent(tag + '-file-wins', words, args, f, i=i % 5)
        file = json.dumps(full[1]['body', 'body'][1]) if op.body and need else None
        # what is required, what does not fit and what is unknown
        for w, t in full[0]:
            p = next((p for p in P if kebab(p.api) == w), None)
            q = next((q for q in props if q[0] == w), None) if p is None else None
            less = [x for x in full[0] if x[0] != w]
            if (must(p) if p else q[3] and not need):
                emit(op, 'without-' + w, less, file, [driver.reply(st, '')], ('refused',))
            bad = wrong(op, p.schema if p else q[2])
            if bad:
                emit(op, 'wrong-' + w, less + [(w, bad)], file, [driver.reply(st, '')], ('refused',))
        emit(op, 'unknown', full[0] + [('vp-unknown', 'x')], file, [driver.reply(st, '')], ('refused',))
        if op.body and need:
            emit(op, 'no-file', plan(0, lambda k: True, lambda k: True)[0], None, [driver.reply(st, '')], ('refused',))
        # the hook comes last, and stops the request when it fails
        hp = next((p for p in P if p.where != 'body'), None)
        fobj = json.loads(file) if file else None
        if hp:
            t, v = word(op, hp.schema, 7, hp.where)
            e = driver.value(op, hp.schema, 7, hp.where, mod)[1] if model.resolve(op.doc, hp.schema).get('type') != 'string' or 'enum' in model.resolve(op.doc, hp.schema) else driver.rstr(t)
            a2 = dict(full[1])
            a2[hp.where, hp.api] = (t, v)
            a2 = {(p.where, p.api): a2[p.where, p.api] for p in op.params if (p.where, p.api) in a2}
            sent('hook', full[0], a2, fobj, hook=f'*request = request.clone().{hp.name}({e}); crate::support::log("hook".into()); Ok(())')
        emit(op, 'hook-fails', full[0], file, [driver.reply(st, '')], ('stopped',), hook='crate::support::log("hook".into()); Err(anyhow::anyhow!("no"))')
        for s in ([200, 204, 299, 300, 400, 404, 500, 503] if op.oid.startswith('r_') else [rng.choice([201, 204, 404, 503])]):
            a = model.arm(op, s)
            if a and a[1][0] == 'raw':
                continue
            sent(f's{s}', full[0], full[1], fobj, status=s, i=s % 4)
    return '\n'.join(out), len(out), exp


def report(op, status, pay):
    """-> (whether the command ends well, what is reported)"""
    a = model.arm(op, status)
    blank = status in (204, 304) or op.method == 'head'
    if a is None:
        return False, [f'error unexpected {status}']
    ok, kind = a
    if kind[0] == 'typed':
        if blank:
            return False, ['error payload']
        return ok, [('item' if ok else 'error response') + f' {status} ' + json.dumps(json.loads(pay))]
    return ok, [f'no item {status}' if ok else f'error response {status} null']


def pages(op, mod, emit, rng, tier, plan, texts):
    sets = [[3], [0], [2, 2], [1, 0, 2], [2, 'e404'], ['e503'], [1, 'bad'], [1, 2, 'u300']]
    for _ in range(10 if tier == 'thorough' else 2):
        sets.append([rng.randrange(4) for _ in range(rng.randrange(1, 6))])
    for n, seq in enumerate(sets + [[700, 501]]):
        for limit in (None, 1, 3, 1000, 65537):
            words, args = plan(n, lambda k: n % 2)
            words = [w for w in words if w[0] != 'limit']
            args.pop(('query', 'limit'), None)
            if limit:
                words.append(('limit', str(limit)))
                args['query', 'limit'] = (str(limit), limit)
            replies, log, toks, c, end, wants = [], [], [], 0, None, []
            left = limit or 10 ** 9
            for k, x in enumerate(seq):
                a = dict(args)
                if k:
                    for p in op.params:
                        if p.where == 'query' and p.api != 'limit':
                            a.pop((p.where, p.api), None)
                    a['query', 'page_token'] = (toks[k - 1], toks[k - 1])
                wants.append(driver.expectation(op, {(p.where, p.api): a[p.where, p.api] for p in op.params if (p.where, p.api) in a}))
                if isinstance(x, int):
                    its = [{'id': c + j, 'name': 'i%d' % (c + j)} for j in range(x)]
                    c += x
                    tok = None if k == len(seq) - 1 else 'tok%d' % k
                    toks.append(tok)
                    replies.append(driver.reply(200, json.dumps(dict({'items': its}, **({'next_page': tok} if tok else {})))))
                    log += ['listed ' + json.dumps(i) for i in its[:left]]
                    left -= min(left, x)
                    if left == 0:
                        break
                else:
                    replies.append(driver.reply(200, '{"items": [') if x == 'bad' else driver.reply(int(x[1:]), '{"code": "c"}'))
                    end = 'list error payload' if x == 'bad' else f'list error unexpected {x[1:]}' if x[0] == 'u' else f'list error response {x[1:]} ' + json.dumps({'code': 'c'})
                    break
            emit(op, f'pages{n}-{limit}', words, None, replies, ('pages', wants, (end is None, ['list'] + log + [end or 'list end']), texts))
    t, _ = plan(0, lambda k: True)
    emit(op, 'hook-fails', t, None, [driver.reply(200, '{"items": []}')], ('stopped',), hook='crate::support::log("hook".into()); Err(anyhow::anyhow!("no"))')
    emit(op, 'token', t + [('page-token', 'x')], None, [driver.reply(200, '{"items": []}')], ('refused',))
    for w, _ in t:
        p = next(p for p in op.params if kebab(p.api) == w)
        if not p.opt:
            emit(op, 'without-' + w, [x for x in t if x[0] != w], None, [driver.reply(200, '{"items": []}')], ('refused',))
    first = op.doc['paths'][op.path][op.method].get('x-dropshot-pagination', {}).get('required', [])
    for f in first:
        emit(op, 'without-' + kebab(f), [x for x in t if x[0] != kebab(f)], None, [driver.reply(200, '{"items": []}')], ('refused',))


def norm(l):
    """a line of the log, its JSON without absent members"""
    m = re.match(r'(.*?)(\{.*\}|\[.*\])$', l)
    if not m:
        return l
    strip = lambda v: {k: strip(x) for k, x in v.items() if x is not None} if isinstance(v, dict) else [strip(x) for x in v] if isinstance(v, list) else v
    return m.group(1) + json.dumps(strip(json.loads(m.group(2))), sort_keys=True)


def verdict(op, check, got):
    out = []
    if check[0] == 'commands':
        r = json.loads(got['result'])
        return [] if r == check[1] else [f'the commands are {r}, documented {check[1]}']
    r, texts = json.loads(got['result'])
    log = [norm(l) for l in got['log'] if l != 'recv']
    if check[0] == 'refused':
        return [] if r == 'refused' and not got['seen'] else [f'the command is not refused: {r}; sent {got["seen"]}']
    if check[0] == 'stopped':
        return [] if r == 'failed' and not got['seen'] and log == ['hook'] else [f'a failing override does not stop the command: {r}, log {log}, sent {got["seen"]}']
    if r == 'refused':
        return ['the command is refused']
    wants = [check[1]] if check[0] == 'sent' else check[1]
    if len(got['seen']) != len(wants):
        return [f'{len(got["seen"])} requests are sent, expected {len(wants)}']
    for k, (w, s) in enumerate(zip(wants, got['seen'])):
        out += [(f'request {k + 1}: ' if len(wants) > 1 else '') + m for m in driver.check_request(op, w, s)]
    ok, want = check[2]
    if (r == 'ok') != ok:
        out.append(f'the command ends {r}, expected {"ok" if ok else "failed"}')
    if got['case'].endswith('/hook'):
        want = ['hook'] + want
    if log != [norm(l) for l in want]:
        out.append(f'reported {log}, expected {want}')
    t = check[3]
    if (texts['about'], texts['long']) != (t['about'], t['long']):
        out.append(f'described as {texts["about"]!r}, {texts["long"]!r}; documented {t["about"]!r}, {t["long"]!r}')
    h = {k: v for k, v in texts['help'].items() if k != 'json-body-template'}
    w = {k: h.get(k) if v is ... else v for k, v in t['help'].items()}
    if h != w:
        out.append(f'arguments and their texts {h}, documented {w}')
    return out
