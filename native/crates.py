"""Runs the real cargo-progenitor (with stand-ins for the crates that are not available offline) and reads the crates it writes."""
import itertools, json, os, random, re, resource, shutil, subprocess, tempfile, tomllib

THING = {'type': 'object', 'required': ['id'], 'properties': {'id': {'type': 'string'}}}


def document(ops, tags=True):
    paths = {}
    ok = {'200': {'description': 'd', 'content': {'application/json': {'schema': {'$ref': '#/components/schemas/Thing'}}}}}
    if 'plain' in ops:
        paths['/a'] = {'get': {'operationId': 'get_a', 'tags': ['alpha'], 'responses': ok}}
    if 'page' in ops:
        q = lambda n, **s: {'in': 'query', 'name': n, 'style': 'form', 'schema': s}
        paths['/p'] = {'get': {'operationId': 'list_p', 'x-dropshot-pagination': {'required': []}, 'parameters': [q('limit', type='integer', format='uint32', minimum=1), q('page_token', type='string')],
                               'responses': {'200': {'description': 'd', 'content': {'application/json': {'schema': {'$ref': '#/components/schemas/Page'}}}}}}}
    if 'sock' in ops:
        paths['/s'] = {'get': {'operationId': 'talk', 'x-dropshot-websocket': {}, 'responses': {'default': {'description': 'd', 'content': {'*/*': {'schema': {}}}}}}}
    if 'twice' in ops:
        for p in ('/t', '/u'):
            paths[p] = {'get': {'operationId': 'same', 'responses': ok}}
    if 'new' in ops:
        return {'openapi': '3.1.0', 'info': {'title': 't', 'version': '1'}, 'paths': paths}
    return {'openapi': '3.0.3', 'info': {'title': 't', 'version': '1'}, 'paths': paths,
            'components': {'schemas': {'Thing': THING, 'Page': {'type': 'object', 'required': ['items'], 'properties': {'items': {'type': 'array', 'items': {'$ref': '#/components/schemas/Thing'}}, 'next_page': {'type': 'string'}}}}}}


FEATURES = {'reqwest': (False, {'json', 'stream'}), 'serde': (True, {'derive'}), 'uuid': (True, {'serde', 'v4'}), 'chrono': (False, {'serde'})}


def run(n, repo, tier, seed, work, build, env):
    b, err = build('cargo', repo, work)
    if err:
        n.error = err
        return n
    n.cmd, n.what = b, f'the real cargo-progenitor on generated documents and all combinations of its options, tier {tier}, seed {seed}'
    r = random.Random(seed)
    cases = []
    kinds = ['regress', 'uuid', 'chrono', 'serde_json']
    for ops in (['plain'], ['plain', 'page'], ['sock'], ['page', 'sock']):
        for i, (inter, tags, inc) in enumerate(itertools.product(('positional', 'builder'), ('merged', 'separate'), (True, False))):
            for uses in ([[kinds[(i + k) % 4] for k in range(r.randrange(4))]] if tier == 'quick' else [list(c) for m in range(5) for c in itertools.combinations(kinds, m)]):
                cases.append(dict(ops=ops, interface=inter, tags=tags, inc=inc, uses=uses, registry=[None, 'own'][i & 1], yaml=r.random() < .3, stale=r.random() < .5))
    for u in kinds + ['']:
        for inc in (True, False):
            cases.append(dict(ops=['plain'], interface='builder', tags='merged', inc=inc, uses=[u], registry=None, yaml=False, stale=False))
    for ops in (['twice'], ['plain', 'new'], 'text'):
        cases.append(dict(ops=ops, interface='positional', tags='merged', inc=True, uses=[], registry=None, yaml=False, stale=False))
    for what in ('Cargo.toml', 'src', 'src/lib.rs', 'src/progenitor_client.rs', '.'):
        for how in ('full', 'other', 'short'):
            if how == 'other' or what not in ('src', '.'):
                cases.append(dict(ops=['plain'], interface='builder', tags='merged', inc=True, uses=[], registry=None, yaml=False, stale=False, fault=[what, how]))
    top = tempfile.mkdtemp(prefix='crates-', dir=os.path.dirname(b))
    codes = {}
    try:
        for k, c in enumerate(cases):
            n.cases += 1
            n.distinct += 1
            try:
                one(n, k, c, b, top, env, repo, codes)
            except Exception as e:
                n.fails.append((f'G28:{k}', f'{c}: the crate cannot be read: {type(e).__name__}: {e}'))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    n.samples = [json.dumps(c) for c in cases[:3]]
    return n


def one(n, k, c, b, top, env, repo, codes):
    key = f'G28:{"+".join(c["ops"])}/{c["interface"]}/{c["tags"]}/{c["inc"]}/{"+".join(c["uses"])}'

    def bad(m):
        n.fails.append((key, f'{json.dumps(c)}: {m}'))
    d = os.path.join(top, str(k))
    out = os.path.join(d, 'deep', 'out')
    os.makedirs(d)
    src = os.path.join(d, 'in.json')
    with open(src, 'w') as f:
        f.write('no document' if c['ops'] == 'text' else ('# a comment\n' if c['yaml'] else '') + json.dumps(document(c['ops'])))
    if c['stale']:
        os.makedirs(os.path.join(out, 'src'))
        for x in ('Cargo.toml', 'src/lib.rs', 'src/progenitor_client.rs', 'src/other.rs') if c['inc'] else ('Cargo.toml', 'src/lib.rs', 'src/other.rs'):
            with open(os.path.join(out, x), 'w') as f:
                f.write('# stale\n' * 20000)
    name, version, lic = f'my-crate{k}', f'1.{k}.0', f'L-{k}'
    a = dict(input=src, output=out, name=name, version=version, registry_name=c['registry'], license_name=lic, interface=c['interface'], tags=c['tags'], include_client=c['inc'])
    what, how = c.get('fault', ('', ''))
    at, pre = os.path.join(out, what), None
    if how == 'full':
        os.makedirs(os.path.dirname(at), exist_ok=True)
        os.symlink('/dev/full', at)
    elif how == 'other' and what in ('src', '.'):
        os.makedirs(os.path.dirname(os.path.normpath(at)), exist_ok=True)
        open(os.path.normpath(at), 'w').close()
    elif how == 'other':
        os.makedirs(at)
    elif how == 'short':    # files may not be longer: only this one is
        size = {'Cargo.toml': 20, 'src/lib.rs': 2000, 'src/progenitor_client.rs': os.path.getsize(os.path.join(repo, 'progenitor-client', 'src', 'progenitor_client.rs')) - 9}[what]
        pre = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
    p = subprocess.run([b], cwd=d, preexec_fn=pre, restore_signals=False, env=dict(env, VP_ARGS=json.dumps(a), VP_USES=','.join(c['uses'])), capture_output=True, text=True, timeout=60, errors='replace')
    if how:
        if p.returncode == 0:
            bad(f'{what} cannot be written, but it ended well')
        return
    got = {}
    for dd, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(dd, f)
            if q != src:
                got[os.path.relpath(q, out)] = open(q).read()
    if c['ops'] == 'text' or set(c['ops']) & {'twice', 'new'} or (p.returncode and (c['interface'], c['tags']) == ('positional', 'separate')):
        if p.returncode == 0 or any(v != '# stale\n' * 20000 for v in got.values()):
            bad(f'no code can be made, but it ended with {p.returncode} and wrote {sorted(got)}')
        return
    if p.returncode:
        return bad(f'it ended with {p.returncode}: {p.stderr[-300:]}')
    want = {'Cargo.toml', 'src/lib.rs'} | ({'src/progenitor_client.rs'} if c['inc'] else set())
    if c['stale']:
        if got.pop('src/other.rs', None) != '# stale\n' * 20000:
            bad('a file that is not its own was changed')
    if set(got) != want:
        return bad(f'it wrote {sorted(got)}, not {sorted(want)}')
    t = tomllib.loads(got['Cargo.toml'])
    pk = dict(name=name, version=version, edition='2021', license=lic)
    if c['registry']:
        pk['publish'] = [c['registry']]
    if t.get('package') != pk:
        bad(f'package is {t.get("package")}, not {pk}')
    deps = t.get('dependencies', {})
    need = {'bytes', 'futures-core', 'reqwest', 'serde', 'serde_urlencoded'} | ({'percent-encoding', 'serde_json'} if c['inc'] else {'progenitor-client'})
    need |= set(u for u in c['uses'] if u)
    if 'page' in c['ops']:
        need.add('futures')
    if 'sock' in c['ops']:
        need |= {'base64', 'rand'}
    if set(deps) != need:
        bad(f'dependencies are {sorted(deps)}, its code needs {sorted(need)}')
    code = got['src/lib.rs']
    if deps.get('progenitor-client', '*') != '*':
        bad(f'this is no release, but it wants progenitor-client {deps["progenitor-client"]}')
    for x in ('futures', 'base64', 'rand'):
        if re.search(r'\b%s\s*::' % x, code) and x not in deps:
            bad(f'the code uses {x}, which is no dependency')
    for x, v in deps.items():
        ver = v if isinstance(v, str) else v.get('version', '')
        if not re.fullmatch(r'\*|\d+(\.\d+)*', ver):
            bad(f'version of {x}: {ver!r}')
        if x in FEATURES and (v.get('default-features', True) if isinstance(v, dict) else True, set(v.get('features', [])) if isinstance(v, dict) else set()) != FEATURES[x]:
            bad(f'{x}: {v}')
    if c['inc']:
        if not re.match(r'mod\s+progenitor_client\s*;', code):
            bad('the support code is no module of the crate')
        code = re.sub(r'^mod\s+progenitor_client\s*;\s*', '', code)
        if got['src/progenitor_client.rs'] != open(os.path.join(repo, 'progenitor-client', 'src', 'progenitor_client.rs')).read():
            bad('the support code is not progenitor-client')
    elif re.search(r'\bmod\s+progenitor_client\b', code):
        bad('a module that is not there')
    if bool(re.search(r'pub\s+mod\s+builder\b', code)) != (c['interface'] == 'builder'):
        bad(f'the interface is not {c["interface"]}')
    if bool(re.search(r'\bClientAlphaExt\b', code)) != (c['tags'] == 'separate' and c['interface'] == 'builder' and 'plain' in c['ops']) and c['interface'] == 'builder':
        bad(f'the tags are not {c["tags"]}')
    # neither the support code nor the form of the input changes the code
    w = codes.setdefault((tuple(c['ops']), c['interface'], c['tags']), code.split())
    if w != code.split():
        bad('the code is another with these options')
