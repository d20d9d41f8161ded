"""Generates clients with the real generator, compiles them against the real progenitor-client and runs them against a loopback server."""
import json, os, random, re, subprocess
from . import cmds, docs, driver, mocks, model

HERE = os.path.dirname(os.path.abspath(__file__))
WHICH = {'G20': ('main', 'hook', 'pre', 'post', 'sock', 'rand'), 'G21': ('main_b', 'hooki_b', 'rand'), 'G22': ('page',), 'G26': ('mock',), 'G27': ('cli',)}


# what calls the generated code and judges what it did
DRIVER = {'G26': mocks, 'G27': cmds}


# a statement that does nothing, put into a quotation of the generator, would land between the tokens of an expression:
# it is dropped from the generated text before that is read (DESIGN, section 2)
NOOP = re.compile(r'\blet\s+_\s*=\s*(?:\d+|\(\s*\))\s*;')


def members(prop, tier, seed, which=None):
    fam = docs.family(tier, seed)
    keep = which or WHICH[prop]
    fam = [e for e in fam if e['name'].startswith(keep)]
    if prop == 'G21':
        fam = [e for e in fam if e['interface'] == 'builder']
    return fam


def generate(prop, repo, tier, seed, work, build, tag='run', which=None):
    """runs the real generator -> (list of (entry, code or None, error))"""
    b, err = build('gen', repo, work, 'emit')
    if err:
        return None, err
    d = os.path.join(os.path.dirname(b), f'emit-{tag}-{prop}-{tier}-{seed}-{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    fam = members(prop, tier, seed, which)
    with open(os.path.join(d, 'docs.json'), 'w') as f:
        json.dump(fam, f)
    p = subprocess.run([b, os.path.join(d, 'docs.json'), d], capture_output=True, text=True, timeout=120)
    out = []
    for e in fam:
        f = os.path.join(d, e['name'] + '.rs')
        g = os.path.join(d, e['name'] + '.err')
        x = os.path.join(d, e['name'] + '.ext')
        if os.path.exists(g):
            out.append((e, None, open(g).read()))
        elif os.path.exists(f):
            out.append((e, NOOP.sub('', open(f).read()), None))
            if os.path.exists(x):
                e['code_ext'] = NOOP.sub('', open(x).read())
        else:
            return None, f'the generator ended with {p.returncode}: {p.stderr[-400:]}'
        for y in (f, g, x):
            if os.path.exists(y):
                os.unlink(y)
    return out, None


def run(n, prop, repo, tier, seed, work, build, env, put):
    gen, err = generate(prop, repo, tier, seed, work, build)
    if err:
        n.error = err
        return n
    base = os.path.join(work, f"native-run-{prop}")
    if repo != '/repo':
        import hashlib
        base += '-' + hashlib.md5(repo.encode()).hexdigest()[:8]
    src = os.path.join(base, 'crate')
    os.makedirs(os.path.join(src, 'src'), exist_ok=True)
    for d, _, fs in os.walk(os.path.join(HERE, 'shims')):
        for f in fs:
            s = os.path.join(d, f)
            put(os.path.join(src, 'shims', os.path.relpath(s, os.path.join(HERE, 'shims'))), open(s).read())
    put(os.path.join(src, 'Cargo.toml'), open(os.path.join(HERE, 'Cargo.toml')).read().replace('"/repo/', f'"{repo}/'))
    if not os.path.exists(os.path.join(src, 'Cargo.lock')) and os.path.exists(os.path.join(HERE, 'Cargo.lock')):
        put(os.path.join(src, 'Cargo.lock'), open(os.path.join(HERE, 'Cargo.lock')).read())
    put(os.path.join(src, 'src', 'support.rs'), open(os.path.join(HERE, 'support.rs')).read())
    rng = random.Random(seed)
    drv = DRIVER.get(prop, driver)
    mods, ext, exp = [], [], {}
    for e, code, er in gen:
        name = e['name']
        if code is None:
            n.fails.append((f'generate:{name}', f'no client is generated for the document {name}: {er}'))
            continue
        put(os.path.join(src, 'src', name + '.rs'), code)
        r2 = random.Random(f'{seed}{name}')
        if 'code_ext' in e:
            put(os.path.join(src, 'src', name + '_x.rs'), e['code_ext'])
        body, k, x = drv.build(e, r2, tier)
        put(os.path.join(src, 'src', 'd_' + name + '.rs'), '#![allow(unused)]\nuse crate::{support::*, %s};\n%s\npub async fn run(url: &str, rc: &reqwest::Client) {\n%s\n}\n' % (
            name + (f', {name}_x' if 'code_ext' in e else ''), body, '\n'.join(f'    c{i}(url, rc).await;' for i in range(k))))
        exp.update(x)
        mods.append(name)
        ext += [name] if 'code_ext' in e else []
    n.cases = len(exp)
    put(os.path.join(src, 'src', 'main.rs'), '#![allow(warnings)]\nmod support;\npub use support::hooks;\n' + ''.join(f'mod {m};\nmod d_{m};\n' for m in mods) + ''.join(f'mod {m}_x;\n' for m in ext) + '''
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let url = support::serve();
        let rc = reqwest::Client::builder().pool_max_idle_per_host(0).build().unwrap();
''' + ''.join(f'        d_{m}::run(&url, &rc).await;\n' for m in mods) + '    });\n}\n')
    for f in os.listdir(os.path.join(src, 'src')):
        if f not in ('main.rs', 'support.rs') and f[:-3] not in mods and f[2:-3] not in mods and f[:-5] not in ext:
            os.unlink(os.path.join(src, 'src', f))
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--message-format=json'] + (['--features', 'ext'] if prop in DRIVER else []), cwd=src, env=dict(env, CARGO_TARGET_DIR=os.path.join(base, 'target')), capture_output=True, text=True, timeout=700)
    if p.returncode:
        bad, ours = [], []
        for l in p.stdout.split('\n'):
            j = json.loads(l) if l.startswith('{') else {}
            m = j.get('message') or {}
            if m.get('level') != 'error' or not m.get('spans'):
                continue
            where = []
            for sp in m['spans']:
                while sp:
                    where.append((sp['is_primary'], os.path.basename(sp['file_name'])[:-3], sp['line_start'], sp['column_start']) if '/src/' in '/' + sp['file_name'] and not os.path.isabs(sp['file_name']) else None)
                    sp = (sp.get('expansion') or {}).get('span')
            where = [w for w in where if w and w[1] not in ('main', 'support')]
            if not where:
                ours.append(m['message'])
            else:
                _, f, l, c = next((w for w in where if w[0]), where[0])
                bad.append((f, l, c, m['message']))
        n.cases = 1
        if not bad:
            n.error = 'the driver does not build: ' + ('; '.join(ours) or p.stderr[-1500:])[:1500]
            n.cases = 0
            return n
        seen = set()
        for f, l, c, m in bad:
            k = ('compile:' if not f.startswith('d_') else 'signature:') + f.removeprefix('d_')
            if k in seen:
                continue
            seen.add(k)
            lines = open(os.path.join(src, 'src', f + '.rs')).read().split('\n')
            text = lines[int(l) - 1]
            at = text if len(text) < 300 else text[max(0, int(c) - 150):int(c) + 150]
            n.fails.append((k, f'the client generated for document {f.removeprefix("d_")} {"does not compile" if not f.startswith("d_") else "cannot be called with the documented arguments"}: {m} at: {at.strip()}'))
        return n
    exe = os.path.join(base, 'target', 'debug', 'native-gencode')
    n.cmd = exe
    try:
        p = subprocess.run([exe], capture_output=True, text=True, timeout=500 if tier == 'thorough' else 200, errors='replace')
    except subprocess.TimeoutExpired as e:
        n.fails.append((f'{prop}:does-not-terminate', 'a generated method does not return'))
        return n
    got = {}
    for l in p.stdout.split('\n'):
        if l.startswith('{'):
            j = json.loads(l)
            got[j['case']] = j
    distinct = set()
    for case, (op, check) in exp.items():
        j = got.get(case)
        if j is None:
            n.fails.append((f'{case}', f'the call panics or does not return: {p.stderr[-300:]}'))
            break
        distinct.add(json.dumps([j['seen'], j['result']])[:2000])
        for m in drv.verdict(op, check, j):
            k, m = m if isinstance(m, tuple) else (case, m)
            n.fails.append((k, f'{op.method} {op.path} ({case}): {m}'))
    n.distinct = len(distinct)
    n.samples = [f'{c}: {json.dumps(got[c])[:300]}' for c in list(exp)[::max(1, len(exp) // 6)] if c in got]
    n.what = f'{len(mods)} generated clients, compiled with progenitor-client and run against a loopback server, tier {tier}, seed {seed}'
    return n
