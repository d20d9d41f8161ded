"""Builds and runs the bounded companions: the real code of /repo against independent expectations."""
import fcntl, hashlib, os, re, shutil, subprocess, threading


class Native:
    def __init__(self):
        self.distinct = 0
        self.fails, self.cases, self.error, self.samples, self.what, self.cmd = [], 0, None, [], '', ''


HERE = os.path.dirname(os.path.abspath(__file__))


def crate_of(prop):
    return 'client' if prop.startswith('C') else 'gen'


FEATURE = dict(G01='template', G02='template', G03='template', G04='template', G05='template', G06='method', G07='method', G08='method',
               G09='util', G10='util,method', G11='lib', G12='lib', G13='method', G14='method', G15='cli', G16='to_schema', G17='util,method',
               G18='method', G19='method', G23='lib', G24='macro_items', G25='method', G29='macro_api')


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS='--cap-lints=allow')
    e.pop('CARGO_TARGET_DIR', None)
    return e


def build(crate, repo, work, feature=None):
    """-> (path of the binary, error)"""
    tag = hashlib.md5(repo.encode()).hexdigest()[:8]
    base = os.path.join(work, f'native-{crate}-{tag}')
    src = os.path.join(base, 'crate')
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if crate == 'gen':
            from . import gencrate
            err = gencrate.prepare(repo, src)
            if err:
                return None, err
        elif crate == 'cargo':
            from . import gencrate
            gencrate.prepare(repo, src)
            sync(os.path.join(HERE, crate), src, repo)
            put(os.path.join(src, 'src', 'main.rs'), open(os.path.join(repo, 'cargo-progenitor', 'src', 'main.rs')).read())
            for x in ('Cargo.lock', ):     # the lock of the other layout
                if 'name = "native-gen"' in (open(os.path.join(src, x)).read() if os.path.exists(os.path.join(src, x)) else ''):
                    shutil.copy(os.path.join(HERE, crate, x), os.path.join(src, x))
        else:
            sync(os.path.join(HERE, crate), src, repo)
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet'] + (['--features', feature] if feature else []), cwd=src, env=dict(env(), CARGO_TARGET_DIR=os.path.join(base, 'target')),
                           capture_output=True, text=True, timeout=700)
        if p.returncode:
            return None, 'the companion crate does not build: ' + p.stderr[-1500:]
        out = os.path.join(base, 'target', 'debug', f'native-{crate}')
        if feature:     # the next build replaces the binary
            tmp = f'{out}-{feature}.{os.getpid()}.{threading.get_ident()}'
            os.link(out, tmp)
            os.replace(tmp, out + '-' + feature)
            if os.path.exists(tmp):     # both were the same file already
                os.unlink(tmp)
            out += '-' + feature
        return out, None


def sync(a, b, repo):
    for d, ds, fs in os.walk(a):
        ds[:] = [x for x in ds if x != 'target']
        for f in fs:
            s = os.path.join(d, f)
            t = os.path.join(b, os.path.relpath(s, a))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            c = open(s).read()
            if f == 'Cargo.toml':
                c = c.replace('"/repo/', f'"{repo}/')
            put(t, c)


def put(path, c):
    if os.path.exists(path) and open(path).read() == c:
        return
    if os.path.basename(path) == 'Cargo.lock' and os.path.exists(path):
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(c)


def run(prop, repo, tier, seed, work):
    n = Native()
    if prop in ('G20', 'G21', 'G22', 'G26', 'G27'):
        from .gencode import runner
        return runner.run(n, prop, repo, tier, seed, work, build, env(), put)
    if prop == 'G28':
        from . import crates
        return crates.run(n, repo, tier, seed, work, build, env())
    crate = crate_of(prop)
    feature = FEATURE.get(prop)
    b, err = build(crate, repo, work, feature)
    if err and ',' in (feature or ''):
        b, err = build(crate, repo, work, feature.split(',')[0])
    if err:
        n.error = err
        return n
    n.cmd = f'{b} {prop} {tier} {seed}'
    try:
        p = subprocess.run([b, prop, tier, str(seed)], capture_output=True, text=True, timeout=600 if tier == 'thorough' else 240, errors='replace')
    except subprocess.TimeoutExpired:
        n.error = 'timeout'
        n.fails.append((f'{prop}:does-not-terminate', 'the bounded run does not end'))
        return n
    for l in p.stdout.split('\n'):
        if l.startswith('CASES '):
            n.cases = int(l[6:])
        elif l.startswith('DISTINCT '):
            n.distinct = int(l[9:])
        elif l.startswith('FAIL '):
            k, _, m = l[5:].partition('\t')
            n.fails.append((k, m))
        elif l.startswith('SAMPLE '):
            n.samples.append(l[7:])
        elif l.startswith('WHAT '):
            n.what = l[5:]
    if p.returncode or not n.cases:
        n.error = f'the companion ended with {p.returncode}: {p.stderr[-500:]}'
        if p.returncode < 0 or p.returncode == 101:
            n.fails.append((f'{prop}:crash', n.error))
    if not n.what:
        n.what = f'native/{crate}, tier {tier}, seed {seed}'
    return n


def setup(repo, work):
    out = []
    for c in ('client', 'gen'):
        if os.path.exists(os.path.join(HERE, c)):
            b, e = build(c, repo, work)
            out.append(f'{c}: {e or "built"}')
    return '; '.join(out)
