#!/usr/bin/env python3
"""run.py check ID | setup | replay FILE      (tier and seed: VERIF_TIER, VERIF_SEED; tree: REPO, default /repo)

One check = contracts woven into the functions of /repo as they are now and discharged by Verus, a vacuity
probe of the same file, and a bounded run of the real code whose only jobs are to replay a violation on a
concrete input and to stand in, labelled bounded, where the extraction or the verifier gives no answer."""
import concurrent.futures as cf
import hashlib, importlib, json, os, re, shutil, subprocess, sys, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vp import verus
from vp.rustlex import Src, Lost
import native as NV

REPO = os.environ.get('REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
WORK = os.path.join(ROOT, '.work')
MODULES = ['client', 'query', 'template', 'gen', 'gen2', 'gen3', 'gen4', 'gen5', 'gen6', 'gen7', 'gen8', 'gen9', 'gen10', 'gen11', 'gen12', 'gen13']


def registry():
    reg = {}
    for m in MODULES:
        try:
            mod = importlib.import_module('specs.' + m)
        except ModuleNotFoundError as e:
            if e.name == 'specs.' + m:
                continue
            raise
        for k, b in mod.BUILD.items():
            reg[k] = (mod, b)
    return reg


def load_src(mod, prop):
    f = mod.FILES[prop] if hasattr(mod, 'FILES') else mod.FILE
    return Src(open(os.path.join(REPO, f)).read(), f)


def weave(mod, build, prop, probe, path, **kw):
    if hasattr(mod, 'load'):
        src = mod.load(REPO, prop)
    else:
        src = load_src(mod, prop)
    w = build(src, probe, **kw)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(w.text())
    return w


def known(prop):
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    for l in open(p):
        m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l.rstrip('\n'))
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def assumptions(text):
    """mechanical scan of the verified file for everything taken on trust"""
    out, mod = [], []
    lines = text.split('\n')
    pend = False
    for l in lines:
        if '#[verifier::external_body]' in l or '#[verifier::external_type_specification]' in l or '#[verifier::external_trait_specification]' in l:
            pend = True
            rest = re.sub(r'#\[verifier::\w+\]', '', l).strip()
            if not rest:
                continue
            l = rest
        if pend and l.strip() and not l.strip().startswith('#['):
            s = re.sub(r'\s+', ' ', l.strip())
            out.append('assumed: ' + s[:160].rstrip('{ '))
            pend = False
        m = re.search(r'assume_specification.*?\[\s*(.*?)\s*\]', l)
        if m:
            out.append('assumed specification of ' + m.group(1))
        if re.search(r'\b(assume|admit)\s*\(', l):
            out.append('assume/admit: ' + l.strip()[:160])
    return sorted(set(out))


def check(prop):
    t0 = time.time()
    reg = registry()
    if prop not in reg:
        print(f'no check for {prop}')
        return 2
    mod, build = reg[prop]
    wd = os.path.join(WORK, prop + ('' if REPO == '/repo' else '-' + hashlib.md5(REPO.encode()).hexdigest()[:8]))
    os.makedirs(wd, exist_ok=True)
    pool = cf.ThreadPoolExecutor(8)
    nat = pool.submit(NV.run, prop, REPO, TIER, SEED, WORK)

    why = []            # reasons the deductive part gives no answer
    w = r = pr = None
    seeds = []
    try:
        path = os.path.join(wd, f'{prop}.rs')
        w = weave(mod, build, prop, False, path)
        wp = weave(mod, build, prop, True, os.path.join(wd, f'{prop}_probe.rs'))
        a = pool.submit(verus.run, path)
        b = pool.submit(verus.run, os.path.join(wd, f'{prop}_probe.rs'))
        if TIER == 'thorough':
            seeds = [('z3 seed %d' % s, pool.submit(verus.run, path, (), 300, s)) for s in (SEED, SEED + 17, SEED + 101)]
            seeds.append(('cvc5', pool.submit(verus.run, path, ('-V', 'cvc5'), 300)))
        r, pr = a.result(), b.result()
    except Lost as e:
        why.append(f'extraction: {e}')
    except Exception as e:
        why.append(f'extraction: {type(e).__name__}: {e}')
        if os.environ.get('VP_DEBUG'):
            traceback.print_exc()

    failed = []
    if r is not None:
        if r.front:
            why.append('verifier front end: ' + r.front[0].strip()[:600])
        elif r.rlimit:
            why.append('verifier ran out of resources: ' + r.rlimit[0].strip()[:300])
        elif r.errors:
            if w.census:
                why.append('shape of the code changed: ' + '; '.join(f'{q}: {x} {e} -> {g}' for q, x, e, g in w.census))
            if w.uncontracted:
                why.append('functions without contract are called: ' + ', '.join(w.uncontracted))
            failed = r.failures
            if not failed:
                why.append('verifier reports errors that could not be read')
        elif not r.verified or not r.success:
            why.append('verifier produced no obligations: ' + r.out[-400:])
        if failed and any(t.startswith('HINT:') for f in failed for t in f['tags']):
            # a step of the proof, not of the contract: decide without it
            try:
                p2 = os.path.join(wd, f'{prop}_direct.rs')
                w2 = weave(mod, build, prop, False, p2, hints=False)
                r2 = verus.run(p2, timeout=400)
                failed = r2.failures
                if r2.front or r2.rlimit or not failed:
                    failed, extra = [], ' and the proof without it gives no answer'
                    if r2.success and not r2.front and not r2.rlimit and r2.verified:
                        extra, w, r, path = '', w2, r2, p2
                    if extra:
                        why.append('a step of the proof does not hold' + extra)
            except Lost as e:
                failed = []
                why.append(f'extraction: {e}')
        if not why and not failed:
            want = set(re.findall(r'/\*@(PROBE:[^@]+)@\*/', open(os.path.join(wd, f'{prop}_probe.rs')).read()))
            got = set(t for f in pr.failures for t in f['tags'] if t.startswith('PROBE:'))
            miss = want - got
            if not want or miss:
                why.append('vacuous: an assertion of false is accepted in ' + ', '.join(sorted(x[6:] for x in miss)))

    try:
        n = nat.result()
    except Exception as e:
        n = NV.Native()
        n.error = f'{type(e).__name__}: {e}'
    kn = known(prop)
    hits = [(k, m) for k, m in n.fails if k in kn]
    new = [(k, m) for k, m in n.fails if k not in kn]
    proved = not why and not failed

    unstable = []
    for name, fut in seeds:
        x = fut.result()
        if not (x.verified and not x.errors and not x.front and not x.rlimit):
            unstable.append(f'{name}: verified {x.verified}, errors {x.errors}')

    # ---- report
    level = getattr(mod, 'LEVEL', {}).get(prop, 'proof') if proved else 'exploration'
    cov = {}
    if r is not None and w is not None:
        text = open(os.path.join(wd, f'{prop}.rs')).read()
        cov.update(
            obligations=r.verified + r.errors, discharged=r.verified, checker_cmd='RUSTC_BOOTSTRAP=1 ' + r.cmd,
            back_end='z3 (bundled with Verus)', verus_s=round(r.total_s, 2), smt_ms=r.smt_ms,
            functions_under_contract=w.contracted, functions_without_contract=w.uncontracted,
            named_clauses=[f'{q}: {t}' for q, _, t in w.tags],
            extraction_rules=sorted(w.rules), vacuity_probes_refuted=len(set(t for f in pr.failures for t in f['tags'] if t.startswith('PROBE:'))) if pr else 0,
            trusted_base=['Verus and z3', 'the extraction in vp/weave.py'] + assumptions(text))
        if hasattr(w, 'programs'):
            cov.update(programs=w.programs, disagreements_checked=len(w.tags))
        if seeds:
            cov['other_solver_runs'] = [s for s, _ in seeds]
            cov['other_solver_disagreements'] = unstable
    cov.update(evaluations=n.cases, distinct_nontrivial=n.distinct,
               rule='bounded companion run of the real code, inputs enumerated and generated from the seed, each compared with an independent expectation; distinct by the printed form of the input; '
                    'never counted as proved', samples=n.samples or [n.error or 'none'], native=n.what)
    if why:
        cov['no_deductive_answer'] = why
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov,
              assumptions=cov.get('trusted_base', []), wall_s=round(time.time() - t0, 2), violations=0)

    rc = 0
    line = None
    if new:
        rc, ev['violations'] = 1, len(new)
        rp = replay_file(prop, dict(kind='input', property=prop, key=new[0][0], message=new[0][1], all=new[:20], cmd=n.cmd,
                                    failed_obligations=[dict(kind=f['kind'], clauses=f['tags'], output=f['text'][:3000]) for f in failed]))
        line = f'VIOLATION property={prop} replay={rp}'
        print(f'failing input: {new[0][0]}: {new[0][1]}'[:1500])
        for f in failed:
            print(f'failed obligation: {f["kind"]} {" ".join(f["tags"])}')
    elif failed and not why:
        rc, ev['violations'] = 1, len(failed)
        rp = replay_file(prop, dict(kind='obligation', property=prop, input='no failing input found',
                                    failed_obligations=[dict(kind=f['kind'], clauses=f['tags'], output=f['text'][:6000]) for f in failed],
                                    checker_cmd=r.cmd, native=n.what, native_error=n.error))
        line = f'VIOLATION property={prop} replay={rp} no-failing-input-found'
        for f in failed:
            print(f'failed obligation: {f["kind"]} {" ".join(f["tags"])}')
    elif not proved and (n.error or not n.cases):
        print('no answer: ' + '; '.join(why) + f'; bounded run: {n.error}')
        rc = 2
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, m in hits:
        print(f'KNOWN-FINDING: property={prop} {k}: {kn[k]}')
    if rc == 0:
        if proved:
            print(f'{prop}: proved; {r.verified} obligations discharged in {r.total_s:.1f} s ({len(w.contracted)} functions under contract, '
                  f'{len(w.tags)} named clauses); bounded companion {n.cases} cases, {n.error or "clean"}')
        else:
            print(f'{prop}: bounded only, not proved ({"; ".join(why)[:700]}); {n.cases} cases clean')
        if unstable:
            print('solver disagreement: ' + '; '.join(unstable))
    if line:
        print(line)
    return rc


def replay_file(prop, d):
    p = os.path.join(WORK, 'replay')
    os.makedirs(p, exist_ok=True)
    f = os.path.join(p, f'{prop}.json')
    with open(f, 'w') as h:
        json.dump(d, h, indent=1)
    return f


def replay(path):
    d = json.load(open(path))
    print(json.dumps(d, indent=1))
    n = NV.run(d['property'], REPO, TIER, SEED, WORK)
    for k, m in n.fails:
        if d.get('key') in (None, k):
            print(f'reproduced: {k}: {m}')
            return 1
    print('not reproduced on this tree')
    return 0


def setup():
    r = NV.setup(REPO, WORK)
    print(r)
    p = subprocess.run(['verus', '--version'], capture_output=True, text=True)
    print(p.stdout.strip())
    return 0


if __name__ == '__main__':
    cmd = sys.argv[1]
    sys.exit(check(sys.argv[2]) if cmd == 'check' else replay(sys.argv[2]) if cmd == 'replay' else setup())
