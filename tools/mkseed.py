#!/usr/bin/env python3
"""Builds and confirms the planted bugs of tools/seeds.py as /verif/seeded/<id>/ (development only).
mkseed.py [ids..]: makes the patch in a scratch copy of /repo, checks that the stable tests pass with it and
that the demonstration passes without and fails with it."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('seeds', os.path.join(ROOT, 'tools/seeds.py'))
S = importlib.util.module_from_spec(spec)
spec.loader.exec_module(S)
SCR = '/tmp/seedscratch'


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **(env or {})))


def main():
    ids = sys.argv[1:] or list(S.SEEDS)
    for i in ids:
        d = S.SEEDS[i]
        out = os.path.join(ROOT, "seeded", i)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        if sh('git status --short').stdout and False:
            pass
        assert not sh('git -C /repo status --short').stdout.strip(), '/repo dirty'
        # patch
        for f, a, b in d['edits']:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(a) == 1, (i, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        try:
            diff = sh('git -C /repo diff').stdout
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            S.demo(out, d)
            bad = []
            t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            if '10 passed, 0 failed' not in t.stdout:
                bad.append('tests: ' + t.stdout[-300:])
            r1 = sh(f'bash {out}/demo.sh', cwd='/repo', env={'DEMO_TARGET': '/tmp/seedtarget'})
            if r1.returncode == 0:
                bad.append('demo passes with the patch')
        finally:
            sh('git -C /repo checkout -- .')
        r0 = sh(f'bash {out}/demo.sh', cwd='/repo', env={'DEMO_TARGET': '/tmp/seedtarget'})
        if r0.returncode != 0:
            bad.append('demo fails without the patch: ' + r0.stdout[-500:] + r0.stderr[-800:])
        print(i, 'OK' if not bad else bad, '|', (r1.stdout.strip().split('\n') or [''])[-1][:120], r1.stderr[-200:] if r1.returncode not in (0, 1) else '')
        if bad:
            sys.exitcode = 1


main()
