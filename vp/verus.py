"""Runs Verus on a woven file and reads back what it decided."""
import json, os, re, subprocess, time

FAIL_PAT = [
    (r'^error: postcondition not satisfied', 'postcondition'),
    (r'^error: precondition not satisfied', 'precondition'),
    (r'^error: (loop )?invariant not satisfied', 'invariant'),
    (r'^error: assertion failed', 'assertion'),
    (r'^error: possible arithmetic', 'overflow'),
    (r'^error: possible division', 'division'),
    (r'^error: (decreases not satisfied|loop must have a decreases|could not prove termination)', 'termination'),
    (r'^error: unable to prove', 'assertion'),
    (r'^error: .*(not satisfied|might not hold|may not hold)', 'obligation'),
    (r'^error: (requires|ensures) not satisfied', 'obligation'),
    (r'^error: possible .*', 'obligation'),
    (r'^error: recommendation not met', 'recommend'),
]


class Result:
    def __init__(self):
        self.verified = self.errors = 0
        self.failures = []      # dict(kind, tags, lines, text)
        self.front = []         # front-end errors
        self.rlimit = []
        self.smt_ms = 0
        self.total_s = 0.0
        self.out = ''
        self.cmd = ''


def run(path, extra=(), timeout=300, seed=None):
    cmd = ['verus', os.path.basename(path), '--output-json', '--time-expanded', '--multiple-errors', '5', '--rlimit', '40']
    cmd += list(extra) + os.environ.get("VXOPT", "").split()
    if seed is not None:
        cmd += ['--smt-option', f'smt.random_seed={seed}']
    t = time.time()
    r = Result()
    r.cmd = ' '.join(cmd)
    env = dict(os.environ)
    env['RUSTC_BOOTSTRAP'] = '1'
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(path), capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired as e:
        r.rlimit.append('timeout')
        r.total_s = time.time() - t
        r.out = str(e)
        return r
    r.total_s = time.time() - t
    r.out = p.stderr
    try:
        js = json.loads(p.stdout[p.stdout.index('{'):])
        vr = js.get('verification-results', {})
        r.verified = vr.get('verified', 0)
        r.errors = vr.get('errors', 0)
        tm = js.get('times-ms', {})
        r.smt_ms = tm.get('smt', {}).get('total', 0) if isinstance(tm.get('smt'), dict) else 0
        r.success = vr.get('success', False)
        r.vir_error = vr.get('encountered-vir-error', False)
    except (ValueError, KeyError):
        r.success = False
        r.vir_error = True
    src = open(path).read().split('\n')
    blocks = re.split(r'(?m)^(?=(?:error|warning|note)(?:\[|:))', p.stderr)
    for b in blocks:
        if not b.startswith('error'):
            continue
        first = b.split('\n', 1)[0]
        if first.startswith('error: aborting'):
            continue
        if 'rlimit' in first.lower() or 'resource limit' in first.lower():
            r.rlimit.append(b)
            continue
        kind = next((k for pat, k in FAIL_PAT if re.match(pat, first)), None)
        if kind is None:
            r.front.append(b)
            continue
        lines = sorted(set(int(x) for x in re.findall(r'(?m)^\s*(\d+)\s*[|\\/]', b)) |
                       set(int(x) for x in re.findall(r'--> [^:]+:(\d+):', b)))
        tags = []
        for ln in lines:
            if 0 < ln <= len(src):
                tags += re.findall(r'/\*@(.+?)@\*/', src[ln - 1])
        r.failures.append(dict(kind=kind, tags=sorted(set(tags)), lines=lines, text=b.strip(), first=first))
    return r
