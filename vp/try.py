import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import verus
from vp.rustlex import *
def main():
    import importlib
    mod, prop = sys.argv[1], sys.argv[2]
    m = importlib.import_module('specs.' + mod)
    root = os.environ.get('REPO', '/repo')
    src = Src(open(os.path.join(root, m.FILE)).read(), m.FILE) if not hasattr(m, 'load') else m.load(root, prop)
    w = m.BUILD[prop](src, len(sys.argv) > 3)
    os.makedirs('/tmp/vx/w', exist_ok=True)
    p = f'/tmp/vx/w/{prop}.rs'
    open(p, 'w').write(w.text())
    r = verus.run(p)
    print(prop, 'verified', r.verified, 'errors', r.errors, 'front', len(r.front), 'rl', len(r.rlimit), f'{r.total_s:.1f}s smt {r.smt_ms}ms', 'census', w.census, 'unc', w.uncontracted)
    for f in r.failures: print(f['kind'], f['tags'])
    if r.front or r.failures: print(r.out[:6000])
main()
