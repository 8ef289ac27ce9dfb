#!/usr/bin/env python3
"""Run the check of its property against each planted bug. usage: seedcheck.py [id-substring ...]"""
import os, sys, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/sc'
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(W):
    sh('cp', '-a', '/repo', W)
sh('git', '-C', W, 'checkout', '-q', '--', '.'); sh('git', '-C', W, 'pull', '-q', '/repo')
for i in sorted(os.listdir(V + '/seeded')):
    if sys.argv[1:] and not any(a in i for a in sys.argv[1:]):
        continue
    p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    r = sh('git', '-C', W, 'apply', '%s/seeded/%s/patch.diff' % (V, i))
    o = sh('python3', 'check.py', p, cwd=V, env=dict(os.environ, VERIF_REPO=W))
    sh('git', '-C', W, 'checkout', '-q', '--', '.')
    v = [l for l in o.stdout.split('\n') if 'VIOLATION' in l]
    print('%-6s %-16s %s' % ('caught' if o.returncode == 1 and v else 'MISSED', i, r.stdout[:200] if r.returncode else ''))
    if os.environ.get('V') or not (o.returncode == 1 and v):
        print(o.stdout[-1500:])
    sys.stdout.flush()
