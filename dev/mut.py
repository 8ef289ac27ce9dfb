#!/usr/bin/env python3
"""Self-test of the checks: apply small edits to scratch copies of /repo and see which checks speak.

usage: mut.py [PROP|name-prefix ...]
Entries of dev/mutants.py: (name, kind, checks, [(file, old, new), ...]); kind 'bug' must be reported by one of the
checks, kind 'ok' (behaviour preserving) must leave all of them quiet. Runs on WORKERS copies of /verif and /repo under /tmp/w."""
import os, sys, subprocess, shutil, threading, queue
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from mutants import M
N = int(os.environ.get('WORKERS', '7'))
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prepare(i):
    v, w = '/tmp/w/v%d' % i, '/tmp/w/r%d' % i
    os.makedirs(v, exist_ok=True)
    if not os.path.isdir(v + '/.build'):
        sh('cp', '-a', V + '/.build', v + '/.build')
    for d in ('lib', 'checks', 'driver', 'check.py', 'known-findings.txt'):
        s = os.path.join(V, d)
        if os.path.isdir(s):
            os.makedirs(v + '/' + d, exist_ok=True)
            sh('cp', '-au', s + '/.', v + '/' + d)
        else:
            sh('cp', '-au', s, v + '/' + d)
    head = sh('git', '-C', os.environ.get('MREPO', '/repo'), 'rev-parse', 'HEAD').stdout
    if not os.path.isdir(w) or sh('git', '-C', w, 'rev-parse', 'HEAD').stdout != head:
        shutil.rmtree(w, ignore_errors=True)
        sh('git', 'clone', '-q', os.environ.get('MREPO', '/repo'), w)
    return v, w
def one(v, W, name, kind, checks, edits):
    sh('git', '-C', W, 'checkout', '-q', '--', '.')
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            return 1, 'BAD   %-40s edit matches %d times in %s: %r' % (name, s.count(old), f, old[:60])
        open(p, 'w').write(s.replace(old, new))
    res, out = [], ''
    checks = [c for c in checks if os.path.exists(os.path.join(v, 'checks', c.lower() + '.py'))]
    for c in checks:
        r = sh('python3', os.path.join(v, 'check.py'), c, env=dict(os.environ, VERIF_REPO=W))
        res.append(r.returncode)
        out += r.stdout
    good = (1 in res and 2 not in res) if kind == 'bug' else all(x == 0 for x in res)
    m = '%-5s %-40s %s %s' % ('ok' if good else 'FAIL', name, kind, dict(zip(checks, res)))
    if not good or os.environ.get('V'):
        m += '\n      ' + '\n      '.join(l[:300] for l in out.strip().split('\n')[-12:])
    sh('git', '-C', W, 'checkout', '-q', '--', '.')
    return int(not good), m
# ALL=1: every behaviour-preserving edit against every check
ALL = sorted(c[:-3].upper() for c in os.listdir(os.path.join(V, 'checks')) if c.endswith('.py')) if os.environ.get('ALL') else None
def main():
    sel = sys.argv[1:]
    q = queue.Queue()
    for m in M:
        if ALL and m[1] != 'ok':
            continue
        if not sel or any(s == m[0] or s in m[2] or m[0].startswith(s) for s in sel):
            q.put(m)
    bad = []
    lk = threading.Lock()
    def work(i):
        v, w = prepare(i)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            if ALL:
                m = (m[0], m[1], ALL, m[3])
            b, msg = one(v, w, *m)
            with lk:
                bad.append(b)
                print(msg)
                sys.stdout.flush()
    ts = [threading.Thread(target=work, args=(i,)) for i in range(min(N, q.qsize()))]
    for t in ts: t.start()
    for t in ts: t.join()
    print('%d problem(s) of %d' % (sum(bad), len(bad)))
main()
