#!/usr/bin/env python3
"""Generate /verif/seeded/<id>/ from dev/seeds.py and confirm each planted bug in a scratch copy of /repo:
it applies, builds, passes the stable tests, and its demo passes without it and fails with it.
usage: seed.py [--gen] [id-substring ...]   (--gen: only generate)"""
import os, sys, subprocess, shutil, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import S
V = os.path.dirname(HERE)
W = '/tmp/w/seedrepo'
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=W + '/target', XDG_CACHE_HOME=W + '/target/vp-cache')
def tests():
    shutil.rmtree(ENV['XDG_CACHE_HOME'], ignore_errors=True); os.makedirs(ENV['XDG_CACHE_HOME'])
    log = sh('cargo', 'test', '--workspace', '--exclude', 'logreduce-httpdir', '--lib', '--bins', '--tests', '--no-fail-fast', '--offline', '--', '--test-threads', '8', cwd=W, env=ENV)
    log2 = sh('cargo', 'test', '--workspace', '--doc', '--no-fail-fast', '--offline', cwd=W, env=ENV)
    b = sh('cargo', 'test', '--workspace', '--benches', '--no-run', '--offline', cwd=W, env=ENV)
    py = sh('cargo', 'build', '--offline', '--manifest-path', 'python/Cargo.toml', cwd=W, env=dict(ENV, CARGO_TARGET_DIR=W + '/target/python'))
    return log.returncode == 0 and log2.returncode == 0 and b.returncode == 0 and py.returncode == 0, log.stdout[-1500:] + log2.stdout[-800:] + b.stdout[-800:] + py.stdout[-800:]
def gen(s, repo):
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh('git', '-C', repo, 'checkout', '-q', '--', '.')
    for f, old, new in s['edits']:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit('%s: edit matches %d times in %s: %r' % (s['id'], t.count(old), f, old[:60]))
        open(p, 'w').write(t.replace(old, new))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git', '-C', repo, 'diff').stdout)
    sh('git', '-C', repo, 'checkout', '-q', '--', '.')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if s.get('sh'):
        open(os.path.join(d, 'demo.sh'), 'w').write(s['sh'])
    else:
        shutil.copy(os.path.join(HERE, 'demo/demo.sh'), d)
        open(os.path.join(d, 'Cargo.toml.in'), 'w').write(open(os.path.join(HERE, 'demo/Cargo.toml.in')).read().replace('@NAME@', 'demo-' + s['id'].lower()))
        open(os.path.join(d, 'main.rs'), 'w').write(open(os.path.join(HERE, 'demo/prelude.rs')).read() + s['main'].lstrip('\n'))
    if s.get('env'):
        open(os.path.join(d, 'env'), 'w').write(s['env'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    return d
def main():
    sel = [a for a in sys.argv[1:] if not a.startswith('-')]
    if not os.path.isdir(W):
        os.makedirs('/tmp/w', exist_ok=True)
        sh('cp', '-a', '/repo', W)
    else:
        sh('git', '-C', W, 'checkout', '-q', '--', '.')
        sh('git', '-C', W, 'pull', '-q', '/repo')
    bad = 0
    for s in S:
        if sel and not any(x in s['id'] for x in sel):
            continue
        d = gen(s, W)
        if '--gen' in sys.argv:
            continue
        a = sh('bash', os.path.join(d, 'demo.sh'), cwd=W)
        r = sh('git', '-C', W, 'apply', os.path.join(d, 'patch.diff'))
        ok, log = tests()
        b = sh('bash', os.path.join(d, 'demo.sh'), cwd=W)
        sh('git', '-C', W, 'checkout', '-q', '--', '.')
        good = a.returncode == 0 and r.returncode == 0 and ok and b.returncode not in (0, 8, 9)
        bad += not good
        print('%-4s %-30s demo clean=%d patched=%d apply=%d tests=%s' % ('ok' if good else 'FAIL', s['id'], a.returncode, b.returncode, r.returncode, ok))
        if not good:
            print(a.stdout[-1500:] if a.returncode else '', log if not ok else '', b.stdout[-1500:])
        elif os.environ.get('V'):
            print(b.stdout[-600:])
        sys.stdout.flush()
    print('%d problem(s)' % bad)
main()
