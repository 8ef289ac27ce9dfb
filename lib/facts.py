"""Extraction of the MIR facts of /repo's current working tree (driver build + cargo check under the driver)."""
import os, sys, subprocess, hashlib, fcntl, shutil, time, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TOOLCHAIN = '+nightly'
CRATES = ('logreduce_iterator,logreduce_tokenizer,logreduce_index,logreduce_model,zuul_build,logreduce_report,'
          'logreduce_cache,httpdir,logreduce_cli,logreduce,logreduce_generate,logreduce_binding')

class BuildError(Exception):
    pass

def sh(cmd, env=None, cwd=None, timeout=900):
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def must(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode != 0:
        raise BuildError('%s failed (exit %d):\n%s' % (what, r.returncode, r.stdout[-6000:]))
    return r.stdout

def repo_files():
    try:
        out = subprocess.run(['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-co', '--exclude-standard', '-z'],
                             stdout=subprocess.PIPE, check=True).stdout
        fs = [f for f in out.decode().split('\0') if f]
    except Exception:
        fs = []
    if not fs:
        for d, ds, ns in os.walk(REPO):
            ds[:] = [x for x in ds if x not in ('target', '.git')]
            fs.extend(os.path.relpath(os.path.join(d, n), REPO) for n in ns)
    return sorted(set(fs))

def tree_hash():
    h = hashlib.sha256()
    for f in repo_files():
        p = os.path.join(REPO, f)
        if not os.path.isfile(p):
            continue
        h.update(f.encode() + b'\0')
        with open(p, 'rb') as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    for d in ('driver/src', 'driver'):
        for n in sorted(os.listdir(os.path.join(VERIF, d))):
            p = os.path.join(VERIF, d, n)
            if os.path.isfile(p):
                h.update(open(p, 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()[:24]

def sysroot():
    return must(['rustc', TOOLCHAIN, '--print', 'sysroot'], 'rustc sysroot').strip()

def build_driver():
    must(['cargo', TOOLCHAIN, 'build', '--offline'], 'driver build', cwd=os.path.join(VERIF, 'driver'),
         env={'CARGO_TARGET_DIR': os.path.join(BUILD, 'drv')})
    return os.path.join(BUILD, 'drv', 'debug', 'mirfacts')


def forget(target):
    """Make cargo re-run the driver on every workspace crate (third-party crates stay cached)."""
    for sub in ('.fingerprint', 'build', 'incremental'):
        fp = os.path.join(target, 'debug', sub)
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith(('logreduce', 'zuul-build', 'zuul_build', 'httpdir', 'render')):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)

EXPECT = {'main': ['httpdir.lib', 'logreduce_cache.lib', 'logreduce_index.lib', 'logreduce_iterator.lib', 'logreduce_model.lib',
                   'logreduce_report.lib', 'logreduce_tokenizer.lib', 'zuul_build.lib', 'logreduce_cli.bin'],
          'python': ['logreduce_binding.lib']}

def driver_env(out):
    drv = build_driver()
    os.makedirs(out, exist_ok=True)
    return {'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib'), 'MIRFACTS_OUT': out, 'MIRFACTS_CRATES': CRATES,
            'RUSTFLAGS': '-Zallow-features=proc_macro_diagnostic,proc_macro_span', 'RUSTC_WORKSPACE_WRAPPER': drv}

def extract_main(out):
    env = driver_env(out)
    env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'target')
    forget(env['CARGO_TARGET_DIR'])
    must(['cargo', TOOLCHAIN, 'check', '--workspace', '--lib', '--bins', '--examples', '--offline'], 'cargo check of /repo', cwd=REPO, env=env)

def extract_python(out):
    # The python bindings are a workspace of their own without a committed lock file: check a copy of its
    # manifest whose paths point back into /repo.
    env = driver_env(out)
    py = os.path.join(BUILD, 'python')
    shutil.rmtree(py, ignore_errors=True)
    os.makedirs(py)
    man = open(os.path.join(REPO, 'python', 'Cargo.toml')).read()
    man = man.replace('"../', '"' + REPO + '/').replace("'../", "'" + REPO + '/')
    man = man.replace('path = "src/', 'path = "' + REPO + '/python/src/')
    open(os.path.join(py, 'Cargo.toml'), 'w').write(man)
    shutil.copy(os.path.join(VERIF, 'lib', 'python-Cargo.lock'), os.path.join(py, 'Cargo.lock'))
    env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'targetpy')
    env['MIRFACTS_CRATES'] = 'logreduce_binding'
    forget(env['CARGO_TARGET_DIR'])
    must(['cargo', TOOLCHAIN, 'check', '--offline'], 'cargo check of the python bindings', cwd=py, env=env)

def facts_dir(kind='main'):
    """Directory holding the facts of the current tree (extracted now unless this exact tree was extracted before)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        base = os.path.join(BUILD, 'facts-' + kind)
        d = os.path.join(base, h)
        if os.path.isfile(os.path.join(d, 'DONE')):
            return d, 0.0
        t = time.time()
        if os.path.isdir(base):
            # keep the most recent trees only
            old = sorted((n for n in os.listdir(base)), key=lambda n: os.path.getmtime(os.path.join(base, n)))
            for n in old[:-6]:
                shutil.rmtree(os.path.join(base, n), ignore_errors=True)
        tmp = d + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        (extract_main if kind == 'main' else extract_python)(tmp)
        for x in EXPECT[kind]:
            if not os.path.isfile(os.path.join(tmp, x + '.json')):
                raise BuildError('no facts were extracted for %s' % x)
        if tree_hash() != h:
            raise BuildError('the tree changed during the extraction')
        open(os.path.join(tmp, 'DONE'), 'w').write('')
        os.rename(tmp, d)
        return d, time.time() - t

if __name__ == '__main__':
    try:
        for k in ('main', 'python'):
            d, t = facts_dir(k)
            print('%s facts in %s (%.1f s)' % (k, d, t))
    except BuildError as e:
        print(e)
        sys.exit(2)
