#!/usr/bin/env python3
"""Run one check:  check.py <ID> [--tier quick|thorough]

Extracts the MIR of /repo's current working tree, runs checks/<id>.py on it, writes evidence/<ID>.json and
evidence/<ID>.report.txt, and exits 0 (held), 1 (VIOLATION line printed) or 2 (the tree does not build)."""
import sys, os, time, json, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
import facts

class Ctx:
    def __init__(self, pid, tier):
        self.id = pid
        self.tier = tier
        self.viols = {}      # key -> message
        self.cov = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self._prog = {}
        self.xt = 0.0

    def prog(self, kind='main'):
        if kind not in self._prog:
            import mir
            d, t = facts.facts_dir(kind)
            self.xt += t
            self._prog[kind] = mir.Prog(d)
        return self._prog[kind]

    def viol(self, key, msg):
        """key: line-free identity of the violation; msg: diagnosis."""
        self.viols.setdefault(key, msg)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def rule(self, text):
        self.rules.append(text)

    def sample(self, text):
        if len(self.samples) < 12 and text not in self.samples:
            self.samples.append(text)

    def need(self, cond, what):
        """A missing anchor fails the check (a rule that matches nothing proves nothing)."""
        if not cond:
            self.viol('anchor:' + what, 'analysis anchor not found: %s — the construct the property rests on is gone or is no longer recognised' % what)
        return bool(cond)

    def floor(self, name, n):
        if self.cov.get(name, 0) < n:
            self.viol('floor:' + name, 'only %d %s analysed, expected at least %d' % (self.cov.get(name, 0), name, n))

def known_findings():
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=<id> key=<key> :: <what fails>
                head, _, what = l[9:].partition(' :: ')
                pid, _, key = head.partition(' key=')
                out.setdefault(pid.replace('property=', ''), {})[key] = what
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    ctx = Ctx(pid, tier)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, pid + '.report.txt')
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(ctx)
    except facts.BuildError as e:
        print('ERROR: %s' % e)
        sys.exit(2)
    except Exception as e:
        import engine
        if not isinstance(e, engine.Budget):
            traceback.print_exc()
        ctx.viol('analysis-incomplete', 'the analysis could not be completed, so the property is not established: %s: %s' % (type(e).__name__, e))
    kf = known_findings().get(pid, {})
    new = {k: m for k, m in ctx.viols.items() if k not in kf}
    old = {k: m for k, m in ctx.viols.items() if k in kf}
    lines = ['property %s (%s tier): %s' % (pid, tier, 'VIOLATED' if new else 'held on everything analysed'), '']
    lines += ['rule: ' + r for r in ctx.rules]
    lines += ['']
    lines += ['analysed: %s = %s' % (k, v) for k, v in sorted(ctx.cov.items())]
    for k, m in new.items():
        lines += ['', 'VIOLATION [%s]' % k, '  ' + m.replace('\n', '\n  ')]
    for k, m in old.items():
        lines += ['', 'KNOWN FINDING [%s] %s' % (k, kf[k]), '  ' + m.replace('\n', '\n  ')]
    lines += ['', 'samples:'] + ['  ' + s for s in ctx.samples]
    with open(rep, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    cov = dict(ctx.cov)
    cov['explanation'] = ' '.join(ctx.rules) or 'static analysis over MIR'
    cov['samples'] = ctx.samples
    cov['extraction_s'] = round(ctx.xt, 2)
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
               'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)},
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1, sort_keys=True)
    for k in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
    print('%s: %s' % (pid, ', '.join('%s=%s' % kv for kv in sorted(ctx.cov.items()))))
    if new:
        for k, m in new.items():
            print('  [%s] %s' % (k, m.split('\n')[0]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        sys.exit(1)
    sys.exit(0)

main()
