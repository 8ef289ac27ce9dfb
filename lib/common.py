"""Shared helpers of the checks."""
import re, time
import engine as E
from engine import Engine, Client, mk, T, TRUE, FALSE, NONE, OPT, RES, some, ok, err, subterms, leaves, getproj, St
from mir import norm, callee_of, cname, cdecl

def where(prog, key, block=None):
    f = prog.fns.get(key)
    if f is None:
        return key
    sp = ''
    if block is not None:
        sp = f['blocks'][block]['t'].get('sp') or ''
    return '%s (%s)' % (prog.display(key), sp) if sp else prog.display(key)

def rx(*pats):
    r = re.compile('|'.join('(?:%s)' % p for p in pats))
    return lambda n: r.search(n) is not None

def param(key, i):
    """The initial value of parameter i (0-based) of a root function."""
    return mk('init', ('A', key.split('#')[0], i))

RUN_TIMEOUT = [240]

class Sim:
    """Run the engine and account for it in the evidence."""
    def __init__(self, ctx, prog):
        self.ctx = ctx
        self.p = prog
        self.fns = set()

    def run(self, key, client, interest=None, args=None, st=None, **kw):
        """args: {parameter index: value} assumed at entry."""
        kw.setdefault('timeout', RUN_TIMEOUT[0])
        e = Engine(self.p, client, interest=interest, **kw)
        if args is not None:
            args = [args.get(i, param(key, i)) for i in range(self.p.fns[key]['argc'])]
        out = e.run(key, args=args, st=st)
        self.account(e)
        return e, out

    def account(self, e):
        self.fns |= {k for k in e.fn_visited if not self.p.fns[k]['ext']}
        self.ctx.cov['functions_analysed'] = len(self.fns)
        self.ctx.count('abstract_steps', e.steps)
        self.ctx.count('calls_interpreted', e.calls_seen)
        self.ctx.count('fixpoint_widenings', e.widenings)

def callers(prog):
    g = prog.cg()
    if not hasattr(g, 'rev'):
        rev = {}
        for k, ss in g.succ.items():
            for x in ss:
                rev.setdefault(x, set()).add(k)
        g.rev = rev
    return g.rev

def escalate(prog, starts, run, limit=12):
    """run(key, clean) -> list of violations found when the analysis is rooted at key (its parameters unknown).
    A violation that persists is retried from every workspace caller; what is left at a root is real.
    Functions found clean are handed to the later runs, which need not look into them again.
    Returns [(path of keys, violation)]."""
    rev = callers(prog)
    g = prog.cg()
    starts = sorted(starts, key=lambda k: (len(g.closure([k])), k))
    clean = set()
    out = []
    memo = {}
    t0 = time.time()
    def go(key, path, below=None):
        if key in memo:
            vs = memo[key]
        else:
            old = RUN_TIMEOUT[0]
            try:
                if path:
                    # a caller that cannot be decided in reasonable time does not discharge the obligation
                    RUN_TIMEOUT[0] = 20
                    if time.time() - t0 > 60:
                        raise E.Budget('escalation')
                vs = memo[key] = run(key, clean)
            except E.Budget:
                if below is None:
                    raise
                for v in below:
                    out.append((path, v))
                return
            finally:
                RUN_TIMEOUT[0] = old
            if not vs:
                clean.add(key)
        if not vs:
            return
        ups = sorted(k for k in rev.get(key, ()) if not prog.fns[k]['ext'] and k not in path)
        f = prog.fns[key]
        # derived/promoted bodies are not entry points
        if not ups or len(path) > limit:
            for v in vs:
                out.append((path + [key], v))
            return
        # a public function may be called from outside with any argument only if it is an API root;
        # inside this workspace all its callers are known
        n = len(out)
        for u in sorted(ups, key=lambda k: (len(g.closure([k])), k)):
            go(u, path + [key], vs)
            if len(out) > n:
                return          # one undischarged chain is enough
    for s in starts:
        go(s, [])
    return out

def direct_callers(prog, pred, exclude=None):
    """Workspace functions with a direct call (or a function-item use) satisfying pred."""
    g = prog.cg()
    out = []
    for k in prog.ws_fns():
        if exclude and exclude(prog.fns[k]):
            continue
        if any(pred(n) for n in g.names.get(k, ())):
            out.append(k)
    return out

def env_name(e, st, c):
    v = e.content(st, c.args[0]) if c.args else None
    return v.a[0] if v is not None and v.k == 's' else None

def env_call(e, st, c, unset=(), set_=()):
    """Model of std::env::var / var_os under a hypothesis on some variables."""
    if c.name not in ('std::env::var', 'std::env::var_os'):
        return None
    n = env_name(e, st, c)
    os_ = c.name.endswith('_os')
    if n in unset:
        return [(st, NONE if os_ else err(mk('call', 'VarError', E.S(n))))]
    if n in set_:
        v = mk('call', 'envval', E.S(n))
        return [(st, some(v) if os_ else ok(v))]
    return None

class Quiet:
    """Run the rule of another property for the violations it finds; its counts are dropped."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.cov = {}
        self.found = []
    def prog(self, *a, **k):
        return self.ctx.prog(*a, **k)
    def rule(self, *a):
        pass
    sample = floor = rule
    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n
    def need(self, c, what):
        return self.ctx.need(c, what)
    def viol(self, k, m):
        self.found.append((k, m))
    def __getattr__(self, k):
        return getattr(self.ctx, k)
