"""The content cache and the raw debug report are opt-in (LOGREDUCE_CACHE)."""
from common import *

VAR = 'LOGREDUCE_CACHE'
CACHE = rx(r'^logreduce_cache::Cache::(remote_get|remote_add|remote_drop|head|head_set)$')
RAW = rx(r'^logreduce_model::Report::save$')

def run(ctx):
    ctx.rule('Rule: with %s unset, no path from an entry point reaches a call that stores to, serves from or evicts from the content cache, '
             'nor the call that writes the raw debug report (conditional reachability with branch facts, rooted at each function that contains such '
             'a call and escalated through its callers up to the roots).' % VAR)
    p = ctx.prog()
    sim = Sim(ctx, p)
    ev = lambda n: CACHE(n) or RAW(n)
    starts = direct_callers(p, ev, exclude=lambda f: f['crate'] == 'logreduce_cache')
    sites = [s for s in p.cg().callers_of(ev) if p.fns[s[0]]['crate'] != 'logreduce_cache']
    ctx.cov['cache_and_report_sites'] = len(sites)

    envs = p.cg().with_str(VAR)
    # positive control: with the variable set every site is reachable
    def analyse_with(key, unset, set_, clean=()):
        bad = {}
        class C(Client):
            def on_call(self, e, st, c):
                r = env_call(e, st, c, unset=unset, set_=set_)
                if r is not None:
                    return r
                if ev(c.name):
                    bad[(c.fnkey, c.name)] = '%s calls %s although %s is unset' % (where(p, c.fnkey, c.block), c.name, VAR)
                    return None
                return None
        sim.run(key, C(), interest=ev, also=envs, cut=clean)
        return list(bad.items())

    for path, (k, msg) in escalate(p, starts, lambda key, clean: analyse_with(key, (VAR,), (), clean)):
        ctx.viol('cache:%s:%s' % (p.display(k[0]), k[1]), msg + '\n  reached from ' + ' <- '.join(p.display(x) for x in path))
    ctx.cov['entry_functions'] = len(starts)
    for s in starts:
        others = {x for x in starts if x != s}
        for (k, msg) in analyse_with(s, (), (VAR,), others):
            ctx.count('sites_reachable_when_set')
            ctx.sample('%s: %s only when %s is set' % (p.display(k[0]), k[1], VAR))
    for key, b, t, fn in p.cg().callers_of(rx(r'^std::env::set_var$')):
        ctx.viol('set_var:%s' % p.display(key), '%s modifies the environment: the opt-in of the user can be forged' % where(p, key, b))
    ctx.floor('cache_and_report_sites', 6)
    ctx.floor('sites_reachable_when_set', 6)
