"""With the cache on, a cached answer is used without asking the network, and a fetched answer is stored."""
from net import *
import models

VAR = 'LOGREDUCE_CACHE'
CACHE = rx(r'(^|::)Cache::(remote_get|remote_add|remote_drop|head|head_set|httpdir_get|httpdir_add|httpdir_drop)$')
LIST = rx(r'^httpdir::(list|Crawler::(list|walk))$')

class Cached(Net):
    """auto = tuple of events, in order."""
    def ev(self, st, *x):
        if x not in st.auto:
            st.auto = st.auto + (x,)
    def on_call(self, e, st, c):
        r = env_call(e, st, c, set_=(VAR,))
        if r is not None:
            return r
        n = c.name
        m = n.rsplit('::', 1)[-1]
        if CACHE(n):
            a = [e.snap(st, x) for x in c.args[1:]]
            if m in ('remote_get', 'head', 'httpdir_get'):
                s2 = st.copy()
                val = e.fresh(st, c.site, m)
                self.ev(st, 'hit', m, tuple(a), val)
                self.ev(s2, 'miss', m, tuple(a))
                return [(st, some(val)), (s2, NONE)]
            s2 = st.copy()
            self.ev(st, m, tuple(a))
            self.ev(s2, m, tuple(a), 'failed')
            v = mk('adt', 'cached', 0, a[2]) if m == 'remote_add' else a[2] if m == 'head_set' else E.UNIT
            return [(st, ok(v)), (s2, err(e.fresh(s2, c.site, 'cache')))]
        if LIST(n):
            url = e.snap(st, c.args[0 if n == 'httpdir::list' else 1])
            self.listed(e, st, c, url)
            s2 = st.copy()
            v = e.fresh(st, c.site, 'listing')
            self.ev(st, 'list', url, v)
            self.ev(s2, 'list-failed', url)
            return [(st, ok(v)), (s2, err(e.fresh(s2, c.site, 'io')))]
        return self.net_call(e, st, c)
    def listed(self, e, st, c, url):
        pass

def url_of(t):
    """Look through conversions of a URL into a request target."""
    while t.k == 'call' and t.a[0].rsplit('::', 1)[-1] in ('clone', 'as_str', 'into_url', 'to_string', 'fmt:display', 'to_owned') and len(t.a) >= 2:
        t = t.a[-1]
    return t

def run(ctx):
    ctx.rule('Rule: with %s set, every network request for a URL is preceded, on the same path, by a cache lookup for the same URL that found nothing; a successful answer is returned '
             'only after it was stored under the key that was looked up, and a cached answer is what the caller receives (event-order analysis rooted at the '
             'functions that send requests or list directories, escalated to callers).' % VAR)
    p = ctx.prog()
    sim = Sim(ctx, p)
    ev = lambda n: NET(n) or CACHE(n) or LIST(n)
    envs = p.cg().with_str(VAR)
    skip = lambda f: f['crate'] in ('httpdir', 'logreduce_cache')
    starts = direct_callers(p, rx(r'^reqwest::blocking::(RequestBuilder::send|Client::execute|get)$', r'^httpdir::(list|Crawler::(list|walk))$'), exclude=skip)
    ctx.cov['request_functions'] = len(starts)
    lookups = direct_callers(p, rx(r'Cache::(remote_get|head|httpdir_get)$'), exclude=skip)
    ctx.cov['lookup_functions'] = len(lookups)

    def analyse(key, clean):
        bad = {}
        class C(Cached):
            def sent(self, e, st, c, method, url):
                kind = 'head' if method is S('head') else 'remote_get'
                u = url_of(url)
                self.ev(st, 'sent', kind, u)
                ctx.count('requests')
                for x in st.auto:
                    if x[0] == 'hit' and x[1] == kind and url_of(x[2][-1]) is u:
                        bad[(c.fnkey, 'hit')] = '%s asks the network although the cache has the answer' % where(p, c.fnkey, c.block)
                if not any(x[0] == 'miss' and x[1] == kind and url_of(x[2][-1]) is u for x in st.auto):
                    bad[(c.fnkey, 'nolookup')] = '%s asks the network for %s without a cache lookup of it before' % (where(p, c.fnkey, c.block), u)
            def listed(self, e, st, c, url):
                ctx.count('requests')
                u = url_of(url)
                if not any(x[0] == 'miss' and x[1] == 'httpdir_get' and url_of(x[2][-1]) is u for x in st.auto):
                    bad[(c.fnkey, 'nolookup')] = '%s lists %s without a cache lookup of it before' % (where(p, c.fnkey, c.block), u)
        e, out = sim.run(key, C(), interest=ev, also=envs, cut=clean)
        for s, v in out:
            protocol(ctx, p, key, e, s, e.snap(s, v), bad)
        return list(bad.items())

    for path, (k, msg) in escalate(p, starts, analyse):
        ctx.viol('%s:%s' % (p.display(k[0]), k[1]), msg + '\n  reached from ' + ' <- '.join(p.display(x) for x in path))
    # the functions that do the lookups obey the protocol as a whole
    for key in lookups:
        bad = {}
        e, out = sim.run(key, Cached(), interest=ev, also=envs)
        for s, v in out:
            ctx.count('lookup_outcomes')
            protocol(ctx, p, key, e, s, e.snap(s, v), bad)
        for k, msg in bad.items():
            ctx.viol('%s:%s' % (p.display(k[0]), k[1]), msg)
    ctx.floor('request_functions', 3)
    ctx.floor('lookup_functions', 3)
    ctx.floor('lookup_outcomes', 9)

def protocol(ctx, p, key, e, s, v, bad):
    nm = p.display(key)
    success = v.k == 'adt' and v.a[0] == RES and v.a[1] == 0
    inner = set(subterms(v))
    # containers of the returned value (boxed iterators etc.) are compared by what they mention
    for x in s.auto:
        if x[0] in ('remote_add', 'head_set', 'httpdir_add'):
            look = {'remote_add': 'remote_get', 'head_set': 'head', 'httpdir_add': 'httpdir_get'}[x[0]]
            k = x[1][:-1]
            if not any(y[0] == 'miss' and y[1] == look and y[2] == k for y in s.auto):
                bad[(key, 'otherkey')] = '%s stores an answer under %s, which is not the key it looked up' % (nm, (k,))
            val = x[1][-1]
            if x[0] == 'httpdir_add' and not any(y[0] == 'list' and (y[2] is val or y[2] in subterms(val)) and url_of(y[1]) is url_of(k[0]) for y in s.auto):
                bad[(key, 'stored')] = '%s stores something else (%s) than the listing of %s' % (nm, val, k[0])
            if x[0] in ('remote_add', 'head_set'):
                urls = {url_of(r.a[2]) for r in subterms(val) if r.k == 'call' and r.a[0] == 'resp'}
                if x[0] == 'remote_add' and urls != {url_of(k[-1])} or x[0] == 'head_set' and urls - {url_of(k[-1])}:
                    bad[(key, 'stored')] = '%s stores %s as the content of %s' % (nm, val, k[-1])
                if x[0] == 'head_set' and not urls and val.k in ('b',):
                    heads = [t for t in s.facts if t.k == 'call' and t.a[0] == 'is_success']
                    if not any(s.facts[t] is val for t in heads):
                        bad[(key, 'stored')] = '%s stores the fixed answer %s for %s' % (nm, val, k[-1])
    sent_ok = {r for r in inner if r.k == 'call' and r.a[0] == 'resp'}
    if success and not (v.a[2].k in ('b',) or v.a[2].k == 'call' and v.a[2].a[0].startswith('is_')):
        for r in sent_ok:
            if not any(c.k == 'adt' and c.a[0] == 'cached' and r in subterms(c) for c in inner):
                bad[(key, 'unstored')] = '%s returns the fetched content of %s without storing it' % (nm, r.a[2])
    if success and sent_ok and v.a[2].k != 'adt':
        for r in sent_ok:
            if r.a[1] is S('head') and not any(x[0] == 'head_set' and r in set(subterms(x[1][-1])) for x in s.auto):
                bad[(key, 'unstored')] = '%s returns the answer of a probe of %s without storing it' % (nm, r.a[2])
    for x in s.auto:
        if x[0] == 'list':
            if not any(y[0] == 'httpdir_add' and (x[2] in subterms(y[1][-1])) for y in s.auto):
                bad[(key, 'unstored')] = '%s lists %s without storing the listing' % (nm, x[1])
        if x[0] == 'hit' and success and not (x[3] in inner or any(l is x[3] for l in leaves(v))):
            k = e.known(s, x[3])
            if not (k.k != x[3].k and k is v.a[2]):
                bad[(key, 'unused')] = '%s found a cached answer for %s but returns %s' % (nm, x[2][-1], v)
