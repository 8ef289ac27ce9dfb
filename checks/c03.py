"""Cache entries are keyed by the complete identity of what they answer."""
from cachefs import *

def run(ctx):
    ctx.rule('Rule: the cache path computed by every public operation of the cache is normalised to a template over full SHA-256 digests of complete '
             'argument URLs (value-flow over MIR, all paths); get/add/drop of one family must use one and the same template, which covers all of the identifying '
             'arguments in the same roles; templates of different families and of in-progress files must be disjoint; HEAD answers read back the recorded boolean.')
    p = ctx.prog()
    sim = Sim(ctx, p)
    fam = {'content': ('remote_get', 'remote_add', 'remote_drop'), 'listing': ('httpdir_get', 'httpdir_add', 'httpdir_drop')}
    found = set()
    temps = {}

    def go(m, args=None):
        k = p.one('logreduce_cache::Cache::' + m)
        if not ctx.need(k, 'Cache::' + m):
            return None
        e, out = sim.run(k, CacheFs(), interest=FS, args=args)
        keys = {x[1] for s, _ in out for x in s.auto if x[0] == 'key'}
        if not ctx.need(keys, 'a cache path computed by Cache::' + m):
            return None
        r = {}
        for x in keys:
            t = template(x)
            r[x] = t
            ctx.count('key_derivations')
            ctx.sample('%s: %s' % (m, show_tpl(t)))
            for y in t:
                if not isinstance(y, str) and y[0] == '?':
                    ctx.viol('key:%s' % m, 'the cache key used by Cache::%s is %s: it contains a part that is not the full digest of a complete argument URL' % (m, show_tpl(t)))
        return k, out, r

    for f, ms in fam.items():
        tpls = {}
        for m in ms:
            g = go(m)
            if g is None:
                continue
            k, out, r = g
            entries = {t for t in r.values() if ('pid',) not in t}
            for t in r.values():
                if ('pid',) in t:
                    temps[t] = m
            tpls[m] = entries
            nargs = p.fns[k]['argc']
            want = {1, 2} if f == 'content' else {1}
            for t in entries:
                got = {y[1] for y in t if not isinstance(y, str) and y[0] == 'H'}
                if not want <= got:
                    ctx.viol('coverage:%s' % m, 'Cache::%s uses the key %s which does not depend on argument(s) %s' % (m, show_tpl(t), sorted(want - got)))
            # operations must act on the entry itself
            ops = {'remote_get': 'open', 'httpdir_get': 'open', 'remote_drop': 'remove', 'httpdir_drop': 'remove'}.get(m)
            if ops:
                acted = {r.get(x[1]) for s, _ in out for x in s.auto if x[0] == ops}
                if acted != entries:
                    ctx.viol('target:%s' % m, 'Cache::%s does not %s the entry it looks up (%s vs %s)' % (m, ops, sorted(map(repr, acted)), sorted(map(repr, entries))))
        if len(tpls) == len(ms):
            alls = set().union(*tpls.values())
            if len(alls) != 1:
                ctx.viol('agree:%s' % f, 'the %s operations disagree on the key: %s' % (f, {m: sorted(map(show_tpl, t)) for m, t in tpls.items()}))
            for t in alls:
                found.add((t, f))
    # HEAD answers
    hs = {}
    for b in (TRUE, FALSE):
        g = go('head_set', {3: b})
        if g is None:
            continue
        k, out, r = g
        for s, v in out:
            wrote = {r.get(x[1]) for x in s.auto if x[0] == 'create'} | {r.get(x[2]) for x in s.auto if x[0] == 'rename'}
            wrote = {t for t in wrote if t and ('pid',) not in t}
            hs.setdefault(b, set()).update(wrote)
            if v.k == 'adt' and v.a[1] == 0:
                if not wrote:
                    ctx.viol('head_set:nothing', 'Cache::head_set can succeed without recording the answer')
                if v.a[2] is not b:
                    ctx.viol('head_set:result', 'Cache::head_set returns %s when the answer is %s' % (v, b))
    if hs:
        if set(hs) != {TRUE, FALSE} or hs.get(TRUE) and hs.get(FALSE) and hs[TRUE] & hs[FALSE]:
            ctx.viol('head_set:same', 'Cache::head_set does not record true and false under distinct keys: %s' % {repr(b): sorted(map(repr, x)) for b, x in hs.items()})
        for b, x in hs.items():
            for t in x:
                if t:
                    found.add((t, 'head-%s' % b.a[0]))
                    got = {y[1] for y in t if not isinstance(y, str) and y[0] == 'H'}
                    if not {1, 2} <= got:
                        ctx.viol('coverage:head_set', 'Cache::head_set uses the key %s which does not depend on all of its arguments' % show_tpl(t))
    g = go('head')
    if g and set(hs) == {TRUE, FALSE}:
        k, out, r = g
        e = Engine(p, Client())
        for s, v in out:
            ex = {r[x[1]]: x[2] for x in s.auto if x[0] == 'exists'}
            v = e.snap(s, v)
            def present(b):
                return any(ex.get(t) for t in hs[b])
            def absent(b):
                return all(ex.get(t) is False for t in hs[b])
            if v is NONE:
                good = absent(TRUE) and absent(FALSE)
            elif v is some(TRUE):
                good = present(TRUE)
            elif v is some(FALSE):
                good = present(FALSE)
            else:
                good = False
            ctx.count('head_outcomes')
            if not good:
                ctx.viol('head:%s' % v, 'Cache::head can answer %s when the recorded entries are %s' % (v, {show_tpl(t): b for t, b in ex.items()}))
    alls = sorted(list(found) + [(t, 'in-progress ' + m) for t, m in temps.items()], key=repr)
    for i, (t, f) in enumerate(alls):
        for t2, f2 in alls[i + 1:]:
            ctx.count('template_pairs')
            if t != t2 and not disjoint(t, t2):
                ctx.viol('overlap:%s:%s' % (f, f2), 'the %s key %s and the %s key %s can collide' % (f, show_tpl(t), f2, show_tpl(t2)))
            if t == t2:
                ctx.viol('overlap:%s:%s' % (f, f2), 'the %s and %s entries share the key %s' % (f, f2, show_tpl(t)))
    ctx.floor('key_derivations', 8)
    ctx.floor('head_outcomes', 3)
    ctx.floor('template_pairs', 6)
