"""An API answer that cannot be decoded is evicted from the cache and reported as an error."""
from zuulapi import *

def run(ctx):
    ctx.rule('Rule: on every path of Content::from_zuul_url and Build::discover_baselines on which an answer fetched with reader::from_url(base, url) fails to decode, reader::drop_url is '
             'called with the same base and url and the function returns an error; a fetch that fails makes it return an error as well (event automaton over MIR paths).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    for name in ('from_zuul_url', 'zuul::Build::discover_baselines'):
        k = p.find(name)
        k = [x for x in k if p.fns[x]['kind'] != 'closure'] if k else k
        if not ctx.need(k and len(k) == 1, 'function ' + name):
            continue
        key = k[0]
        class C(Zuul):
            pass
        e, outs = sim.run(key, C(), interest=EVENTS, also=zuul_fns(p))
        und = 0
        ctx.count('paths', len(outs))
        fetched = 0
        for st, v in outs:
            r = e.content(st, v)
            if E.is_some(r):
                r = e.content(st, r.a[2])
            bad = [x for x in st.auto if x[0] == 'undecodable']
            fetched += any(x[0] == 'decoded' for x in st.auto)
            if 'failed' in {x[0] for x in st.auto} and not E.is_err(r):
                ctx.viol('fetch:' + name, '%s returns %s although fetching the answer failed\n%s' % (p.display(key), r, st.trail()))
            for _, b, u in bad:
                und += 1
                if ('dropped', b, u) not in st.auto:
                    ctx.viol('kept:' + name, '%s leaves the undecodable answer of %s in the cache (no reader::drop_url(%s, %s) on this path): it would be served again\n%s' % (p.display(key), u, b, u, st.trail()))
                if not E.is_err(r):
                    ctx.viol('ignored:' + name, '%s returns %s although the answer could not be decoded\n%s' % (p.display(key), r, st.trail()))
        ctx.count('undecodable_paths', und)
        ctx.need(und and fetched, 'fetched and decoded answer in ' + name)
        ctx.sample('%s: %d paths, %d with an undecodable answer' % (p.display(key), len(outs), und))
