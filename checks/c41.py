"""The live output shows every anomaly with its context."""
from c37 import *
from cli import EVENT, GETS, GETI, PROC

PRINT = rx(r'^std::io::(stdio::)?_print$')
OUT = rx(r'^std::io::(Write|BufWriter|Stdout|StdoutLock)::(write_fmt|write_all|write)$')

class Live(Shown):
    """auto: as in Shown, ('an', a) being the anomaly the processor delivered last."""
    templates = True
    def __init__(self, ctx, prog, root):
        super().__init__(ctx, prog, root)
        self.proc = mk('call', 'proc', E.I(0))
    def on_call(self, e, st, c):
        n, last = c.name, c.name.rsplit('::', 1)[-1]
        if GETS(n):
            s2 = st.copy()
            return [(st, ok(e.fresh(st, c.site, 'sources'))), (s2, err(e.fresh(s2, c.site, 'x')))]
        if GETI(n):
            s2 = st.copy()
            return [(st, some(e.fresh(st, c.site, 'index'))), (s2, NONE)]
        if PROC(n):
            s2 = st.copy()
            self.end_an(st)
            self.end_an(s2)
            if last == 'inspect':
                return [(st, self.proc)]
            return [(st, ok(self.proc)), (s2, err(e.fresh(s2, c.site, 'x')))]
        if last in ('rev', 'reverse') and c.args:
            src = e.snap(st, self.base(e, st, c.args[0]))
            an = next((x[1] for x in st.auto if x[0] == 'an'), None)
            if an is not None and any(src is self.fld(an, self.AC, f) for f in ('before', 'after')):
                self.say1('reversed', 'the context of an anomaly is shown in reverse order')
        if last == 'by_ref' and c.args and e.content(st, c.args[0]) is self.proc:
            return [(st, c.args[0])]
        if last == 'next' and c.args and e.content(st, c.args[0]) is self.proc:
            self.end_an(st)
            s2, s3 = st.copy(), st.copy()
            self.ctx.count('anomaly_visits')
            x = e.fresh(st, c.site, 'anomaly')
            st.auto = st.auto | {('an', x)}
            return [(st, some(ok(x))), (s2, some(err(e.fresh(s2, c.site, 'x')))), (s3, NONE)]
        if PRINT(n) or OUT(n):
            self.ctx.count('prints')
            self.show(e, st, e.snap(st, c.args[-1]))
            return [(st, E.UNIT if PRINT(n) else ok(E.UNIT))]
        return None
    def on_ret(self, e, st, c, val):
        return None
    def on_next(self, e, st, itv, val, site):
        src = e.snap(st, self.base(e, st, itv))
        if src is self.proc:
            self.end_an(st)
            if val is not NONE:
                self.ctx.count('anomaly_visits')
                r = val.a[2]
                s = getproj(e.content(st, r), ('f', 0, 0))
                st.auto = st.auto | {('an', s)}
            return
        super().on_next(e, st, itv, val, site)

def run(ctx):
    ctx.rule('Rule: in the code of the command line which prints the anomalies a processor delivers, every delivered anomaly is followed, before the next is taken and before the function returns, by prints of each of the lines '
             'before it, of its line with its position, and of each of the lines after it, in that order (obligation automaton over the MIR); the number printed with the first line of a context is, as a sum of symbols, '
             'the position minus the number of lines before, or the position plus one, and it grows with each further line.')
    p = ctx.prog()
    sim = Sim(ctx, p)
    g = p.cg()
    cli = [k for k in p.ws_fns() if p.fns[k]['crate'] == 'logreduce_cli']
    procs = g.reaching(PROC)
    prints = g.reaching(PRINT)
    roots = [k for k in cli if p.fns[k]['kind'] != 'closure' and k in procs and k in prints and 'dataset' not in p.fns[k]['npath']]
    roots.sort(key=lambda k: (len(g.closure([k])), k))
    if not ctx.need(roots, 'a function of the command line which prints the anomalies of a source'):
        return
    tried = None
    for k in roots:
        cl = Live(ctx, p, k)
        ctx.cov.pop('anomaly_visits', None)
        e, out = sim.run(k, cl, interest=lambda n: EVENT(n) or PRINT(n) or OUT(n), also=cli)
        for s, v in out:
            ctx.count('return_paths')
            cl.end_an(s)
        if ctx.cov.get('anomaly_visits'):
            break
    for kk, m in cl.bad.items():
        ctx.viol(kk, m)
    for x in ('anomaly_visits', 'anomaly_lines_shown', 'context_lines_shown', 'return_paths'):
        ctx.floor(x, 1)
