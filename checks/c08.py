"""Every source of the target is accounted for, in the report and on the terminal."""
from account import *

def run(ctx):
    ctx.rule('Rule: along every path of Model::report and of the terminal inspection, each source yielded by the listing of the target is, before the next one is taken, either inspected until its '
             'processor is exhausted (every anomaly yielded being kept and handed to the report / printed), or recorded with its error as unreadable, or recorded as having no index after a failed '
             'index lookup; the result is built only after the listing is exhausted (obligation automaton over the MIR, loops by fixpoint).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    k = p.one('Model::report')
    if ctx.need(k, 'Model::report'):
        cl = ReportAcct(ctx, p, k)
        e, out = sim.run(k, cl, interest=EVENTS, also=helpers(p))
        for s, v in out:
            cl.at_return(e, s, e.snap(s, v))
        for kk, m in cl.bad.items():
            ctx.viol('report:' + kk, m)
        ctx.floor('return_paths', 2)
        ctx.floor('source_outcomes', 4)
    # the terminal: functions that create processors' input and print, outside Model::report
    roots = live_roots(p)
    if ctx.need(roots, 'terminal inspection'):
        for k in roots:
            cl = LiveAcct(ctx, p, k)
            e, out = sim.run(k, cl, interest=EVENTS, also=helpers(p))
            for s, v in out:
                cl.at_return(e, s, e.snap(s, v))
            for kk, m in cl.bad.items():
                ctx.viol('live:' + kk, m)
            ctx.sample('terminal inspection: ' + p.display(k))

def live_roots(p):
    """Functions of the command line that list sources and inspect them themselves."""
    g = p.cg()
    out = []
    for k in p.ws_fns():
        f = p.fns[k]
        if f['crate'] != 'logreduce_cli' or f['kind'] == 'closure':
            continue
        if any(LIST(n) for n in g.names.get(k, ())):
            sub = g.closure([k])
            if any(any(PROC(n) for n in g.names.get(q, ())) for q in sub) and not any(p.fns[q]['npath'].endswith('Model::report') for q in sub):
                out.append(k)
    return out
