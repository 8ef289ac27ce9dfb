"""Training and inspection turn a line into features in the same way, from its text alone."""
from feat import *

IMPURE = rx(r'^std::(env|time|fs|net|process|io|os|thread)::', r'RandomState', r'^(rand|getrandom|chrono|reqwest|tracing_core|fastrand|uuid)::', r'::(Mutex|RwLock|RefCell|Cell|OnceCell|Atomic\w+)::(set|replace|borrow_mut|lock|write|store|swap|fetch_\w+|take|get_or_init|get_mut)$')

def run(ctx):
    ctx.rule('Rule 1: the operations applied to a line (splitting, hashing, value and dimension of each feature) when it is added by ChunkIndex::add are the same, with the same constants, as when it is searched by ChunkIndex::search (comparison of the two canonical '
             'sets of operations found by abstract interpretation). Rule 2: no function reachable from ChunkIndex::tokenize, add or search reads the environment, the clock, files, random sources or mutable global state (effect analysis over the call graph). '
             'Rule 3: the tokens are a function of the text and of the kind of index only. Rule 4: training and inspection both tokenize the decoded text of the whole line that was read.')
    p = ctx.prog()
    rs = roots(ctx)
    if rs is None:
        return
    (ka, a, _, _), (ks, s, _, _) = rs
    A, S = set(a.events), set(s.events)
    ctx.cov['operations_add'], ctx.cov['operations_search'] = len(A), len(S)
    for x in sorted(A & S, key=str):
        ctx.sample('both: %s' % (x,))
    for x in sorted(A - S, key=str):
        ctx.viol('add:' + x[0], '%s: lines are indexed with %s, but not searched with it' % (a.events[x], x))
    for x in sorted(S - A, key=str):
        ctx.viol('search:' + x[0], '%s: lines are searched with %s, but not indexed with it' % (s.events[x], x))
    kinds = {x[0] for x in A & S}
    for w in ('vector', 'matrix', 'value'):
        ctx.need(w in kinds, 'operation on features: ' + w)
    ctx.need(any(x[0].startswith('fxhash') or 'hash' in x[0] for x in A & S), 'hashing of words')
    # effects
    kt = [k for k in p.find('ChunkIndex::tokenize') if p.fns[k]['kind'] != 'closure']
    if not ctx.need(len(kt) == 1, 'ChunkIndex::tokenize'):
        return
    g = p.cg()
    reach = g.closure([ka, ks, kt[0]])
    n = 0
    for k in sorted(reach):
        f = p.fns.get(k)
        if f is None or f['ext']:
            continue
        n += 1
        for x in sorted(g.names.get(k, ())):
            if IMPURE(x):
                ctx.viol('effect:%s:%s' % (p.display(k), x), '%s calls %s: the tokens or features of a line depend on more than its text' % (p.display(k), x))
        for b in f['blocks']:
            for x in b['s']:
                if 'static mut' in str(x.get('r', '')):
                    ctx.viol('static:' + p.display(k), '%s uses a mutable static' % p.display(k))
    ctx.cov['functions_without_effect'] = n
    ctx.floor('functions_without_effect', 10)
    # tokens
    class Tk(Client):
        def on_branch(self, e, st, term, val):
            t = e.snap(st, term)
            if t.k == 'discr' and strip(t.a[0]) in (me, mk('deref', me)):
                return
            if me in leaves(t):
                ctx.viol('tokens-branch', 'ChunkIndex::tokenize decides on %s: the tokens depend on the content of the index' % t)
            elif param(kt[0], 1) in leaves(t):
                st.auto = True        # a constant may stand for a line that was recognised
        def init(self):
            return False
        def on_call(self, e, st, c):
            if c.name.startswith('logreduce_tokenizer::'):
                # a function of its arguments alone, as the effect analysis above shows
                return [(st, mk('call', c.name, *[e.snap(st, a) for a in c.args]))]
            return None
    me = param(kt[0], 0)
    e, outs = Sim(ctx, p).run(kt[0], Tk(), interest=lambda n: False)
    own = 0
    for st, v in outs:
        t = e.snap(st, v)
        ctx.count('tokenize_paths')
        if param(kt[0], 1) in leaves(t):
            own += 1
        elif not st.auto:
            ctx.viol('tokens', 'ChunkIndex::tokenize returns %s, which does not come from the line' % t)
        if param(kt[0], 0) in leaves(t):
            ctx.viol('tokens-self', 'ChunkIndex::tokenize returns %s: the tokens depend on the content of the index' % t)
    if outs and not own:
        ctx.viol('tokens', 'ChunkIndex::tokenize returns only constants')
    ctx.floor('tokenize_paths', 1)
    # what is tokenized
    import importlib
    for m in ('c12', 'c13'):
        q = Quiet(ctx)
        importlib.import_module(m).run(q)
        n = q.cov.get('lines_judged', 0)
        ctx.cov['lines_tokenized_' + m] = n
        if ctx.need(n, 'lines judged by %s' % m):
            for k, msg in q.found:
                if 'tokenize' in k:
                    ctx.viol(k, msg)
