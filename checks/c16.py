"""The search compares every line with everything that was indexed."""
from feat import *

def run(ctx):
    ctx.rule('Rule: ChunkIndex::add keeps a vector of every line it is given, puts every feature of every vector in its row of the matrix, and appends the matrix to the index. ChunkIndex::search builds the matrix of its lines in the '
             'same way, multiplies it with every chunk of the index, starts from 1.0 for every line and lets every entry of every product lower the distance of its own line to the minimum (obligation automata over MIR paths).')
    rs = roots(ctx)
    if rs is None:
        return
    for (k, cl, e, outs), what in zip(rs, ('add', 'search')):
        good = 0
        for st, v in outs:
            empty = e.known(st, E.simp_op('Eq', e.length(st, cl.P), E.I(0))) is TRUE
            good += 1
            if not empty and ('lend',) not in st.auto:
                cl.say('lines', 'returns before all the lines were turned into features', st)
            if cl.cur(st, 'line') is not None:
                cl.line_end(e, st)
            if what == 'add':
                if ('stored',) not in st.auto and not empty:
                    cl.say('stored', 'returns without adding the features of the lines to the index', st)
                continue
            r = e.snap(st, v)
            cl.base_end(e, st)
            if ('bend',) not in st.auto and not empty:
                cl.say('chunks', 'returns before all the chunks of the index were searched', st)
            if r.k == 'call' and r.a[0] == 'filled':
                if float(r.a[1].a[0]) != 1.0:
                    cl.say('initial', 'the distance of a line that has nothing in common with the index is %s instead of 1.0' % r.a[1], st)
                n = r.a[2]
                if not (n.k == 'call' and n.a[0] == 'cols' and n.a[1].k == 'call' and n.a[1].a[0] == 'transposed' or n.k == 'call' and n.a[0] == 'rows' and n.a[1].k == 'call' and n.a[1].a[0] == 'csr' or cl.P in leaves(n)):
                    cl.say('size', 'the number of distances is %s, not the number of lines' % n, st)
            elif not empty:
                cl.say('result', 'returns %s instead of the distances' % r, st)
        ctx.count('return_paths', good)
        ctx.need(good, 'a path of ChunkIndex::%s' % what)
        for x, m in cl.bad.items():
            ctx.viol('%s:%s' % (what, x), m)
    ctx.floor('lines_judged', 2)
    ctx.floor('vectors_judged', 2)
    ctx.floor('chunks_judged', 1)
    ctx.floor('entries_judged', 1)
    ctx.floor('updates', 1)
