"""A dataset is accepted only if exactly its expected anomalies are found."""
from cli import *
import engine as E
from engine import mk

TRAIN = rx(r'(^|::)Model::train$')
YAML = rx(r'^serde_yaml::(de::)?from_(reader|str|slice)$')

class Tests(Client):
    """auto: ('path', x): the dataset in hand; ('inf', x): its expectations were decoded; ('found',): its target was inspected; ('eq',): the counts were found equal;
    ('exp', x): an expectation, not yet found in an anomaly; ('walked',): the expectations or the anomalies are exhausted; ('done',): so are the datasets;
    ('bad',): the processor delivered an error; ('zero',): no anomaly was found."""
    templates = True
    def __init__(self, ctx, prog, root):
        self.ctx, self.p, self.root, self.bad = ctx, prog, root, {}
        self.proc = mk('call', 'proc', E.I(0))
        self.paths = param(root, 0)
    def init(self):
        return frozenset()
    def say(self, key, msg):
        self.bad.setdefault(key, '%s: %s' % (self.p.display(self.root), msg))
    def inf(self, st):
        return next((x[1] for x in st.auto if x[0] == 'inf'), None)
    def on_call(self, e, st, c):
        n = c.name
        if TRAIN(n):
            s2 = st.copy()
            self.ctx.count('trainings')
            return [(st, ok(e.fresh(st, c.site, 'model'))), (s2, err(e.fresh(s2, c.site, 'x')))]
        if GETI(n):
            return [(st, some(e.fresh(st, c.site, 'index')))]
        if PROC(n):
            self.ctx.count('inspections')
            st.auto = st.auto | {('found',)}
            v = self.proc
            if n.rsplit('::', 1)[-1] == 'inspect':
                return [(st, v)]
            s2 = st.copy()
            return [(st, ok(v)), (s2, err(e.fresh(s2, c.site, 'x')))]
        if n.rsplit('::', 1)[-1] == 'len' and ('found',) in st.auto and c.args and e.content(st, c.args[0]).k == 'empty':
            st.auto = st.auto | {('zero',)}
        if YAML(n):
            s2 = st.copy()
            x = e.fresh(st, c.site, 'inf')
            st.auto = frozenset(y for y in st.auto if y[0] != 'inf') | {('inf', x)}
            return [(st, ok(x)), (s2, err(e.fresh(s2, c.site, 'x')))]
        return None
    def next_items(self, e, st, loc, v, site):
        if v is not self.proc:
            return None
        s2, s3 = st.copy(), st.copy()
        s2.auto = s2.auto | {('bad',)}
        return [(st, some(ok(e.fresh(st, site, 'anomaly')))), (s2, some(err(e.fresh(s2, site, 'x')))), (s3, E.NONE)]
    def on_next(self, e, st, itv, val, site):
        src = e.snap(st, itv)
        while src.k == 'adt' and src.a[0].startswith('it:') and len(src.a) > 2:
            src = e.snap(st, e.content(st, src.a[2]))
        item = None if val is E.NONE else e.snap(st, e.content(st, val.a[2]))
        if src is self.paths or src is mk('deref', self.paths):
            self.end(st)
            if item is None:
                st.auto = st.auto | {('done',)}
            else:
                self.ctx.count('dataset_visits')
                st.auto = st.auto | {('path', item)}
            return
        inf = self.inf(st)
        if inf is not None and inf in subterms(src):
            self.end_exp(st)
            if item is None:
                st.auto = st.auto | {('walked',)}
            else:
                self.ctx.count('expectation_visits')
                st.auto = st.auto | {('exp', item)}
        elif item is None and any(x[0] == 'exp' for x in st.auto):
            # nothing is left to be compared with that one: it is a matter of the counts
            st.auto = frozenset(x for x in st.auto if x[0] != 'exp') | {('walked',)}
        elif item is None and ('found',) in st.auto and src.k in ('coll', 'empty'):
            st.auto = st.auto | {('walked',)}
    def on_branch(self, e, st, t, val):
        inf = self.inf(st)
        if inf is None:
            return
        if t.k == 'op' and t.a[0] in ('Eq', 'Ne') and len(t.a) == 3:
            sides = [str(x).startswith('len(') and inf in subterms(x) for x in t.a[1:]]
            other = t.a[1:][sides.index(False)] if False in sides else None
            if sides.count(True) == 1 and (other.k != 'i' or other is E.I(0) and ('zero',) in st.auto) and inf not in subterms(other) and (val is E.TRUE) == (t.a[0] == 'Eq'):
                self.ctx.count('counts_compared')
                st.auto = st.auto | {('eq',)}
        if t.k == 'call' and t.a[0].rsplit('::', 1)[-1] == 'contains' and val is E.TRUE and len(t.a) == 3:
            for x in list(st.auto):
                if x[0] == 'exp' and x[1] in subterms(t.a[2]) and x[1] not in subterms(t.a[1]):
                    self.ctx.count('lines_compared')
                    st.auto = st.auto - {x}
    def end_exp(self, st):
        if any(x[0] == 'exp' for x in st.auto):
            self.say('pair', 'an expected line is passed over which was not found in the line of its anomaly')
        st.auto = frozenset(x for x in st.auto if x[0] != 'exp')
    def end(self, st):
        if any(x[0] == 'path' for x in st.auto):
            self.end_exp(st)
            if ('bad',) in st.auto:
                self.say('bad', 'a dataset is accepted although an anomaly of its target could not be read')
            for k, what in (('inf', 'its expectations were not read'), ('found', 'its target was not inspected'), ('walked', 'its expected lines were not all compared with the anomalies'),
                            ('eq', 'the number of anomalies was not found to be the expected one')):
                if not any(x[0] == k for x in st.auto):
                    self.say(k, 'a dataset is accepted although %s' % what)
        st.auto = frozenset()

def run(ctx):
    ctx.rule('Rule: on every path of test_datasets which goes on to the next dataset or succeeds, the expectations of the dataset in hand were decoded, its target inspected without an error, the number of expectations found equal to another count, '
             'and each expectation taken was found (contains) in another text, until the expectations or the anomalies were exhausted; success is only returned after all the datasets (obligation automaton over the MIR).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    k = p.one('test_datasets')
    if not ctx.need(k, 'test_datasets'):
        return
    cl = Tests(ctx, p, k)
    cli = [q for q in p.ws_fns() if p.fns[q]['crate'] == 'logreduce_cli']
    e, out = sim.run(k, cl, interest=lambda n: YAML(n) or EVENT(n) or TRAIN(n), also=[q for q in cli if 'dataset' in p.fns[q]['npath']])
    for s, v in out:
        ctx.count('return_paths')
        v = e.snap(s, v)
        if v.k == 'adt' and v.a[0] == E.RES and v.a[1] == 0 and ('done',) not in s.auto:
            cl.say('done', 'success is returned before all the datasets were tested')
        if not (v.k == 'adt' and v.a[0] == E.RES):
            cl.say('result', 'the result of a test is not reported')
    for kk, m in cl.bad.items():
        ctx.viol(kk, m)
    for x in ('dataset_visits', 'expectation_visits', 'inspections', 'counts_compared', 'lines_compared', 'return_paths'):
        ctx.floor(x, 1)
