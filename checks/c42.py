"""Every section of the html page stands under its own log report."""
from c37 import *

REL = rx(r'(^|::)Source::(get_relative|as_str)$')
MAPGET = rx(r'^std::collections::(hash_map::|btree_map::|hash::map::)?(HashMap|BTreeMap)::(get|get_key_value)$')
PARTS = (('name', 'the relative path of its source'), ('link', 'a link to its source'), ('index', 'the name of its index'), ('count', 'the number of its anomalies'))
HEAD = (('target', 'the target'), ('baselines', 'the baselines'), ('total_line_count', 'the number of lines'), ('total_anomaly_count', 'the number of anomalies'))

class Section(Shown):
    """auto: as in Shown; ('part', x): shown in the section in hand; ('head', x); ('has', i): the index report found for it; ('smp',): its sources are walked; ('lns', x): one of them, to be shown."""
    def __init__(self, ctx, prog, root):
        super().__init__(ctx, prog, root)
        self.SR = next((k for k in prog.adts if k.endswith('logreduce_model::IndexReport')), None)
        self.rep = mk('deref', param(root, 0))
    def lr(self, st):
        r = next((x[1] for x in st.auto if x[0] == 'lr'), None)
        return r if r is None or r.k in ('adt', 'deref') else mk('deref', r)
    def text(self, st, text, attr):
        sub = subterms(text)
        r = self.lr(st)
        if r is None:
            for f, _ in HEAD:
                if self.fld(self.rep, self.RP, f) in sub:
                    st.auto = st.auto | {('head', f)}
            return
        src = self.fld(r, self.LR, 'source')
        for x in list(st.auto):
            if x[0] == 'one' and x[1] in sub and not attr:
                st.auto = st.auto - {x}
        if src in sub or any(s.k == 'call' and s.a[0] in ('get_relative', 'as_str') and s.a[-1] is src for s in sub):
            full = not any(s.k == 'call' and s.a[0] == 'get_relative' for s in sub)
            if not attr:
                st.auto = st.auto | {('part', 'name')}
            elif full:
                st.auto = st.auto | {('part', 'link')}
        if self.fld(r, self.LR, 'index_name') in sub and not attr:
            st.auto = st.auto | {('part', 'index')}
        if any(s.k == 'call' and s.a[0] == 'len' and s.a[-1] is self.fld(r, self.LR, 'anomalies') for s in sub) and not attr:
            st.auto = st.auto | {('part', 'count')}
    def sink(self, e, st, c):
        super().sink(e, st, c)
        m = c.name.rsplit('::', 1)[-1]
        if m in ('attr', 'write_str', 'write_fmt') and len(c.args) > 1:
            self.text(st, e.snap(st, c.args[1]), m == 'attr')
    def show(self, e, st, text):
        pass
    def number(self, *a):
        pass
    def on_call(self, e, st, c):
        last = c.name.rsplit('::', 1)[-1]
        if REL(c.name) and len(c.args) == 1:
            return [(st, mk('call', last, self.val(e, st, c.args[0])))]
        if MAPGET(c.name) and len(c.args) == 2 and self.val(e, st, c.args[0]) is self.fld(self.rep, self.RP, 'index_reports'):
            r = self.lr(st)
            self.ctx.count('index_lookups')
            if r is not None and self.val(e, st, c.args[1]) is not self.fld(r, self.LR, 'index_name'):
                self.say1('index', 'the index report of a section is not looked up by the index name of its log report')
            if last == 'get':
                s2 = st.copy()
                x = e.fresh(st, c.site, 'indexreport')
                st.auto = frozenset(y for y in st.auto if y[0] not in ('has', 'smp') and y != ('old', x)) | {('has', x)}
                return [(st, some(x)), (s2, NONE)]
        if last in ('format', 'join', 'format_with') and c.args and c.decl.startswith('itertools::'):
            if e.snap(st, self.base(e, st, c.args[0])) is self.fld(self.rep, self.RP, 'baselines'):
                st.auto = st.auto | {('head', 'baselines')}
        return super().on_call(e, st, c)
    def val(self, e, st, v):
        v = e.snap(st, v)
        if v.k == 'ref':
            v = e.snap(st, e.content(st, v))
        return v if v.k in ('adt', 'deref', 'fld') or v.k != 'a' else mk('deref', v)
    def end_lr(self, st):
        if self.lr(st) is not None:
            for k, what in PARTS:
                if ('part', k) not in st.auto:
                    self.say1('part:' + k, 'the section of a log report does not show %s on some path' % what)
            if any(x[0] == 'has' for x in st.auto) and ('smp',) not in st.auto:
                self.say1('samples', 'the sources of the index of a log report are not shown on some path')
            self.rm(st, 'one')
        st.auto = frozenset(('old', x[1]) if x[0] == 'has' else x for x in st.auto if x[0] not in ('part', 'smp', 'lr'))
    def end_one(self, st):
        if any(x[0] == 'one' for x in st.auto):
            self.say1('sample', 'a source of the index of a log report is taken and not shown on some path')
        self.rm(st, 'one')
    def step(self, e, st, src, item):
        top = self.fld(self.rep, self.RP, 'log_reports')
        if src is top:
            self.end_lr(st)
            if item is None:
                st.auto = st.auto | {('lrdone',)}
            else:
                self.ctx.count('log_report_visits')
                st.auto = (st.auto - {('lrdone',)}) | {('lr', item)}
            return
        if src is self.fld(self.rep, self.RP, 'baselines') and item is None:
            st.auto = st.auto | {('head', 'baselines')}
        for x in st.auto:
            if x[0] == 'old' and src in [self.fld(y, self.SR, 'sources') for y in (x[1], mk('deref', x[1]))]:
                self.say1('former', 'the sources of the index of another log report are shown in the section')
        for x in list(st.auto):
            if x[0] == 'has' and src in [self.fld(y, self.SR, 'sources') for y in (x[1], mk('deref', x[1]))]:
                st.auto = st.auto | {('smp',)}
                if item is not None:
                    self.end_one(st)
                    self.ctx.count('sample_visits')
                    st.auto = st.auto | {('one', item)}

def run(ctx):
    ctx.rule('Rule: on every path through the visit of a log report by logreduce_report::render, the relative path of its source, an attribute holding its source, its index name and the number of its anomalies are written before the next '
             'log report is taken; an index report is only looked up by that index name, and when there is one its sources are walked and each source taken is written; before the page is returned the target, the baselines and both totals '
             'of the report were written (obligation automaton over the MIR).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    k = p.one('logreduce_report::render')
    if not ctx.need(k, 'logreduce_report::render'):
        return
    cl = Section(ctx, p, k)
    rd = [q for q in p.ws_fns() if p.fns[q]['crate'] == 'logreduce_report']
    e, out = sim.run(k, cl, interest=lambda n: n.startswith('html_builder::') or 'fmt::Write::' in n or REL(n), also=[q for q in rd if 'main' not in q])
    for s, v in out:
        ctx.count('return_paths')
        v = e.snap(s, v)
        if v.k == 'adt' and v.a[0] == RES and v.a[1] == 0:
            if ('lrdone',) not in s.auto:
                cl.say1('reports', 'a page is returned before all the log reports were shown')
            for f, what in HEAD:
                if ('head', f) not in s.auto:
                    cl.say1('head:' + f, 'a page is returned without %s of the report' % what)
    for kk, m in cl.bad.items():
        ctx.viol(kk, m)
    for x in ('log_report_visits', 'index_lookups', 'return_paths'):
        ctx.floor(x, 1)
