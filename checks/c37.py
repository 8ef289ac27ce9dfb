"""The html page shows every anomaly of the report with its context."""
from c25 import *

class Shown(Sinks):
    """Obligations over the nested iterations of log_reports, anomalies and context lines.
    auto: frozenset of ('lr', r), ('lrdone',), ('an', a), ('andone', r), ('ln', a, field, l), ('fdone', a, field), ('line', a)"""
    def __init__(self, ctx, prog, root):
        super().__init__(ctx, prog)
        self.root = root
        A = prog.adts
        self.RP = next((k for k in A if k.endswith('logreduce_model::Report')), None)
        self.LR = next((k for k in A if k.endswith('::LogReport')), None)
        self.AC = next((k for k in A if k.endswith('::AnomalyContext')), None)
        self.AN = next((k for k in A if k.endswith('logreduce_model::Anomaly')), None)
    def judge(self, c, v, ctxt):
        pass
    def fld(self, v, adt, name):
        fs = self.p.adts[adt]['variants'][0]
        fs = fs.get('f') or fs.get('fields')
        i = next((i for i, x in enumerate(fs) if x[0] == name), None)
        return None if i is None else getproj(v, ('f', 0, i))
    def say1(self, key, msg):
        self.bad.setdefault(key, '%s: %s' % (self.p.display(self.root), msg))
    def sink(self, e, st, c):
        super().sink(e, st, c)
        m = c.name.rsplit('::', 1)[-1]
        if m not in ('write_str', 'write_fmt') or len(c.args) < 2:
            return
        self.show(e, st, e.snap(st, c.args[1]))
    def lin(self, t, k=1, out=None):
        """t as a sum: {atom: coefficient}, None being the constant."""
        out = {} if out is None else out
        if t.k == 'i':
            out[None] = out.get(None, 0) + k * t.a[0]
        elif t.k == 'op' and t.a[0] in ('Add', 'Sub') and len(t.a) == 3:
            self.lin(t.a[1], k, out)
            self.lin(t.a[2], k if t.a[0] == 'Add' else -k, out)
        elif t.k == 'call' and t.a[0].rsplit('::', 1)[-1] in ('saturating_sub', 'wrapping_sub', 'saturating_add', 'wrapping_add', 'checked_sub', 'checked_add') and len(t.a) == 3:
            self.lin(t.a[1], k, out)
            self.lin(t.a[2], k if t.a[0].endswith('add') else -k, out)
        elif t.k == 'fld' and t.a[1:] == (1, 0) and t.a[0].k == 'call' and '::checked_' in t.a[0].a[0]:
            self.lin(t.a[0], k, out)
        elif t.k == 'deref' and t.a[0].k in ('op', 'i'):
            self.lin(t.a[0], k, out)
        else:
            out[t] = out.get(t, 0) + k
        return {a: n for a, n in out.items() if n}
    def number(self, e, st, an, f, first, text, item):
        """The number shown with a line of the context."""
        pos = self.fld(self.fld(an, self.AC, 'anomaly'), self.AN, 'pos')
        size = mk('call', 'len', self.fld(an, self.AC, 'before'))
        nums = []
        for x in text.a if text.k == 'cat' else (text,):
            while x.k == 'call' and x.a[0].startswith('fmt:'):
                x = x.a[-1]
            if x.k in ('s', 'ch') or item in subterms(x) or 'str' in str(x.k):
                continue
            nums.append(self.lin(x))
        if not nums:
            self.say1('nonum:' + f, 'a line of the %s context of an anomaly is shown without its number' % f)
            return
        lens = {a for n in nums for a in n if a is not None and str(a).startswith('len(') and self.fld(an, self.AC, 'before') in subterms(a)}
        known = {pos} | lens
        want = {pos: 1}
        if f == 'before':
            for a in lens or {size}:
                want[a] = -1
        else:
            want[None] = 1
        for n in nums:
            if first and (n == want or f == 'before' and n == {None: 1} and any(pos in subterms(t) for t in st.facts)):
                return
            rest = dict(n)
            for a, k in want.items():
                rest[a] = rest.get(a, 0) - k
            rest = {a: k for a, k in rest.items() if k}
            if not first and (set(rest) == {None} and rest[None] > 0 or f == 'before' and set(n) == {None} and n[None] > 1):
                return
            if not first and any(a is not None and a not in known and k == 1 for a, k in n.items()):
                return
        txt = ' + '.join('%s%s' % ('' if k == 1 else '%d * ' % k, 'pos' if a is pos else a if a is not None else '1') for a, k in nums[0].items()) or '0'
        self.say1('num:' + f + (':first' if first else ''), 'a line of the %s context of an anomaly is shown as line %s (%s)' % (f, txt, 'the first one should be ' + ('pos - len(before)' if f == 'before' else 'pos + 1') if first else 'the same for every line'))
    def show(self, e, st, text):
        """A text is shown."""
        sub = subterms(text)
        for x in list(st.auto):
            if x[0] == 'ln' and x[3] in sub:
                st.auto = (st.auto - {x}) | {('got', x[2])}
                self.ctx.count('context_lines_shown')
                self.number(e, st, x[1], x[2], x[4], text, x[3])
            if x[0] == 'an':
                a = self.fld(x[1], self.AC, 'anomaly')
                if self.fld(a, self.AN, 'line') in sub:
                    if self.fld(a, self.AN, 'pos') not in sub:
                        self.say1('pos', 'the line of an anomaly is shown without its position')
                    if not self.ended(st, x[1], 'before') or any(y[0] == 'fdone' and y[2] == 'after' for y in st.auto):
                        self.say1('order', 'the line of an anomaly is not shown between its preceding and its following context')
                    if ('line', x[1]) in st.auto:
                        self.say1('twice', 'the line of an anomaly is shown twice')
                    st.auto = st.auto | {('line', x[1])}
                    self.ctx.count('anomaly_lines_shown')
    def base(self, e, st, itv):
        v = itv
        for _ in range(10):
            v = e.content(st, v)
            if v.k == 'adt' and v.a[0] in ('it:seq', 'it:enumerate', 'it:fuse', 'it:peekable'):
                v = v.a[2]
            else:
                break
        return v
    def rm(self, st, *kinds):
        st.auto = frozenset(x for x in st.auto if x[0] not in kinds)
    def end_line(self, st):
        for x in st.auto:
            # (a test against a length may be no more than a test for emptiness)
            if x[0] == 'ln' and not (x[3].k == 'at' and x[3].a[1] is E.I(0)):
                self.say1('context', 'a line of the %s context of an anomaly is not shown on some path' % x[2])
        self.rm(st, 'ln')
    def ended(self, st, an, f):
        """The context was walked to its end, or its length is known to be reached."""
        if any(y[0] == 'fdone' and y[2] == f for y in st.auto):
            return True
        xs = self.fld(an, self.AC, f)
        for t, v in st.facts.items():
            if t.k == 'op' and len(t.a) == 3 and v.k == 'b':
                op, i, n = t.a
                if not str(n).startswith('len('):
                    i, n, op = n, i, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
                if str(n).startswith('len(') and n.a[-1] is xs and (op, v is TRUE) in (('Lt', False), ('Ge', True), ('Eq', True), ('Ne', False)):
                    return True
            elif str(t).startswith('len(') and t.a[-1] is xs and v is E.I(0):
                return True
        return False
    def end_an(self, st):
        self.end_line(st)
        for x in list(st.auto):
            if x[0] == 'an':
                for f in ('before', 'after'):
                    if not self.ended(st, x[1], f):
                        self.say1('ctx:' + f, 'the %s context of an anomaly is not shown in full on some path' % f)
                if not any(y[0] == 'line' for y in st.auto):
                    self.say1('line', 'the line of an anomaly is not shown on some path')
        self.rm(st, 'an', 'line', 'fdone', 'got')
    def end_lr(self, st):
        for x in list(st.auto):
            if x[0] == 'lr' and not any(y[0] == 'andone' for y in st.auto):
                self.say1('anomalies', 'the anomalies of a log report are not all shown on some path')
        self.rm(st, 'lr', 'andone')
    def on_next(self, e, st, itv, val, site):
        self.step(e, st, e.snap(st, self.base(e, st, itv)), None if val is NONE else e.content(st, val.a[2]))
    def on_branch(self, e, st, t, val):
        """A walk by index: the test of the index against the length."""
        if t.k == 'op' and len(t.a) == 3 and val.k == 'b':
            op, i, n = t.a
            if n.k != 'call' or n.a[0] != 'len':
                i, n, op = n, i, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
            if n.k in ('call', 'len') and str(n).startswith('len(') and i.k != 'i' or i is E.I(0):
                if op in ('Lt', 'Ge', 'Ne', 'Eq') and isinstance(n.a[-1], T):
                    src = n.a[-1]
                    if i is E.I(0) and op in ('Eq', 'Ne') and (val is TRUE) == (op == 'Ne'):
                        return
                    self.step(e, st, src, mk('at', src, i) if (val is TRUE) == (op in ('Lt', 'Ne')) else None)
    def step(self, e, st, src, item):
        """The next element of a collection is taken, or there is none."""
        cur = lambda k: next((x[1] for x in st.auto if x[0] == k), None)
        top = self.fld(mk('deref', param(self.root, 0)), self.RP, 'log_reports')
        deref = lambda x: x if x is None or x.k in ('adt', 'deref') else mk('deref', x)
        if src is top:
            self.end_lr(st)
            if item is None:
                st.auto = st.auto | {('lrdone',)}
            else:
                self.ctx.count('log_report_visits')
                st.auto = (st.auto - {('lrdone',)}) | {('lr', item)}
            return
        lr = cur('lr')
        for d in ([lr, deref(lr)] if lr is not None else []):
            if src is self.fld(d, self.LR, 'anomalies'):
                self.end_an(st)
                if item is None:
                    st.auto = st.auto | {('andone', lr)}
                else:
                    self.ctx.count('anomaly_visits')
                    st.auto = st.auto | {('an', deref(item))}
                return
        an = cur('an')
        for f in (('before', 'after') if an is not None else ()):
            if src is self.fld(an, self.AC, f):
                self.end_line(st)
                if item is None:
                    st.auto = st.auto | {('fdone', an, f)}
                else:
                    st.auto = st.auto | {('ln', an, f, item, ('got', f) not in st.auto)}
                    if not (item.k == 'at' and item.a[1] is E.I(0)):
                        st.auto = st.auto | {('got', f)}
                return

def run(ctx):
    ctx.rule('Rule: along every successful path of logreduce_report::render, the log reports, the anomalies of each and the lines before and after each anomaly are iterated to their ends, and before the next one is '
             'taken a text holding the line in hand (for an anomaly: its line and position, between its two contexts) is written to the page (obligation automaton over the MIR); the number written with the first line of a context is, as a sum of symbols, '
             'the position minus the number of lines before, or the position plus one, and it grows with each further line.')
    p = ctx.prog()
    sim = Sim(ctx, p)
    k = p.one('logreduce_report::render')
    if not ctx.need(k, 'logreduce_report::render'):
        return
    cl = Shown(ctx, p, k)
    rd = [q for q in p.ws_fns() if p.fns[q]['crate'] == 'logreduce_report']
    e, out = sim.run(k, cl, interest=lambda n: n.startswith('html_builder::') or 'fmt::Write::' in n, also=[q for q in rd if 'main' not in q])
    for s, v in out:
        ctx.count('return_paths')
        v = e.snap(s, v)
        if v.k == 'adt' and v.a[0] == RES and v.a[1] == 0 and ('lrdone',) not in s.auto:
            cl.say1('reports', 'a page is returned before all the log reports were shown')
    for kk, m in cl.bad.items():
        ctx.viol(kk, m)
    for x in ('log_report_visits', 'anomaly_visits', 'anomaly_lines_shown', 'context_lines_shown', 'return_paths'):
        ctx.floor(x, 1)
