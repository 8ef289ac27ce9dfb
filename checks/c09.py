"""The report attributes what it holds to the right source and index, and its totals are sums over the sources."""
from account import *

MAPT = 'IndexReport'

class Attr(ReportAcct):
    def init(self):
        return frozenset()
    def lens(self, x):
        return x.a[1] if x.k == 'call' and x.a[0] == 'len' else None
    def on_call(self, e, st, c):
        n, d = c.name, c.decl
        if n in ('std::collections::HashSet::new', 'std::collections::HashSet::with_capacity') or d == 'std::default::Default::default' and c.fn['targs'] and c.fn['targs'][0].startswith('std::collections::HashSet<'):
            v = mk('call', 'set', S(repr(c.site)))
            self.add(st, 'set', v)
            return [(st, v)]
        if n in ('std::collections::HashSet::clear',):
            v = e.content(st, c.args[0])
            if v.k == 'call' and v.a[0] == 'set':
                self.add(st, 'set', v)
                return [(st, E.UNIT)]
        ty = c.fn['targs'][-2:] if c.fn['targs'] else []
        if n.startswith('std::collections::HashMap::') or n.startswith('std::collections::BTreeMap::') or n.startswith('std::collections::hash_map::Entry::') or n.startswith('std::collections::btree_map::Entry::'):
            m = n.rsplit('::', 1)[-1]
            if m in ('new', 'with_capacity') and any(MAPT in t for t in c.fn['targs']):
                return [(st, mk('call', 'ixmap', S(repr(c.site))))]
            b = e.content(st, c.args[0]) if c.args else None
            if b is not None and b.k == 'call' and b.a[0] == 'ixmap':
                k = e.snap(st, c.args[1]) if len(c.args) > 1 else None
                if m in ('contains_key', 'get'):
                    if ('ixrep', k, b) in st.auto:
                        return [(st, TRUE if m == 'contains_key' else some(e.fresh(st, c.site, 'ixrep')))]
                    s2 = st.copy()
                    self.add(st, 'ixrep', k, b)
                    return [(st, TRUE if m == 'contains_key' else some(e.fresh(st, c.site, 'ixrep'))), (s2, FALSE if m == 'contains_key' else NONE)]
                if m == 'insert':
                    self.mapped(e, st, c, b, k, e.snap(st, c.args[2]))
                    return [(st, e.fresh(st, c.site, 'old'))]
                if m == 'entry':
                    return [(st, mk('call', 'ixentry', b, k))]
            if b is not None and b.k == 'call' and b.a[0] == 'ixentry':
                if m == 'or_insert':
                    self.mapped(e, st, c, b.a[1], b.a[2], e.snap(st, c.args[1]))
                    return [(st, e.fresh(st, c.site, 'slot'))]
                if m in ('or_insert_with', 'or_insert_with_key'):
                    out = []
                    for s2, y in e.call_value(st, c.args[1], [], c.site + ('ins',)):
                        self.mapped(e, s2, c, b.a[1], b.a[2], e.snap(s2, y))
                        out.append((s2, e.fresh(s2, c.site, 'slot')))
                    return out
        if d == 'std::iter::Iterator::sum':
            v = e.content(st, c.args[0])
            if v.k == 'adt' and v.a[0] == 'it:map':
                src = strip_iter(e, st, v.a[2])
                if src.k == 'call' and src.a[0] == 'bag' and (any(x[0] == 'push' and x[1] is src and x[2] == 'log' for x in st.auto) or not any(x[0] == 'push' and x[1] is src for x in st.auto)):
                    el = e.fresh(st, c.site + ('sumel',), 'logreport')
                    s2 = st.copy()
                    outs = e.call_value(s2, e.tmpref(s2, v.a[3], c.site + ('fn',)), [e.tmpref(s2, el, c.site)], c.site + ('sum',))
                    if outs and all(self.lens(y) is self.field(el, self.LR, 'anomalies') for _, y in outs):
                        return [(st, mk('call', 'sumof', src))]
        return super().on_call(e, st, c)
    def mapped(self, e, st, c, b, k, v):
        self.ctx.count('index_report_inserts')
        if mk('call', 'index', k) in subterms(v):
            self.add(st, 'ixrep', k, b)
        else:
            self.say('index-report', '%s: the index report recorded under a name describes another index' % where(self.p, c.fnkey, c.block))
    def names_of(self, g, s):
        return [getproj(g, ('f', 0, 0))] if g is not None else [mk('call', 'nameof', s)]
    def proc(self, e, st, c, s):
        g = self.cur(st, 'grp')
        ix = e.snap(st, c.args[1])
        nms = self.names_of(g, s) + [mk('call', 'nameof', s)]
        self.ctx.count('processor_creations')
        if not any(mk('call', 'index', nm) in subterms(ix) for nm in nms):
            self.say('other-index', '%s: a source is compared with an index that was not looked up under its own name' % where(self.p, c.fnkey, c.block))
        sk = e.content(st, c.args[3])
        if not (sk.k == 'call' and sk.a[0] == 'set'):
            self.say('skip-set', '%s: the set of lines already seen cannot be traced to its creation: %s' % (where(self.p, c.fnkey, c.block), str(sk)[:80]))
        elif ('set', sk) not in st.auto:
            self.say('skip-set', '%s: lines already seen in sources of another index are skipped' % where(self.p, c.fnkey, c.block))
    def end_group(self, e, st):
        super().end_group(e, st)
        self.rm(st, lambda x: x[0] in ('set', 'ixrep'))
    def stat(self, t, name):
        """t is the counter `name` of the processor of a source -> (source, state)."""
        if t.k == 'fld' and t.a[0].k == 'call' and t.a[0].a[0] == 'proc':
            if t is self.field(t.a[0], self.CP, name):
                return t.a[0].a[1], t.a[0].a[2].a[0]
        return None
    def logged(self, e, st, c, s, g, v, an):
        f = lambda n: self.field(v, self.LR, n)
        w = where(self.p, c.fnkey, c.block)
        self.ctx.count('log_reports_built')
        if not any(f('index_name') is nm for nm in self.names_of(g, s) + [mk('call', 'nameof', s)]):
            self.say('index-name', '%s: a log report carries an index name that is not the one of its source: %s' % (w, str(f('index_name'))[:80]))
        for n in ('line_count', 'byte_count'):
            if self.stat(f(n), n) != (s, 'done'):
                self.say(n, '%s: the %s of a log report is not the final count of the processor of its source' % (w, n))
    def on_binop(self, e, st, op, a, b):
        if op != 'Add':
            return None
        for x, y in ((a, b), (b, a)):
            kind = src = None
            t = self.stat(y, 'line_count')
            if t is not None:
                kind, src = 'line', t[0]
                if t[1] != 'done':
                    self.say('early-lines', 'the line count of a source is added before the source is exhausted')
            else:
                l = self.lens(y)
                if l is not None and l.k == 'call' and l.a[0] == 'bag' and any(k[0] == 'kept' and k[2] is l for k in st.auto):
                    kind, src = 'anom', self.cur(st, 'src')
                    if not any(k[0] in ('end', 'ierr') for k in st.auto):
                        self.say('early-anomalies', 'the anomalies of a source are counted before the source is exhausted')
            if kind is None:
                continue
            acc = mk('call', 'acc', S(kind))
            started = ('started', kind) in st.auto
            if x is not acc and not (x.k == 'i' and x.a[0] == 0 and not started):
                continue
            self.ctx.count('total_additions')
            if (kind + 'sum', src) in st.auto:
                self.say('twice:' + kind, 'a source is counted twice in the %s total' % kind)
            self.add(st, kind + 'sum', src)
            self.add(st, 'started', kind)
            return acc
        return None
    def finish_source(self, e, st, s):
        # accounting itself is another property; here only what is attributed and summed
        has = lambda k: any(x[0] == k for x in st.auto)
        g = self.cur(st, 'grp')
        if has('proc') and not has('linesum'):
            self.say('lines', 'the lines of a source that was opened are not added to total_line_count on some path')
        self.add(st, 'dirty') if has('logged') and not has('anomsum') else None
        if has('logged') and not any(('ixrep', nm) == x[:2] for x in st.auto for nm in self.names_of(g, s)):
            self.say('index-missing', 'a log report is recorded without an index report for its index')
    def at_return(self, e, st, v):
        self.ctx.count('return_paths')
        if not (v.k == 'adt' and v.a[0] == RES and v.a[1] == 0):
            return
        r = v.a[2]
        if not (r.k == 'adt' and r.a[0] == self.RP):
            self.say('return', 'the returned report cannot be recognised')
            return
        f = lambda n: self.field(r, self.RP, n)
        if ('dirty',) in st.auto and not (f('total_anomaly_count').k == 'call' and f('total_anomaly_count').a[0] == 'sumof'):
            self.say('anomalies', 'the anomalies of a source are not added to total_anomaly_count on some path')
        for n, kind in (('total_line_count', 'line'), ('total_anomaly_count', 'anom')):
            t = f(n)
            if t is None:
                self.say('field:' + n, 'Report has no field %s' % n)
            elif t.k == 'call' and t.a[0] == 'sumof':
                if t.a[1] is not f('log_reports'):
                    self.say('total:' + n, '%s is not computed from the log reports' % n)
            elif not (t is mk('call', 'acc', S(kind)) or t.k == 'i' and t.a[0] == 0 and ('started', kind) not in st.auto):
                self.say('total:' + n, '%s is not the sum over the sources inspected: %s' % (n, str(t)[:80]))
        key = self.root
        if f('target') is not param(key, 2):
            self.say('target', 'the report does not name the target that was inspected: %s' % str(f('target'))[:80])
        b = f('baselines')
        M = next((k for k in self.p.adts if k.endswith('logreduce_model::Model')), None)
        want = self.field(mk('deref', param(key, 0)), M, 'baselines') if M else None
        if want is None or not strips(b, want):
            self.say('baselines', 'the report does not list the baselines of the model: %s vs %s' % (str(b)[:80], want))
        for x in st.auto:
            if x[0] == 'ixrep' and x[2] is not f('index_reports'):
                self.say('index-field', 'index reports are recorded in a map that is not the one of the report')

def strips(b, want):
    return b is want or str(b) == str(want)

def run(ctx):
    ctx.rule('Rule: along every path of Model::report, each processor is created with the index looked up under the name of its source and with a set of seen lines created for that index; each LogReport '
             'built carries the source in hand, its index name and the final counters of its processor; index_reports receives, under that name, the description of that index; the two totals are '
             'accumulators to which each inspected source contributes exactly once, with its final line count and with the length of its anomalies (value provenance over the MIR).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    k = p.one('Model::report')
    if ctx.need(k, 'Model::report'):
        cl = Attr(ctx, p, k)
        e, out = sim.run(k, cl, interest=EVENTS, also=helpers(p))
        for s, v in out:
            cl.at_return(e, s, e.snap(s, v))
        for kk, m in cl.bad.items():
            ctx.viol('report:' + kk, m)
        ctx.floor('log_reports_built', 1)
        ctx.floor('total_additions', 2)
        ctx.floor('processor_creations', 1)
        ctx.floor('return_paths', 2)
