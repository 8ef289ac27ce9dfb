"""The inspection of a source (ChunkProcessor as an iterator): line accounting and anomalies.

On top of lines.py, facts:
  ('cleared', kind)   a vector was emptied since the last line
  ('saved', a)        anomaly a was queued for delivery
  ('owed', v)         an optional pending anomaly was taken out and not queued yet
  ('made', d)         an anomaly was created for distance d
  ('marker',)         the line announces the log-classify task
  ('queued',)         something was queued in this call"""
from lines import *

MARK = 'TASK [log-classify'
DEQ = rx(r'^std::collections::VecDeque::(push_back|push_front|pop_front|pop_back|clear|extend|truncate|drain|append|retain|insert|remove)$')
OPTT = rx(r'^std::option::Option::(take|replace|insert|get_or_insert|get_or_insert_with)$')
ANOM = ('judged', 'saved', 'owed', 'made', 'popped', 'paired', 'dist')
PEVENTS = lambda n: EVENTS(n) or DEQ(n) or OPTT(n)

class Proc(Lines):
    per_line = ('inserted', 'cleared', 'marker', 'bufpush', 'crdpush')
    merge_rets = True
    mode = 'lines'            # what is tracked: 'lines' or 'anomalies'
    def __init__(self, ctx, prog, root, kinds=None):
        Lines.__init__(self, ctx, prog, root)
        self.kinds = kinds if kinds is not None else {}
        A = next(k for k in prog.adts if k.endswith('process::ChunkProcessor'))
        self.fields = prog.adts[A]['variants'][0]['f']
        self.AC = next(k for k in prog.adts if k.endswith('logreduce_model::AnomalyContext'))
        self.AN = next(k for k in prog.adts if k.endswith('logreduce_model::Anomaly'))
        self.acf = [x[0] for x in prog.adts[self.AC]['variants'][0]['f']]
        self.anf = [x[0] for x in prog.adts[self.AN]['variants'][0]['f']]
        self.rd = [i for i, x in enumerate(self.fields) if 'BytesLines' in x[1]]
        # lines with their position
        self.bufs = [(('f', i),) for i, x in enumerate(self.fields) if re.match(r'(std|alloc)::vec::Vec<\(', x[1])]
        self.cur = [(('f', i),) for i, x in enumerate(self.fields) if re.match(r'(std|core)::option::Option<.*AnomalyContext', x[1])]
        self.que = [(('f', i),) for i, x in enumerate(self.fields) if 'VecDeque<' in x[1]]
        self.flags = {(('f', i),) for i, x in enumerate(self.fields) if x[1] == 'bool'}
    def learn(self, kind, p):
        self.kinds.setdefault(kind, set()).add(p)
    def kind_of(self, p):
        return next((k for k, v in self.kinds.items() if p in v), None)
    def is_lines(self, e, v):
        return Lines.is_lines(self, e, v) or (v.k == 'fld' and v.a[0] is mk('deref', param(self.root, 0)) and v.a[2] in self.rd)
    # ---- state of the queue
    def pend(self, e, st):
        """The pending anomaly: (option value, known to be None, payload)."""
        v = e.read(st, self.at(self.cur[0]))
        return self.opt(e, st, v)
    def opt(self, e, st, v):
        v = e.content(st, v) if v.k == 'ref' else v
        if v.k == 'adt':
            return v, E.is_none(v), (e.snap(st, v.a[2]) if E.is_some(v) else None)
        d = e.discr(st, v, OPT)
        d = e.known(st, d)
        return v, d is E.I(0), e.snap(st, getproj(v, ('f', 1, 0)))
    def empty(self, e, st, path):
        v = e.snap(st, e.read(st, self.at(path)))
        if v.k == 'empty':
            return TRUE
        if v.k == 'vpush':
            return FALSE
        return e.known(st, E.simp_op('Eq', e.length(st, v), E.I(0)))
    def nonempty(self, e, st):
        return any(self.empty(e, st, q) is FALSE for q in self.que)
    # ---- boundaries
    def boundary(self, e, st, at, ret=False):
        L = self.line(st)
        self.settled(e, st, at)
        cl = {x[1] for x in self.get(st, 'cleared')}
        want = {'targets', 'coords', 'buffer'}
        if cl and cl != want and all(k in self.kinds for k in want):
            self.say('lockstep', '%s: only %s emptied, but not %s: lines and positions no longer match' % (at, ', '.join(sorted(cl)), ', '.join(sorted(want - cl))), st)
        for x in self.get(st, 'failed'):
            if not ret:
                self.say('failed:' + x[1], '%s goes on reading after a line that could not be %s' % (at, 'read' if x[1] == 'read' else 'decoded'), st)
        if L is None or self.get(st, 'failed'):
            return
        if ('marker',) in st.auto:
            if not ret:
                self.say('marker', '%s goes on reading after the log-classify marker' % at, st)
            return
        self.ctx.count('lines_judged')
        if not self.get(st, 'bufpush'):
            self.say('buffer', '%s: a line is not kept for the context' % at, st)
        if ('seen',) not in st.auto:
            if not self.get(st, 'pushed'):
                self.say('lost', '%s: a line that was not seen before is not compared with the index' % at, st)
            if not self.get(st, 'crdpush'):
                self.say('coord', '%s: a line to compare has no recorded position' % at, st)
        elif self.get(st, 'pushed') and not self.get(st, 'crdpush') or self.get(st, 'crdpush') and not self.get(st, 'pushed'):
            self.say('coord', '%s: lines to compare and their positions get out of step' % at, st)
        kinds = {(x[1], x[2]) for x in self.get(st, 'inc')}
        for nm, kd in (('line_count', 'one'), ('byte_count', 'bytes')):
            if (fieldpath(self.p, 'process::ChunkProcessor', nm), kd) not in kinds:
                self.say('count:' + nm, '%s: %s does not count the line' % (at, nm), st)
    def read_line(self, e, st, site, at=''):
        if self.mode == 'lines':
            return Lines.read_line(self, e, st, site, at)
        s2, s3 = st.copy(), st.copy()
        self.ctx.count('line_reads')
        return [(s3, NONE), (st, some(ok(e.fresh(st, site + ('line',), 'line')))), (s2, some(err(e.fresh(s2, site + ('rderr',), 'err'))))]
    def add(self, st, *x):
        if (x[0] in ANOM) == (self.mode == 'anomalies'):
            st.auto = st.auto | {x}
    def settled(self, e, st, at):
        """No anomaly may be on its way (neither pending nor queued)."""
        saved = {x[1] for x in self.get(st, 'saved')}
        for x in self.get(st, 'owed'):
            v, none, pay = self.opt(e, st, x[1])
            if not none and self.ident(pay) not in saved and self.ident(pay) is not self.ident(self.pend(e, st)[2]):
                self.say('a:owed', '%s: an anomaly that was pending is dropped' % at, st)
    # ---- vectors
    def vec(self, e, st, c, last):
        if not c.args:
            return None
        if last in ('take', 'replace') and c.name.startswith('std::mem::') and 'AnomalyContext' in (c.aty[0] if c.aty else ''):
            if 'VecDeque' in c.aty[0] or 'Vec<' in c.aty[0]:
                return None
            return self.taken(e, st, c, last)
        loc = self.locof(e, st, c.args[0])
        p = self.path(loc)
        L = self.line(st)
        at = where(self.p, c.fnkey, c.block)
        if last == 'push':
            v = e.snap(st, c.args[1])
            if L is None or p is None:
                return None
            if v is mk('call', 'tokens', mk('call', 'text', mk('fld', L, 0, 0))):
                self.learn('targets', p)
                if self.get(st, 'pushed'):
                    self.say('twice', '%s compares a line twice' % at, st)
                self.add(st, 'pushed', p)
                self.add(st, 'dirty', p)
            elif v.k == 'adt' and v.a[0] == 'tuple' and L in (v.a[2], v.a[3]):
                self.learn('buffer', p)
                n = v.a[3] if v.a[2] is L else v.a[2]
                if not self.fresh_count(e, st, n):
                    self.say('position', '%s: the position kept with a line (%s) is not a count of the lines read so far' % (at, n), st)
                if self.get(st, 'bufpush'):
                    self.say('twice', '%s keeps a line twice' % at, st)
                self.add(st, 'bufpush', self.fresh_count(e, st, n))
            elif self.fresh_count(e, st, v):
                self.learn('coords', p)
                w = self.fresh_count(e, st, v)
                if self.get(st, 'bufpush') and ('bufpush', w) not in st.auto:
                    self.say('position', '%s: the position recorded for the comparison is not the one kept with the line' % at, st)
                self.add(st, 'crdpush', w)
            elif 'usize' in c.fn['targs'][0] if c.fn['targs'] else False:
                self.say('position', '%s: the position %s recorded for a line is not a count of the lines read so far' % (at, v), st)
            return None
        k = self.kind_of(p) if p is not None else None
        if k is None:
            return None
        if last == 'clear' or last == 'truncate' and e.known(st, c.args[1]) is E.I(0) or last == 'drain' and 'RangeFull' in ''.join(c.aty):
            self.discard(e, st, k, p, at)
            self.add(st, 'cleared', k)
            return None
        if last in ('take', 'replace') and not c.name.endswith('replace'):
            # moved out: counts as emptied, the content has to be searched before or after
            if k == 'targets' and ('dirty', p) in st.auto:
                st.auto = st.auto - {('dirty', p)}
                self.add(st, 'owedt', e.snap(st, e.read(st, loc)))
            self.add(st, 'cleared', k)
            return None
        self.say('discard:' + k, '%s removes lines before they are compared' % at, st)
        return None
    def fresh_count(self, e, st, v):
        """The counters that were increased for this line and now hold v."""
        return tuple(sorted(x[1] for x in self.get(st, 'inc') if x[2] == 'one' and e.snap(st, e.read(st, self.at(x[1]))) is v))
    def discard(self, e, st, k, p, at):
        ts = self.kinds.get('targets', ())
        for t in ts:
            if ('dirty', t) in st.auto and self.empty(e, st, t) is not TRUE:
                self.say('discard:' + k, '%s empties the %s although the pending lines were not compared with the index' % (at, k), st)
    def line_at(self, e, st, c, b, i):
        """The line at a position of the buffer."""
        k = mk('call', 'ix', b, i)
        x = st.facts.get(k)
        if x is None:
            x = e.fresh(st, c.site, 'ln')
            st.facts[mk('elemof', x)] = b
            st.facts[k] = x
        return [(st, x)]
    # ---- other calls
    def more(self, e, st, c, n, d, last):
        at = where(self.p, c.fnkey, c.block)
        if SEARCH(n):
            v = e.snap(st, c.args[1])
            self.ctx.count('searches')
            hit = False
            for t in self.kinds.get('targets', ()):
                if e.snap(st, e.read(st, self.at(t))) is v:
                    st.auto = st.auto - {('dirty', t)}
                    hit = True
            for x in self.get(st, 'owedt'):
                if x[1] is v:
                    st.auto = st.auto - {x}
                    hit = True
            if not hit and self.kinds.get('targets'):
                self.say('search', '%s compares %s, not the pending lines' % (at, v), st)
            r = mk('call', 'distances', e.fresh(st, c.site, 'search'))
            return [(st, r)]
        if d == 'std::ops::Index::index' and len(c.args) == 2 and c.aty[1] == 'usize':
            b = e.snap(st, c.args[0])
            if any(b is e.snap(st, e.read(st, self.at(q))) for q in self.bufs):
                return self.line_at(e, st, c, b, e.snap(st, c.args[1]))
            if b.k not in ('adt', 'undef'):
                return [(st, mk('at', b, e.snap(st, c.args[1])))]
        if n == 'str::contains' and c.args:
            pat = e.content(st, c.args[1])
            if pat.k == 's' and pat.a[0] == MARK:
                L = self.line(st)
                t = e.snap(st, c.args[0])
                if L is not None and t is mk('call', 'text', mk('fld', L, 0, 0)):
                    s2 = st.copy()
                    self.add(st, 'marker')
                    return [(st, TRUE), (s2, FALSE)]
        if OPTT(n) and c.aty and 'AnomalyContext' in c.aty[0]:
            if last in ('take', 'replace'):
                return self.taken(e, st, c, last)
            if last == 'insert':
                v = e.read(st, self.locof(e, st, c.args[0]))
                self.overwrite(e, st, v, at)
                self.created(e, st, c.args[1], at)
        if DEQ(n) and c.args:
            p = self.path(self.locof(e, st, c.args[0]))
            if p not in self.que:
                return None
            if last == 'push_back':
                self.queue(e, st, e.snap(st, c.args[1]), at)
                return None
            if last == 'pop_front':
                loc = self.locof(e, st, c.args[0])
                if self.empty(e, st, p) is TRUE:
                    return [(st, NONE)]
                s2 = st.copy()
                st.facts[mk('call', 'popped')] = TRUE
                x = e.fresh(st, c.site, 'pop')
                v = e.read(s2, self.at(p))
                out = []
                if self.empty(e, st, p) is not FALSE:
                    s2.facts[E.simp_op('Eq', e.length(s2, e.snap(s2, v)), E.I(0))] = TRUE
                    e.write(s2, self.at(p), E.EMPTY)
                    out.append((s2, NONE))
                e.write(st, self.at(p), e.fresh(st, c.site, 'rest'))
                y = mk('call', 'front', x)
                self.add(st, 'popped', y)
                out.append((st, some(y)))
                return out
            if last == 'extend' and len(c.aty) > 1 and 'option::Option<' in c.aty[1].split('AnomalyContext')[0]:
                loc = self.locof(e, st, c.args[0])
                out = []
                for s, vi, y in e.split_variant(st, e.content(st, c.args[1]), OPT):
                    s = s.copy()
                    if vi == 1:
                        x = e.snap(s, getproj(y, ('f', 1, 0)))
                        self.queue(e, s, x, at)
                        e.write(s, self.at(p), mk('vpush', e.read(s, self.at(p)), x))
                    out.append((s, E.UNIT))
                return out
            self.say('a:queue', '%s changes the queue of anomalies with %s' % (at, last), st)
        if d == 'std::iter::Iterator::next' and c.fn.get('body') == self.root:
            if not self.nonempty(e, st):
                self.say('recursion', '%s starts again without anything to deliver' % at, st)
            return [(st, mk('call', 'again'))]
        return None
    def queue(self, e, st, x, at):
        self.ctx.count('queued')
        i = self.ident(x)
        if ('saved', i) in st.auto:
            self.say('a:dup', '%s queues the same anomaly twice' % at, st)
        own = [self.ident(self.pend(e, st)[2])] + [self.ident(self.opt(e, st, y[1])[2]) for y in self.get(st, 'owed')]
        if i not in own:
            self.anomaly_ok(e, st, x, at, True)
        if i is own[0]:
            self.add(st, 'saved', i)
        st.auto = frozenset(y for y in st.auto if not (y[0] == 'owed' and self.ident(self.opt(e, st, y[1])[2]) is i))
    def taken(self, e, st, c, last):
        loc = self.locof(e, st, c.args[0])
        if self.path(loc) not in self.cur:
            return None
        v = e.read(st, loc)
        if last == 'replace':
            self.created(e, st, c.args[1], where(self.p, c.fnkey, c.block))
        o, none, pay = self.opt(e, st, v)
        if not none:
            self.add(st, 'owed', e.snap(st, v))
        return None
    # ---- the pending anomaly
    def overwrite(self, e, st, prev, at):
        v, none, pay = self.opt(e, st, prev)
        if none or any(self.ident(self.opt(e, st, y[1])[2]) is self.ident(pay) for y in self.get(st, 'owed')):
            return
        if ('saved', self.ident(pay)) not in st.auto:
            self.say('a:lost', '%s discards the pending anomaly before it was queued' % at, st)
    def on_write(self, e, st, loc, val, fnkey, block):
        p = self.path(loc)
        at = where(self.p, fnkey, block)
        if p is not None and p in self.cur:
            self.overwrite(e, st, e.prev, at)
            self.rm(st, 'saved')
            self.created(e, st, val, at)
        elif p is not None and p in self.flags and val is not FALSE:
            if ('marker',) not in st.auto and ('end',) not in st.auto:
                self.say('flag', '%s makes the inspection stop although the source is not exhausted' % at, st)
        elif p is not None and self.kind_of(p) and val.k != 'obj' and (e.prev is not val or val.k == 'empty'):
            k = self.kind_of(p)
            self.discard(e, st, k, p, at)
            self.add(st, 'cleared', k)
        else:
            Lines.on_write(self, e, st, loc, val, fnkey, block)
    def created(self, e, st, val, at):
        v = e.snap(st, val)
        if v.k == 'adt' and v.a[0] == OPT:
            if v.a[1] == 0:
                return
            v = v.a[2]
        if v.k == 'adt' and v.a[0] == self.AC:
            self.anomaly_ok(e, st, v, at)
    def anomaly_ok(self, e, st, v, at, must=False):
        """An anomaly that is created here describes a line of the buffer and its own distance above the threshold."""
        if not (v.k == 'adt' and v.a[0] == self.AC):
            if must:
                self.say('a:origin', '%s queues %s, which is neither the pending anomaly nor a new one' % (at, v), st)
            return
        a = v.a[2 + self.acf.index('anomaly')]
        if not (a.k == 'adt' and a.a[0] == self.AN):
            return
        d, pos, line = (a.a[2 + self.anf.index(x)] for x in ('distance', 'pos', 'line'))
        if ('made', strip(d)) in st.auto:
            return
        self.ctx.count('anomalies_created')
        dist = strip(d)
        if not (self.from_distances(st, dist)):
            self.say('a:distance', '%s: the distance of the anomaly is %s, which is not a distance found by the search' % (at, d), st)
            return
        if self.above(e, st, dist) is not TRUE:
            self.say('a:threshold', '%s: an anomaly is created although its distance is not known to be above the threshold' % at, st)
        t = line
        b = None
        if t.k == 'fld' and t.a[1:] == (0, 0):
            t = t.a[0]
        if t.k == 'call' and t.a[0] == 'text':
            t = t.a[1]
            if t.k == 'fld' and t.a[0].k == 'fld':
                b = t.a[0].a[0]
        if b is None or strip(pos) is not strip(mk('fld', mk('fld', b, 0, 0), 0, 1)):
            self.say('a:line', '%s: the line (%s) and position (%s) of the anomaly are not those of one line of the buffer' % (at, line, pos), st)
            return
        ok_ = False
        for k, val in st.facts.items():
            if k.k == 'op' and k.a[0] == 'Eq' and val is TRUE:
                x, y = strip(k.a[1]), strip(k.a[2])
                for u, w in ((x, y), (y, x)):
                    if u is strip(mk('fld', b, 0, 1)) and self.paired(st, dist, w):
                        ok_ = True
        if not ok_:
            self.say('a:match', '%s: the line of the anomaly is not the one the distance was computed for (no equality of its position with the position paired with the distance)' % at, st)
        self.add(st, 'made', dist)
    def from_distances(self, st, d):
        b = st.facts.get(mk('elemof', d))
        if b is not None:
            return any(x.k == 'call' and x.a[0] == 'distances' for x in subterms(b))
        return any(x.k == 'call' and x.a[0] == 'distances' for x in subterms(d))
    def paired(self, st, d, k):
        """k is the recorded position at the same place as distance d."""
        if ('paired', d, k) in st.auto and k.k != 'op':
            return True
        if k.k == 'at' and ('paired', d, k.a[1]) in st.auto:
            return True
        return d.k == 'at' and k.k == 'at' and d.a[1] is k.a[1]
    def on_branch(self, e, st, term, val):
        if self.mode == 'anomalies' and term.k == 'discr':
            st.auto = frozenset(y for y in st.auto if not (y[0] == 'owed' and self.opt(e, st, y[1])[1]))
        if self.mode == 'anomalies' and term.k == 'op':
            for x in self.get(st, 'dist'):
                a = self.above(e, st, x[1])
                if a is not None:
                    self.add(st, 'judged', x[1], a is TRUE)
    def skel_extra(self, e, st):
        q = tuple(self.empty(e, st, x) is FALSE for x in self.que)
        if self.mode == 'anomalies':
            return (self.pend(e, st)[1], q)
        ts = tuple(self.empty(e, st, t) is TRUE for t in sorted(self.kinds.get('targets', ())))
        fl = tuple(e.known(st, e.read(st, self.at(f))) is TRUE for f in sorted(self.flags))
        return (q, ts, fl)
    def skel_skip(self, root, proj):
        if root[0] == 'D' and root[1] is param(self.root, 0) and proj[0] == 'f':
            return (('f', proj[2]),) in (self.cur if self.mode == 'lines' else self.flags)
        return False
    def ident(self, v):
        """What identifies an anomaly, whatever context was added to it."""
        return getproj(v, ('f', None, self.acf.index('anomaly'))) if v is not None else None
    def above(self, e, st, d):
        for k, val in st.facts.items():
            if k.k == 'op' and k.a[0] in ('Gt', 'Lt', 'Ge', 'Le') and val.k == 'b':
                x, y, op = strip(k.a[1]), strip(k.a[2]), k.a[0]
                if y is d:
                    x, y = y, x
                    op = {'Gt': 'Lt', 'Lt': 'Gt', 'Ge': 'Le', 'Le': 'Ge'}[op]
                if x is not d or y.k != 'fl':
                    continue
                self.thresholds.add(y)
                if op == 'Gt':
                    return val
                if op == 'Le':
                    return B(val is FALSE)
                self.say('a:compare', 'distances are compared with the threshold by %s: a distance equal to the threshold is not an anomaly' % op, st)
                return val
        return None
    thresholds = set()
    def next_items(self, e, st, loc, v, site):
        r = Lines.next_items(self, e, st, loc, v, site)
        if r is not None:
            return r
        if self.mode == 'anomalies' and v.k == 'adt' and v.a[0] in ('it:zip', 'it:enumerate', 'it:seq') + RANGE and has_distances(e.snap(st, v)):
            self.judge(e, st)
            st.auto = frozenset(x for x in st.auto if x[0] not in ('paired', 'made', 'dist', 'judged'))
            aligned = self.pos_of(v)
            self.next_items = lambda *a: None
            try:
                res = models.nxt(e, st, loc, site)
            finally:
                del self.next_items
            out = []
            for s, o in res:
                if E.is_some(o):
                    s = s.copy()
                    if v.a[0] in ('it:enumerate',) + RANGE:
                        ix = e.fresh(s, site + ('idx',), 'idx')
                        o = some(ix if v.a[0] in RANGE else E.tup(ix, o.a[2].a[3]))
                    xs = self.items(e, s, o.a[2])
                    if v.a[0] in RANGE:
                        ds = [mk('at', x, xs[0]) for x in subterms(v.a[3]) if x.k == 'call' and x.a[0] == 'distances']
                        xs = ds + xs
                    else:
                        ds = [x for x in xs if self.from_distances(s, x)]
                    for d in ds[:1]:
                        self.add(s, 'dist', d)
                        self.ctx.count('distances_judged')
                        if aligned:
                            for x in xs:
                                if x is not d:
                                    self.add(s, 'paired', d, x)
                out.append((s, o))
            return out
        return None
    def items(self, e, st, x):
        x = e.content(st, x)
        if x.k == 'adt' and x.a[0] == 'tuple':
            return [z for y in x.a[2:] for z in self.items(e, st, y)]
        return [strip(x)]
    def pos_of(self, it):
        """The iterator walks collections from their start, one by one, in step."""
        while it.k == 'adt' and it.a[0] in ('it:copied', 'it:cloned', 'it:fuse', 'it:peekable', 'it:enumerate'):
            it = it.a[2]
        if it.k == 'adt' and it.a[0] == 'it:zip':
            return self.pos_of(it.a[2]) and self.pos_of(it.a[3])
        return it.k == 'adt' and it.a[0] in ('it:seq',) + RANGE
    def judge(self, e, st):
        """The distance in hand was either not above the threshold, or an anomaly was made of it."""
        for x in self.get(st, 'dist'):
            d = x[1]
            a = TRUE if ('judged', d, True) in st.auto else FALSE if ('judged', d, False) in st.auto else self.above(e, st, d)
            if a is None and ('made', d) not in st.auto:
                self.say('a:unjudged', 'a distance is not compared with the threshold', st)
            elif a is TRUE and ('made', d) not in st.auto:
                self.say('a:missed', 'no anomaly is created for a distance above the threshold', st)

RANGE = ('it:range', 'core::ops::range::Range')

def has_distances(t):
    return any(x.k == 'call' and x.a[0] == 'distances' for x in subterms(t))

def strip(t):
    while t.k in ('deref',):
        t = t.a[0]
    return t

def analyse(ctx, mode):
    p = ctx.prog()
    sim = Sim(ctx, p)
    ks = [k for k in p.ws_fns() if p.fns[k]['npath'].endswith('::next') and 'ChunkProcessor' in (p.fns[k].get('implself_adt') or '')]
    if not ctx.need(len(ks) == 1, 'Iterator::next of ChunkProcessor'):
        return None, None
    root = ks[0]
    kinds = {}
    cl = None
    for rnd in range(3):
        n = {k: set(v) for k, v in kinds.items()}
        cl = Proc(ctx, p, root, kinds)
        cl.thresholds = set()
        cl.mode = mode
        cl.init = lambda: frozenset({('dirty', t) for t in kinds.get('targets', ())}) if mode == 'lines' else frozenset()
        e, outs = sim.run(root, cl, interest=PEVENTS, also=proc_fns(p))
        if n == {k: set(v) for k, v in kinds.items()}:
            break
    ctx.need(len(cl.cur) == 1 and len(cl.que) == 1, 'pending anomaly and queue of ChunkProcessor')
    ctx.need(mode != 'lines' or set(kinds) >= {'targets', 'coords', 'buffer'}, 'buffers of ChunkProcessor')
    for st, v in outs:
        r = e.content(st, v)
        ctx.count('return_paths')
        at = 'the return'
        if r.k == 'call' and r.a[0] == 'again':
            cl.boundary(e, st, at, ret=True)
            cl.judge(e, st)
            continue
        if E.is_some(r) and e.content(st, r.a[2]).k == 'adt':
            x = e.content(st, r.a[2])
            if E.is_err(x):
                continue
            y = e.snap(st, x.a[2])
            if ('popped', y) not in st.auto:
                cl.say('a:deliver', 'delivers %s, which is not the next queued anomaly' % y, st)
            cl.boundary(e, st, at, ret=True)
            cl.judge(e, st)
            if cl.get(st, 'failed'):
                cl.say('swallow', 'a line could not be read or decoded, but no error is returned', st)
            continue
        if not E.is_none(r):
            cl.say('shape', 'returns %s' % r, st)
            continue
        if cl.get(st, 'popped'):
            cl.say('a:popped', 'an anomaly is taken out of the queue but not delivered', st)
        cl.boundary(e, st, 'the end', ret=True)
        cl.judge(e, st)
        if cl.get(st, 'failed'):
            cl.say('swallow', 'ends as if the source were exhausted although a line could not be read or decoded', st)
        stopped = any(e.known(st, e.read(st, cl.at(f))) is TRUE for f in cl.flags)
        if ('end',) not in st.auto and ('marker',) not in st.auto and not stopped:
            cl.say('early', 'ends before the source is exhausted', st)
        for t in kinds.get('targets', ()):
            if ('dirty', t) in st.auto and cl.empty(e, st, t) is not TRUE:
                cl.say('tail', 'ends although the last lines were not compared with the index', st)
        if cl.get(st, 'owedt'):
            cl.say('tail', 'ends although the last lines were not compared with the index', st)
        _, none, pay = cl.pend(e, st)
        if not none:
            cl.say('a:tail', 'ends although an anomaly is still pending', st)
        if not all(cl.empty(e, st, q) is TRUE for q in cl.que):
            cl.say('a:left', 'ends although anomalies are still queued', st)
    ctx.sample('fields of ChunkProcessor: %s' % {k: sorted(cl.fields[x[0][1]][0] for x in v) for k, v in kinds.items()})
    return cl, e
import re
