"""The context of an anomaly: the lines that follow it, and those before it which were not shown yet."""
import re
from proc import *

ITER = ('std::iter::IntoIterator::into_iter',)
GV, GS = ('Z', 'visited'), ('Z', 'shown')
CTXK = ('end', 'kept', 'vis', 'aft', 'exh', 'pk', 'room', 'full', 'few', 'from')

class Ctx(Proc):
    """Two ghost counters stand for the number of lines of the buffer that were visited, and for the position after the last one that
    was shown; places which hold equal values keep equal values at joins (congruence)."""
    mode = 'anomalies'
    congruence = True
    def init(self):
        return frozenset()
    def add(self, st, *x):
        if x[0] in ANOM or x[0] in CTXK:
            st.auto = st.auto | {x}
    def ghost(self, st, r):
        return st.store.get(r, E.I(0))
    def skel_extra(self, e, st):
        v, none, _ = self.pend(e, st)
        some = v.k == 'adt' and not none or v.k != 'adt' and e.known(st, e.discr(st, v, OPT)) is E.I(1)
        return (Proc.skel_extra(self, e, st), bool(self.get(st, 'exh')), some)
    def cases(self, e, st):
        """An anomaly is pending, or none is."""
        v, none, pay = self.pend(e, st)
        if v.k == 'adt':
            return [(st, none)]
        d = e.discr(st, v, OPT)
        out = []
        for k in (0, 1):
            s = st.copy()
            if e.assume(s, d, E.I(k)):
                out.append((s, k == 0))
        return out
    # ---- the source
    def read_line(self, e, st, site, at=''):
        s2, s3 = st.copy(), st.copy()
        self.ctx.count('line_reads')
        self.add(s3, 'end')
        return [(s3, NONE), (st, some(ok(e.fresh(st, site + ('line',), 'line')))), (s2, some(err(e.fresh(s2, site + ('rderr',), 'err'))))]
    def vec(self, e, st, c, last):
        at = where(self.p, c.fnkey, c.block)
        if c.args:
            loc = self.locof(e, st, c.args[0])
            p = self.path(loc)
            if p is not None and p in self.kinds['buffer']:
                if last == 'push':
                    self.add(st, 'kept')
                else:
                    self.emptied(e, st, at)
                return None
            if last == 'push' and self.is_after(p):
                self.after(e, st, c, at, loc)
                return None
            if last == 'push' and len(c.args) > 1:
                self.peeked(e, st, e.snap(st, c.args[1]))
        return Proc.vec(self, e, st, c, last)
    def peeked(self, e, st, t):
        """The text of the line in hand goes to another list: it was looked at, not passed over."""
        for x in self.get(st, 'vis'):
            if ('aft', x[1]) not in st.auto and x[1] in leaves(t):
                self.rm(st, 'vis')
                self.add(st, 'pk')
                if ('few',) not in st.auto:
                    self.say('c:far', 'more than three lines may be kept for the context before the next anomaly', st)
                st.store[GV] = E.simp_op('Add', self.ghost(st, GV), E.I(-1))
    def on_collect(self, e, st, x, site):
        self.peeked(e, st, e.snap(st, x))
    def on_extend(self, e, st, loc, x, site):
        if not self.is_after(self.path(loc)):
            self.peeked(e, st, e.snap(st, x))
    def is_after(self, p):
        i = ('f', self.acf.index('after'))
        return p is not None and len(p) > 1 and p[:1] in self.cur and p[-1] == i
    def buffer(self, e, st):
        return [e.snap(st, e.read(st, self.at(b))) for b in sorted(self.kinds['buffer'])]
    def emptied(self, e, st, at):
        """The buffer is emptied: nothing may be left in it that belongs to the pending anomaly."""
        self.endvisit(e, st, at)
        if not self.pend(e, st)[1] and ('exh',) not in st.auto:
            n = [e.length(st, b) for b in self.buffer(e, st)]
            v = self.ghost(st, GV)
            if not any(self.atleast(e, st, v, x) for x in n):
                self.say('c:rest', '%s: lines which follow the pending anomaly are thrown away before they were added to its context' % at, st)
        self.ctx.count('buffers_emptied')
        self.rm(st, 'kept', 'exh', 'sep', 'few', 'pk')
        st.store[GV] = E.I(0)
        st.store[GS] = E.I(0)
    def atleast(self, e, st, x, y):
        k = lambda op, u, w: e.known(st, E.simp_op(op, u, w))
        return any(k(op, u, w) is TRUE for op, u, w in (('Ge', x, y), ('Le', y, x), ('Gt', x, y), ('Lt', y, x), ('Eq', x, y))) or any(k(op, u, w) is FALSE for op, u, w in (('Lt', x, y), ('Gt', y, x)))
    # ---- visits
    def on_call(self, e, st, c):
        n, d = c.name, c.decl
        last = d.rsplit('::', 1)[-1]
        if d in ITER or last in ('iter', 'to_vec', 'to_owned', 'clone', 'extend_from_slice', 'append', 'concat', 'extend', 'drain', 'splice'):
            for x in c.args[:2]:
                self.used(e, st, x, c)
        if c.args and d.startswith('std::iter::') and last not in ('skip', 'take', 'by_ref') and self.is_look(c.args[0]):
            x = self.look(e, st, c.args[0], c)
            c.args[0] = x
            if d in ITER:
                return [(st, x)]
        if last in ('skip', 'take') and c.args and self.is_look(c.args[0]):
            b, lo, hi = c.args[0].a[2].a[1:]
            if last == 'skip':
                lo = E.simp_op('Add', lo, c.args[1])
            else:
                hi = E.simp_op('Add', lo, c.args[1])
            return [(st, mk('adt', 'it:seq', 0, mk('call', 'look', b, lo, hi), E.S('ref'), E.I(0)))]
        if (d in ITER or last == 'iter') and c.args:
            v = e.content(st, c.args[0])
            if v.k == 'adt' and v.a[0].startswith('it:'):
                return Proc.on_call(self, e, st, c)
            lo, hi, base = E.I(0), None, v
            if v.k == 'slice':
                base, lo, hi = v.a
            b = e.snap(st, base)
            if any(b is x for x in self.buffer(e, st)):
                x = mk('adt', 'it:seq', 0, mk('call', 'look', b, lo, e.length(st, b) if hi is None else hi), E.S('ref'), E.I(0))
                return [(st, self.look(e, st, x, c) if d in ITER else x)]
        if (last in ('max', 'min') and d.startswith('std::cmp::') or n.endswith('::saturating_sub')) and len(c.args) == 2 and 'usize' in str(c.aty[0]):
            if last == 'saturating_sub':
                x, y = c.args
                out = []
                for s2, b in models.split_bool(e, st, e.known(st, E.simp_op('Lt', x, y))):
                    self.sep(s2, 'sub', b is TRUE)
                    out.append((s2, E.I(0) if b is TRUE else E.simp_op('Sub', x, y)))
                return out
            zero = [x for x in c.args if x is E.I(0)]
            if zero:
                return [(st, next((x for x in c.args if x is not zero[0]), zero[0]) if last == 'max' else zero[0])]
            out = e.minmax(st, last, *c.args)
            if len(out) > 1:
                for i, (s2, _) in enumerate(out):
                    self.sep(s2, last, i)
            return out
        if n == 'str::contains' and len(c.args) > 1:
            pat = e.content(st, c.args[1])
            if pat.k == 's' and pat.a[0] == MARK:
                s2 = st.copy()
                self.add(st, 'end')
                return [(st, TRUE), (s2, FALSE)]
        return Proc.on_call(self, e, st, c)
    def is_look(self, x):
        return x.k == 'adt' and x.a[0] == 'it:seq' and x.a[2].k == 'call' and x.a[2].a[0] == 'look'
    def look(self, e, st, x, c):
        """The lines that were not passed over so far, or a look back."""
        b, lo, hi = x.a[2].a[1:]
        size = e.length(st, b)
        whole = hi is size or e.snap(st, hi) is e.snap(st, size)
        if e.snap(st, lo) is e.snap(st, self.ghost(st, GV)) and whole:
            self.ctx.count('visits_started')
            self.rm(st, 'sep', 'few')
            if self.lt(e, st, size, E.I(3)) or self.ge(e, st, lo, self.sub(e.snap(st, size), 3)):
                self.add(st, 'few')
            return mk('adt', 'it:seq', 0, mk('call', 'visit', b), E.S('ref'), E.I(0))
        self.peek(e, st, lo, size if whole else hi, size, where(self.p, c.fnkey, c.block))
        return mk('adt', 'it:seq', 0, b, E.S('ref'), E.I(0))
    def line_at(self, e, st, c, b, i):
        v = e.snap(st, self.ghost(st, GV))
        if i is v:
            out = []
            self.endvisit(e, st, 'the next line')
            x = e.fresh(st, c.site, 'ln')
            st.facts[mk('elemof', x)] = b
            st.facts[mk('call', 'ix', b, i)] = x
            return [(s, x) for s in self.visited(e, st, x)]
        if i is e.snap(st, self.sub(v, 1)) and self.get(st, 'vis'):
            return [(st, self.get(st, 'vis')[0][1])]
        if mk('call', 'ix', b, i) not in st.facts:
            self.say('c:where', '%s looks at a line of the buffer which is not the next one' % where(self.p, c.fnkey, c.block), st)
        return Proc.line_at(self, e, st, c, b, i)
    def visited(self, e, s1, b):
        self.rm(s1, 'exh')
        s1.store[GV] = E.simp_op('Add', self.ghost(s1, GV), E.I(1))
        self.ctx.count('line_visits')
        out = []
        for s2, none in self.cases(e, s1):
            self.add(s2, 'vis', b, not none)
            out.append(s2)
        return out
    def next_items(self, e, st, loc, v, site):
        if v.k == 'adt' and v.a[0] == 'it:seq' and v.a[2].k == 'call' and v.a[2].a[0] == 'visit':
            self.endvisit(e, st, 'the next line')
            if ('exh',) in st.auto:
                return [(st, NONE)]
            s0, s1 = st, st.copy()
            if ('pk',) not in s0.auto:
                self.add(s0, 'exh')
            self.rm(s0, 'pk')
            self.rm(s1, 'pk')
            b = e.fresh(s1, site + ('ln',), 'elem')
            s1.facts[mk('elemof', b)] = v.a[2].a[1]
            return [(s0, NONE)] + [(s2, some(b)) for s2 in self.visited(e, s1, b)]
        if v.k == 'adt' and has_distances(e.snap(st, v)):
            self.endvisit(e, st, 'the next distance')
        return Proc.next_items(self, e, st, loc, v, site)
    def hit(self, e, st, b):
        """The line is the one of the distance in hand, which is above the threshold."""
        def mine(u):
            u = strip(u)
            return u.k == 'fld' and u.a[1:] == (0, 1) and strip(u.a[0]) is strip(b)
        for x in self.get(st, 'dist'):
            if ('judged', x[1], True) in st.auto or self.above(e, st, x[1]) is TRUE:
                if any(k.k == 'op' and k.a[0] == 'Eq' and val is TRUE and any(mine(u) for u in k.a[1:]) for k, val in st.facts.items()):
                    return True
        return False
    def endvisit(self, e, st, at):
        for x in self.get(st, 'vis'):
            b, waiting = x[1], x[2]
            self.ctx.count('visits_judged')
            if waiting and ('aft', b) not in st.auto and not self.hit(e, st, b):
                self.say('c:skipped', '%s: a line that follows the pending anomaly is left out of its context' % at, st)
            _, none, pay = self.pend(e, st)
            if ('aft', b) in st.auto and not none:
                n = e.length(st, e.snap(st, getproj(pay, ('f', None, self.acf.index('after')))))
                if ('room', b) not in st.auto and not self.limit(e, st, n, FALSE):
                    self.say('c:long', '%s: the context after an anomaly may grow beyond its limit' % at, st)
        self.rm(st, 'vis', 'aft', 'room', 'full')
    def on_branch(self, e, st, term, val):
        Proc.on_branch(self, e, st, term, val)
        self.room(e, st)
        if term.k == 'op' and term.a[0] in ('Lt', 'Le', 'Gt', 'Ge') and val.k == 'b':
            xs = [e.snap(st, x) for x in term.a[1:]]
            v, s = e.snap(st, self.ghost(st, GV)), e.snap(st, self.ghost(st, GS))
            ends = [e.snap(st, self.sub(v, 1))] + [e.snap(st, e.length(st, b)) for b in self.buffer(e, st)]
            if v in xs and any(self.ge(e, st, v, e.length(st, b)) for b in self.buffer(e, st)):
                self.add(st, 'exh')
            for x, y in (xs, xs[::-1]):
                if x is E.I(3) and any(y is z for z in ends):
                    self.sep(st, 'near', term.a[0], val is TRUE)
                if x is s and (y is E.I(0) or any(y is e.snap(st, self.sub(z, 3)) for z in ends)):
                    self.sep(st, 'shown', term.a[0], val is TRUE)
    def room(self, e, st):
        """What this path knows about the length of the context to which the line in hand was added."""
        for x in self.get(st, 'aft'):
            if ('room', x[1]) in st.auto or ('full', x[1]) in st.auto:
                continue
            _, none, pay = self.pend(e, st)
            if not none and pay is not None:
                n = e.length(st, e.snap(st, getproj(pay, ('f', None, self.acf.index('after')))))
                if n.k == 'i':
                    continue
                if self.limit(e, st, n, FALSE):
                    self.add(st, 'room', x[1])
                elif self.limit(e, st, n, TRUE):
                    self.add(st, 'full', x[1])
    limits = set()
    def limit(self, e, st, n, want):
        """It is known on this path that n has (not) reached the limit."""
        if n.k == 'i':
            (self.fulls if want is TRUE else self.parts).add(n.a[0])
            return True
        for k, val in st.facts.items():
            if k.k == 'op' and k.a[0] in ('Ge', 'Lt', 'Eq', 'Gt', 'Le', 'Ne') and val.k == 'b' and n in k.a[1:]:
                x, y, op = k.a[1], k.a[2], k.a[0]
                if y is n:
                    x, y, op = y, x, {'Ge': 'Le', 'Le': 'Ge', 'Gt': 'Lt', 'Lt': 'Gt'}.get(op, op)
                if y.k != 'i':
                    continue
                if op == 'Gt':
                    op, y = 'Ge', E.I(y.a[0] + 1)
                if op == 'Le':
                    op, y = 'Lt', E.I(y.a[0] + 1)
                if y.a[0] < 1:
                    continue
                full = {'Ge': val is TRUE, 'Lt': val is FALSE, 'Eq': val is TRUE, 'Ne': val is FALSE}[op]
                if full == (want is TRUE):
                    self.limits.add(y.a[0])
                    return True
        return False
    def after(self, e, st, c, at, loc):
        t = e.snap(st, c.args[1])
        self.ctx.count('lines_after')
        vs = self.get(st, 'vis')
        if not vs:
            self.say('c:after', '%s adds %s to the context of an anomaly, which is not the line of the buffer in hand' % (at, t), st)
            return
        b = vs[0][1]
        if not self.text_of(t, b):
            self.say('c:after', '%s adds %s to the context of an anomaly instead of the text of the line in hand' % (at, t), st)
        if ('aft', b) in st.auto:
            self.say('c:twice', '%s adds a line twice to the context of an anomaly' % at, st)
        if self.hit(e, st, b):
            self.say('c:self', '%s adds an anomaly to the context of another one' % at, st)
        self.add(st, 'aft', b)
        n = e.length(st, e.snap(st, e.read(st, loc)))
        if n.k == 'i':
            # the first lines of a new anomaly
            self.parts.add(n.a[0] + 1)
            if n.a[0] + 1 < 3:
                self.add(st, 'room', b)
        st.store[GS] = self.ghost(st, GV)
    def text_of(self, t, b):
        if t.k == 'fld' and t.a[1:] in ((0, 0), (1, 0)):
            t = t.a[0]
        return t.k == 'call' and t.a[0] == 'text' and b in leaves(t)
    # ---- queue and creation
    def queue(self, e, st, x, at):
        i = self.ident(x)
        _, none, pay = self.pend(e, st)
        own = {self.ident(pay): pay}
        for y in self.get(st, 'owed'):
            own[self.ident(self.opt(e, st, y[1])[2])] = self.opt(e, st, y[1])[2]
        if i in own:
            self.ctx.count('contexts_closed')
            a = e.snap(st, getproj(x, ('f', None, self.acf.index('after'))))
            n = e.length(st, a)
            vs = self.get(st, 'vis')
            if any(('full', y[1]) in st.auto for y in vs) or self.limit(e, st, n, TRUE):
                pass
            elif any(self.hit(e, st, y[1]) for y in vs):
                pass
            elif ('end',) in st.auto or any(e.known(st, e.read(st, self.at(f))) is TRUE for f in self.flags):
                if ('kept',) in st.auto:
                    self.say('c:tail', '%s: an anomaly is delivered although the lines that were read after it were not added to its context' % at, st)
            else:
                if 'c:short' not in self.bad:
                    print('SHORT', at, [z for z in st.auto]); print([(k,v) for k,v in st.facts.items()]); print(n, a)
                self.say('c:short', '%s: an anomaly is delivered although its context is not complete, no other anomaly follows and the source is not exhausted' % at, st)
        return Proc.queue(self, e, st, x, at)
    def created(self, e, st, val, at):
        v = e.snap(st, val)
        if v.k == 'adt' and v.a[0] == OPT and v.a[1] == 1:
            v = v.a[2]
        if v.k == 'adt' and v.a[0] == self.AC:
            a = v.a[2 + self.acf.index('after')]
            if a.k == 'empty':
                bf = v.a[2 + self.acf.index('before')]
                self.before(e, st, bf, at)
                st.store[GS] = self.ghost(st, GV)
        Proc.created(self, e, st, val, at)
    # ---- lines that were read before
    def used(self, e, st, x, c):
        """Lines of the previous chunk are used."""
        b = e.content(st, x)
        b = e.snap(st, b.a[0] if b.k == 'slice' else b)
        for q in self.left:
            y = e.snap(st, e.read(st, self.at(q)))
            if b is y and y.k != 'empty' and not any(b is x for x in self.buffer(e, st)):
                self.ctx.count('leftovers_used')
                shown, far = e.snap(st, self.ghost(st, GS)), e.snap(st, self.sub(e.snap(st, self.ghost(st, GV)), 4))
                none = e.known(st, shown) is E.I(0) or e.known(st, E.simp_op('Eq', shown, E.I(0))) is TRUE or self.ge(e, st, far, shown) and e.known(st, E.simp_op('Eq', far, E.I(0))) is TRUE
                if not none and ('from', 'zero') not in st.auto:
                    self.say('c:stale', '%s: lines of the previous chunk are shown before an anomaly although lines of this chunk were already shown' % where(self.p, c.fnkey, c.block), st)
    def sep(self, st, *x):
        """Keeps the outcomes of a comparison of positions apart until they were used."""
        st.auto = st.auto | {('sep',) + x}
    def sub(self, x, n):
        return E.simp_op('Add', x, E.I(-n))
    def ge(self, e, st, x, y):
        x, y = e.snap(st, x), e.snap(st, y)
        return x is y or y is E.I(0) or self.atleast(e, st, x, y)
    def lt(self, e, st, x, y):
        if self.atleast(e, st, x, y):
            return False
        for op, u, w in (('Lt', x, y), ('Gt', y, x)):
            if e.known(st, E.simp_op(op, u, w)) is TRUE:
                return True
        return any(e.known(st, E.simp_op(op, u, w)) is FALSE for op, u, w in (('Ge', x, y), ('Le', y, x)))
    def peek(self, e, st, lo, hi, n, at):
        """lo..hi of the buffer are looked at as lines that come before an anomaly (of this chunk, or of the next one)."""
        v, s = e.snap(st, self.ghost(st, GV)), e.snap(st, self.ghost(st, GS))
        lo, hi, n = e.snap(st, lo), e.snap(st, hi), e.snap(st, n)
        self.ctx.count('looks_back')
        if hi is not n and hi is not e.snap(st, self.sub(v, 1)):
            self.say('c:where', '%s looks at lines of the buffer which are not the last ones before the anomaly' % at, st)
            return
        far = e.snap(st, self.sub(hi, 3))
        same = lo is s or e.known(st, E.simp_op('Eq', lo, s)) is TRUE
        if not (same or self.ge(e, st, lo, s)):
            self.say('c:again', '%s: lines that were already shown may be shown again before an anomaly (from %s, shown up to %s)' % (at, lo, s), st)
        near = self.lt(e, st, hi, E.I(3))
        if not (lo is far or near or self.ge(e, st, lo, far)):
            self.say('c:far', '%s: more than three lines may be shown before an anomaly (from %s to %s)' % (at, lo, hi), st)
        if not (lo is far or same or near and lo is E.I(0)):
            self.say('c:lost', '%s: lines before an anomaly are left out of its context (from %s, shown up to %s)' % (at, lo, s), st)
        self.rm(st, 'sep', 'from')
        if hi is not n:
            self.add(st, 'from', 'zero' if e.known(st, s) is E.I(0) else 'shown' if same else 'far')
    def before(self, e, st, bf, at):
        self.rm(st, 'sep', 'from')
    def on_write(self, e, st, loc, val, fnkey, block):
        p = self.path(loc)
        if p is not None and p in self.kinds['buffer'] and val.k != 'obj' and (e.prev is not val or val.k == 'empty'):
            self.emptied(e, st, where(self.p, fnkey, block))
            return
        Proc.on_write(self, e, st, loc, val, fnkey, block)

def run(ctx):
    ctx.rule('Abstract interpretation of ChunkProcessor::next over all sources, with two ghost counters: the number of lines of the buffer that were passed over, and the end of those that were shown. An affine congruence domain relates them to the positions of the code. '
             'While an anomaly is pending every line passed over is added to its context, once, unless it is the next anomaly; the context is closed at three lines, at the next anomaly, or when the source is exhausted and every line that was read has been passed over; the buffer is emptied only after that. '
             'Lines taken from the buffer for the context before an anomaly start at or after the end of those shown, reach back three lines at most and no line less, and end at the anomaly (or at the end of the buffer, for the next chunk); lines of the previous chunk are taken only when no line of this chunk was shown.')
    q, _ = analyse(Quiet(ctx), 'lines')
    if not ctx.need(q is not None and {'buffer'} <= set(q.kinds), 'the buffer of lines of ChunkProcessor'):
        return
    p = ctx.prog()
    sim = Sim(ctx, p)
    root = q.root
    cl = Ctx(ctx, p, root, q.kinds)
    cl.left = [(('f', i),) for i, x in enumerate(cl.fields) if re.match(r'(std|alloc)::vec::Vec<(std|alloc)::string::String', x[1]) and (('f', i),) not in q.kinds['targets']]
    cl.thresholds, cl.limits, cl.fulls, cl.parts = set(), set(), set(), set()
    s0 = E.St()
    s0.auto = cl.init()
    s0.store[GV] = s0.store[GS] = E.I(0)
    e, outs = sim.run(root, cl, st=s0, interest=lambda n: PEVENTS(n) or n.endswith('::iter'), also=proc_fns(p))
    for st, v in outs:
        r = e.content(st, v)
        ctx.count('return_paths')
        if E.is_some(r) and E.is_err(e.content(st, r.a[2])):
            continue
        cl.endvisit(e, st, 'the return')
        for g, w in ((GV, 'visited'), (GS, 'shown')):
            if cl.ghost(st, g) is not E.I(0):
                cl.say('c:again', 'returns while lines of the buffer were %s, which is still kept' % w, st)
    for k, m in cl.bad.items():
        if k.startswith('c:'):
            ctx.viol(k, m)
    if cl.limits | cl.fulls != {3} or any(x > 3 for x in cl.parts):
        ctx.viol('c:limit', 'the context after an anomaly is complete at %s lines, not at 3' % ' or '.join(map(str, sorted(cl.limits | cl.fulls) or ['an unknown number of'])))
    for k in ('line_visits', 'lines_after', 'looks_back', 'leftovers_used', 'buffers_emptied', 'contexts_closed', 'anomalies_created'):
        ctx.floor(k, 3)
    ctx.assumptions.append('the order of the lines inside one context, and how many of the left-over lines are taken, are not decided')
