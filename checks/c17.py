"""The line reader: nothing is lost but separators and over-long lines, and errors are reported.

Ghost of the buffer (its place holds one of)
  vbuf(0, n)        n bytes of the reader
  vbuf(1, n, t)     n bytes of the reader followed by padding, t bytes in total (after resize)
Automaton facts
  ('read', k)       the last read of this call gave k: some, eof or err
  ('drop',)         the line at hand is over the limit: its text is being thrown away
  ('held',)         a piece was cut from the buffer and not delivered yet
  ('chunk',)        what was read lies in a chunk of its own and was not put in the buffer yet
  ('fit',) ('empty',)  the buffer at hand is known to be within the limit, to hold nothing
  ('long',)         it is not known to be within the limit"""
from common import *
import models

HELD = ('D', mk('call', 'held'))
GOT = ('D', mk('call', 'got'))
IS_BUF = re.compile(r'\bbytes::BytesMut\b')

def zero(e, st, n):
    n = strip(n)
    return n.k == 'i' and n.a[0] == 0 or e.known(st, E.simp_op('Eq', n, E.I(0))) is TRUE or e.known(st, E.simp_op('Lt', E.I(0), n)) is FALSE

def strip(t):
    while t.k == 'deref':
        t = t.a[0]
    if t.k == 'op' and t.a[0] == 'Add':
        a, b = strip(t.a[1]), strip(t.a[2])
        if a is not t.a[1] or b is not t.a[2] or E.I(0) in (a, b):
            return add(a, b)
    return t

def add(a, b):
    a, b = strip(a), strip(b)
    for x, y in ((a, b), (b, a)):
        if y.k == 'i' and y.a[0] == 0:
            return x
    return E.simp_op('Add', a, b)

def is_add(t, a, b):
    t, a, b = strip(t), strip(a), strip(b)
    return t is add(a, b) or t is add(b, a)

class Reader(Client):
    templates = True
    def __init__(self, ctx, prog, root):
        self.ctx, self.p, self.root = ctx, prog, root
        self.bad = {}
        fs = prog.adts['logreduce_iterator::BytesLines']['variants'][0]['f']
        # the fields that record how far the reader is: the others do not partition the states
        self.modes = [i for i, (n, t) in enumerate(fs) if t in prog.adts and prog.adts[t]['kind'] == 'enum']
        self.bufref = mk('ref', (('D', param(root, 0)), (('f', None, [i for i, (x, t) in enumerate(fs) if IS_BUF.search(t.replace('::bytes_mut', ''))][0]),)))
        self.limits = [i for i, (n, t) in enumerate(fs) if t == 'usize']
    def skel_skip(self, root, proj):
        return root[0] == 'D' and root[1] is param(self.root, 0) and proj[0] == 'f' and proj[2] not in self.modes
    def init(self):
        return frozenset({('self', param(self.root, 0)), ('slot', HELD[1]), ('slot', GOT[1])})
    def say(self, key, msg, st=None):
        self.bad.setdefault(key, '%s: %s%s' % (self.p.display(self.root), msg, '\n' + st.trail() if st else ''))
    def get(self, st, k):
        return [x for x in st.auto if x[0] == k]
    def put(self, st, *x):
        st.auto = frozenset(y for y in st.auto if y[0] != x[0]) | {x}
    def rm(self, st, k):
        st.auto = frozenset(y for y in st.auto if y[0] != k)
    def skel_extra(self, e, st):
        return tuple(sorted(str(x[0]) + str(x[1] if x[0] == 'read' else '') for x in st.auto))
    # ---- ghost
    def buf(self, e, st, a):
        v = e.content(st, a)
        if not (v.k == 'adt' and v.a[0] == 'vbuf'):
            v = mk('adt', 'vbuf', 0, mk('call', 'blen', v))
        if zero(e, st, v.a[2]):
            v = mk('adt', 'vbuf', v.a[1], E.I(0), *v.a[3:])
        return v
    def clean(self, n):
        return mk('adt', 'vbuf', 0, n)
    def place(self, e, st, a):
        return e.deep(st, a) if a.k != 'ref' else a
    def over(self, e, st, n):
        """Is it known that n is over a limit?"""
        n = strip(n)
        for k, v in st.facts.items():
            if k.k == 'op' and k.a[0] in ('Lt', 'Le') and len(k.a) == 3:
                a, b = strip(k.a[1]), strip(k.a[2])
                if b is n and v is TRUE and self.limit(a) or a is n and v is FALSE and self.limit(b):
                    return True
        return False
    def within(self, e, st, n):
        n = strip(n)
        if n.k == 'i' and n.a[0] == 0:
            return True
        for k, v in st.facts.items():
            if k.k == 'op' and k.a[0] in ('Lt', 'Le') and len(k.a) == 3:
                a, b = strip(k.a[1]), strip(k.a[2])
                if b is n and v is FALSE and self.limit(a) or a is n and v is TRUE and self.limit(b):
                    return True
        return zero(e, st, n)
    def limit(self, t):
        """A bound that comes from a field of the reader, or a constant over a hundred."""
        if t.k == 'i':
            return t.a[0] > 100
        return any(x is param(self.root, 0) for x in subterms(t)) and not any(x.k == 'call' for x in subterms(t))
    def chunk_end(self, st):
        if self.get(st, 'chunk'):
            self.say('chunk', 'data that was read is not put in the buffer', st)
            self.rm(st, 'chunk')
    def held_end(self, e, st, line=False):
        self.on_branch(e, st, None, None)
        if self.get(st, 'held') and not line:
            self.say('held', 'a line is cut from the buffer and never delivered', st)
        self.rm(st, 'held')
    def on_branch(self, e, st, term, val):
        v = self.buf(e, st, self.bufref)
        for k, f in (('fit', self.within), ('empty', zero)):
            if not self.get(st, k) and f(e, st, v.a[2]):
                self.put(st, k)
        n = st.store.get(HELD, E.I(1))
        if self.get(st, 'held') and zero(e, st, n):
            self.rm(st, 'held')
        if self.get(st, 'long') and self.within(e, st, n):
            self.rm(st, 'long')
    def use(self, e, st, v, c):
        self.ctx.count('buffer_uses')
        if v.a[1]:
            self.say('padding', 'the padding of the buffer is taken for data (%s at %s)' % (c.name, where(self.p, c.fnkey, c.block)), st)
    def on_call(self, e, st, c):
        if c.decl.startswith('std::io::Read::') or c.name.startswith('std::io::') and c.name.endswith(('::read', '::read_to_end', '::read_exact')):
            return self.do_read(e, st, c)
        if c.aty and IS_BUF.search(c.aty[0]) and 'Vec<' not in c.aty[0]:
            return self.buffer(e, st, c)
        if c.args and c.name in ('bytes::BytesMut::freeze', 'bytes::BytesMut::into', 'bytes::Bytes::from', 'bytes::Bytes::into'):
            x = e.content(st, c.args[0])
            if x.k == 'call' and x.a[0] == 'line':
                return [(st, x)]
        if c.args and c.name in ('bytes::Bytes::is_empty', 'bytes::Bytes::len'):
            x = e.content(st, c.args[0])
            if x.k == 'call' and x.a[0] == 'line':
                n = strip(x.a[1])
                return [(st, n if c.name.endswith('len') else E.simp_op('Eq', n, E.I(0)))]
        if c.name in ('[T]::index', '[T]::index_mut') and c.args:
            x = e.content(st, c.args[0])
            r = e.content(st, c.args[1])
            if x.k == 'call' and x.a[0] == 'bview' and r.k == 'adt':
                lo = strip(r.a[2]) if 'From' in r.a[0] or r.a[0].endswith('::Range') else E.I(0)
                return [(st, models.tmpref(e, st, mk('call', 'bview', x.a[1], add(x.a[2], lo), x.a[3]), c.site + ('ix',)))]
        return None
    def buffer(self, e, st, c):
        op = c.name.split('::')[-1]
        a = c.args[0]
        x = e.content(st, a)
        if x.k == 'call' and x.a[0] == 'line':
            n = strip(x.a[1])
            if op == 'freeze' or op in ('into', 'from'):
                return [(st, x)]
            if op in ('len', 'is_empty'):
                return [(st, n if op == 'len' else E.simp_op('Eq', n, E.I(0)))]
            return None
        if c.dty and IS_BUF.search(str(c.dty)) and op in ('with_capacity', 'new', 'zeroed'):
            return None
        v = self.buf(e, st, a)
        total = v.a[3] if v.a[1] else v.a[2]
        loc = self.place(e, st, a).a[0] if self.place(e, st, a).k == 'ref' else None
        if op == 'len':
            return [(st, total)]
        if op == 'is_empty':
            return [(st, E.simp_op('Eq', total, E.I(0)))]
        if op in ('reserve', 'capacity', 'reserve_inner'):
            return [(st, e.fresh(st, c.site, 'cap'))]
        if op in ('deref_mut', 'as_mut'):
            return [(st, models.tmpref(e, st, mk('call', 'bview', v, E.I(0), mk('ref', loc) if loc else a), c.site + ('view',)))]
        if op in ('as_ref', 'deref', 'chunk', 'borrow', 'iter', 'to_vec', 'eq'):
            self.use(e, st, v, c)
            if op in ('iter', 'to_vec', 'eq'):
                return None
            return [(st, models.tmpref(e, st, mk('call', 'bview', v, E.I(0), mk('ref', loc) if loc else a), c.site + ('view',)))]
        self.ctx.need(loc is not None, 'the place of the buffer at %s' % where(self.p, c.fnkey, c.block))
        def done(w, r=None):
            e.write(st, loc, w)
            if strip(w.a[2]) is not strip(v.a[2]):
                self.rm(st, 'fit')
                self.rm(st, 'empty')
            self.on_branch(e, st, None, None)
            return [(st, r if r is not None else E.UNIT)]
        n = strip(e.snap(st, c.args[1])) if len(c.args) > 1 else None
        if op == 'resize':
            if v.a[1]:
                self.use(e, st, v, c)
            self.ctx.count('buffer_growths')
            if n is strip(v.a[2]):
                return done(v)
            return done(mk('adt', 'vbuf', 1, v.a[2], n))
        if op == 'truncate':
            if v.a[1]:
                if n is strip(v.a[2]) or is_add(n, v.a[2], E.I(0)):
                    return done(self.clean(v.a[2]))
                self.say('cut', 'the buffer is cut at %s, but it holds %s bytes of the reader (%s)' % (n, v.a[2], where(self.p, c.fnkey, c.block)), st)
                return done(self.clean(n))
            if n is not strip(v.a[2]):
                self.discard(e, st, v, E.simp_op('Sub', v.a[2], n) if not zero(e, st, n) else v.a[2], c)
            return done(self.clean(n))
        if op == 'clear':
            self.use(e, st, v, c)
            self.discard(e, st, v, v.a[2], c)
            return done(self.clean(E.I(0)))
        if op in ('split_to', 'split', 'copy_to_bytes', 'split_off'):
            self.use(e, st, v, c)
            self.held_end(e, st)
            if op == 'split':
                n = strip(v.a[2])
            self.ctx.count('cuts')
            x = mk('call', 'line', n)
            self.rm(st, 'long')
            if not zero(e, st, n):
                self.put(st, 'held')
                if not self.within(e, st, n) and not (n is strip(v.a[2]) and self.get(st, 'fit')):
                    self.put(st, 'long')
            st.store[HELD] = n
            rest = E.I(0) if n is strip(v.a[2]) else E.simp_op('Sub', v.a[2], n)
            if op == 'split_off':
                self.say('tail', 'the end of the buffer is cut off', st)
            return done(self.clean(rest), x)
        if op == 'advance':
            self.use(e, st, v, c)
            self.discard(e, st, v, n, c)
            rest = E.I(0) if n is strip(v.a[2]) else E.simp_op('Sub', v.a[2], n)
            return done(self.clean(rest))
        if op in ('extend_from_slice', 'put_slice', 'put', 'extend'):
            self.use(e, st, v, c)
            s = e.content(st, c.args[1])
            r = self.get(st, 'read')
            k = strip(s.a[2]) if s.k == 'slice' else None
            if k is None or not zero(e, st, s.a[1]) or not (zero(e, st, k) or r and r[0][1] == 'some' and k is st.store.get(GOT)):
                self.say('append', 'something else than what was read is put in the buffer', st)
                k = e.fresh(st, c.site + ('len',), 'blen')
            st.store.pop(GOT, None)
            self.rm(st, 'chunk')
            return done(self.clean(add(v.a[2], k)))
        self.ctx.need(op in ('fmt', 'drop', 'clone'), 'a model of BytesMut::%s' % op)
        return None
    def discard(self, e, st, v, n, c):
        """n bytes at the start of the buffer are thrown away."""
        self.ctx.count('discards')
        n, L = strip(n), strip(v.a[2])
        if n.k == 'i' and n.a[0] <= 2:
            return                                  # a separator
        whole = n is L or n.k == 'op' and n.a[0] == 'Sub' and strip(n.a[1]) is L or n.k == 'op' and n.a[0] == 'Add' and strip(n.a[1]) is L and n.a[2].k == 'i' and n.a[2].a[0] < 0
        if whole:
            if zero(e, st, L) or self.get(st, 'drop') or self.over(e, st, L):
                self.put(st, 'drop')
            else:
                self.say('discard', 'the buffer is thrown away although the line at hand may be within the limit (%s)' % where(self.p, c.fnkey, c.block), st)
            return
        base = n.a[1] if n.k == 'op' and n.a[0] == 'Add' and n.a[2].k == 'i' and n.a[2].a[0] <= 2 else n
        ok_ = self.get(st, 'drop') or self.over(e, st, base) or self.over(e, st, n)
        if not ok_ and n.k == 'op' and n.a[0] == 'Add' and n.a[2].k == 'i':
            # the separator may be split from its position: pos = at - 1, pos + 2
            ok_ = any(self.over(e, st, E.simp_op('Add', n.a[1], E.I(n.a[2].a[0] - d))) for d in (1, 2))
        if not ok_:
            self.say('skip', 'a part of the buffer is skipped although it is not known to be over the limit: %s (%s)' % (n, where(self.p, c.fnkey, c.block)), st)
        self.rm(st, 'drop')
    # ---- the reader
    def do_read(self, e, st, c):
        self.ctx.count('reads_interpreted')
        r = self.get(st, 'read')
        if r and r[0][1] == 'err':
            self.say('retry', 'reads again after a failed read, whose error is lost', st)
        self.held_end(e, st)
        self.chunk_end(st)
        if c.decl != 'std::io::Read::read':
            self.ctx.need(False, 'a model of %s' % c.decl)
        x = e.content(st, c.args[1])
        view = x.k == 'call' and x.a[0] == 'bview'
        out = []
        loc = v = None
        if view:
            loc = x.a[3].a[0] if x.a[3].k == 'ref' else None
            v = self.buf(e, st, x.a[3])
            if not v.a[1]:
                self.say('over', 'the read overwrites data of the buffer (%s)' % where(self.p, c.fnkey, c.block), st)
            elif not (strip(x.a[2]) is strip(v.a[2]) or zero(e, st, v.a[2]) and zero(e, st, x.a[2])):
                self.say('place', 'the read goes to offset %s of the buffer, but it holds %s bytes (%s)' % (x.a[2], v.a[2], where(self.p, c.fnkey, c.block)), st)
        for k in ('some', 'eof', 'err'):
            s2 = st.copy()
            self.put(s2, 'read', k)
            if k == 'err':
                x2 = e.fresh(s2, c.site + ('e',), 'ioerror')
                out.append((s2, err(x2)))
                continue
            if k == 'eof':
                out.append((s2, ok(E.I(0))))
                continue
            n = e.fresh(s2, c.site + ('n',), 'count')
            e.assume(s2, E.simp_op('Lt', E.I(0), n), TRUE)
            e.assume(s2, E.simp_op('Eq', n, E.I(0)), FALSE)
            if not view:
                self.put(s2, 'chunk')
                s2.store[GOT] = n
            if view and loc is not None and v.a[1]:
                self.rm(s2, 'fit')
                self.rm(s2, 'empty')
                v = self.buf(e, s2, mk('ref', loc))
                e.write(s2, loc, mk('adt', 'vbuf', 1, add(v.a[2], n), v.a[3]))
            out.append((s2, ok(n)))
        return out

def run(ctx):
    p = ctx.prog()
    ctx.rule('Rule: in BytesLines::next, interpreted with a ghost of the buffer: the reader writes right after the bytes at hand, and the padding is cut before the buffer is used; a piece cut from the buffer is delivered unless it is empty; '
             'other bytes are dropped only as a separator or when the line is known to be over the limit; the end is reported, or recorded in a field, only after a read gave 0 bytes, with nothing left in the buffer; '
             'a failed read is returned as an error before anything else is read; a delivered line is known to be within the limit.')
    k = p.iter_impls.get('logreduce_iterator::BytesLines')
    if not ctx.need(k, 'the iterator of logreduce_iterator::BytesLines'):
        return
    cl = Reader(ctx, p, k)
    e, outs = Sim(ctx, p).run(k, cl, interest=lambda n: n.startswith('bytes::') or 'io::Read' in n, maxstates=600)
    self0 = param(k, 0)
    # what makes the iterator finished: the value of a field that ends it without a read
    def modes(st):
        me = e.content(st, self0)
        for i in cl.modes:
            yield i, me, getproj(me, ('f', None, i))
    fin = set()
    for st, v in outs:
        if e.snap(st, v) is NONE and not cl.get(st, 'read'):
            ctx.count('ends_without_read')
            for k2, v2 in st.facts.items():
                if k2.k == 'discr' and k2.a[0].k == 'fld' and k2.a[0].a[0] is mk('deref', self0) and v2.k == 'i':
                    fin.add((k2, v2))
    # a value that also occurs in other outcomes does not mean that the end was seen
    for st, v in outs:
        if e.snap(st, v) is not NONE or cl.get(st, 'read'):
            fin = {(k2, v2) for k2, v2 in fin if st.facts.get(k2) is not v2}
    ctx.cov['final_states'] = len(fin)
    adts = p.adts['logreduce_iterator::BytesLines']['variants'][0]['f']
    def finished(st):
        for i, me, f in modes(st):
            if f is None:
                continue
            d = E.I(f.a[1]) if f.k == 'adt' else st.facts.get(mk('discr', f, adts[i][1]))
            ty = p.adts[adts[i][1]]
            if d is not None and any(j.a[0].a[-1] == i and d is n for j, n in fin):
                return True
        return False
    n = {}
    for st, v in outs:
        r = e.snap(st, v)
        rd = cl.get(st, 'read')
        rd = rd[0][1] if rd else None
        cl.chunk_end(st)
        cl.held_end(e, st, r is not NONE)
        b = cl.buf(e, st, cl.bufref)
        if b.a[1]:
            cl.say('padding', 'returns with padding in the buffer', st)
        what = 'end' if r is NONE else 'error' if r.k == 'adt' and r.a[1] == 1 and r.a[2].k == 'adt' and r.a[2].a[1] == 1 else 'line' if r.k == 'adt' and r.a[1] == 1 and r.a[2].k == 'adt' else '?'
        n[what] = n.get(what, 0) + 1
        if not ctx.need(what != '?', 'what BytesLines::next returns: %s' % r):
            continue
        if rd == 'err' and what != 'error':
            cl.say('error', 'a failed read is not reported', st)
        if what == 'error' and rd != 'err':
            cl.say('noerror', 'an error is returned although no read failed', st)
        was = any(st.facts.get(j) is m for j, m in fin)
        over = rd == 'eof' or was
        if what == 'end' and not over:
            cl.say('end', 'the end is reported although the reader did not reach it', st)
        if not over and finished(st):
            cl.say('finished', 'the reader is marked as finished before its end was reached', st)
        if rd == 'eof' and (what == 'end' or finished(st)) and not (zero(e, st, b.a[2]) or cl.get(st, 'empty') or cl.get(st, 'drop')):
            cl.say('rest', 'the end of the file without a line return is not delivered', st)
        if what == 'line':
            if cl.get(st, 'long'):
                cl.say('long', 'a line is delivered although it is not known to be within the limit', st)
    for x, m in cl.bad.items():
        ctx.viol(x, m)
    for k2, v2 in n.items():
        ctx.cov['outcomes_' + k2] = v2
    ctx.need(n.get('end') and n.get('error') and n.get('line'), 'a line, an error and the end among the outcomes of BytesLines::next')
    ctx.floor('reads_interpreted', 2)
    ctx.floor('cuts', 2)
    ctx.floor('discards', 2)
