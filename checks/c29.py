"""The crawler as an iterator: every message is handed out, the end comes after the work is over.

Automaton facts
  ('idle',)     no task was running or waiting at a point of this call
  ('calm',)     no task had panicked
  ('drained',)  no message was there after the idle point
  ('msg', r)    the result r was received and is to be returned
  ('panic',)    a task panicked"""
from crawl import *

def strip(t):
    while t.k == 'deref':
        t = t.a[0]
    return t

class Iter(Client):
    keep_init = True
    def __init__(self, ctx, prog, root):
        self.ctx, self.p, self.root = ctx, prog, root
        self.bad = {}
    def init(self):
        return frozenset({('self', param(self.root, 0))})
    def say(self, key, msg, st=None):
        self.bad.setdefault(key, '%s: %s%s' % (self.p.display(self.root), msg, '\n' + st.trail() if st else ''))
    def get(self, st, k):
        return [x for x in st.auto if x[0] == k]
    def add(self, st, *x):
        st.auto = st.auto | {x}
    def rm(self, st, *ks):
        st.auto = frozenset(x for x in st.auto if x[0] not in ks)
    def lost(self, st):
        if self.get(st, 'msg'):
            self.say('lost', 'a message of a task is dropped', st)
        self.rm(st, 'msg')
    def on_branch(self, e, st, term, val):
        a, q, n = mk('call', 'active'), mk('call', 'queued'), mk('call', 'panics')
        z = lambda t: e.known(st, E.simp_op('Eq', t, E.I(0))) is TRUE or e.known(st, E.simp_op('Lt', E.I(0), t)) is FALSE
        if not self.get(st, 'idle') and (z(E.simp_op('Add', a, q)) or z(E.simp_op('Add', q, a)) or z(a) and z(q)):
            self.add(st, 'idle')
            self.ctx.count('idle_points')
        if not self.get(st, 'calm') and z(n):
            self.add(st, 'calm')
    def forget(self, st, *ts):
        st.facts = {k: v for k, v in st.facts.items() if not any(y in ts for y in subterms(k))}
    def on_call(self, e, st, c):
        n = c.name
        last = n.rsplit('::', 1)[-1]
        if n.startswith('threadpool::ThreadPool::'):
            t = {'active_count': 'active', 'queued_count': 'queued', 'panic_count': 'panics'}.get(last)
            if t:
                t = mk('call', t)
                self.forget(st, t)
                return [(st, t)]
            if last == 'join':
                self.add(st, 'idle')
                return [(st, E.UNIT)]
        if n.startswith('std::sync::mpsc::Receiver::'):
            self.lost(st)
            self.ctx.count('receives')
            block = last == 'recv'
            if last not in ('try_recv', 'recv', 'recv_timeout'):
                self.ctx.need(False, 'a model of Receiver::%s in the iterator' % last)
                return None
            s1, s2, s3, s4 = st.copy(), st.copy(), st.copy(), st.copy()
            f = e.fresh(s1, c.site + ('msg',), 'msg')
            self.add(s1, 'msg', mk('call', 'file', f))
            x = mk('call', 'fault', e.fresh(s2, c.site + ('flt',), 'flt'))
            self.add(s2, 'msg', x)
            if self.get(s4, 'idle'):
                self.add(s4, 'drained')
            if block:
                # blocks for ever when nothing is left: the sender of the crawler may be alive
                if self.get(s4, 'idle'):
                    self.say('block', 'waits for a message without a limit, although no task may be left to send one', st)
            return [(s4, err(e.fresh(s4, c.site + ('none',), 'none'))), (s3, ok(NONE)), (s1, ok(some(ok(mk('call', 'file', f))))), (s2, ok(some(err(x))))]
        return None

def run(ctx):
    p = ctx.prog()
    ctx.rule('Rule: in the iterator of Crawler::walk, every result received from a task is returned at once; the end is returned only when, earlier in the same call, no task was running or waiting, a later look found no message, and no task had panicked - '
             'or when the iterator was marked as aborted, which only happens while it returns an error of its own.')
    k = p.iter_impls.get('httpdir::CrawlerIter')
    if not ctx.need(k, 'the iterator of httpdir::CrawlerIter'):
        return
    cl = Iter(ctx, p, k)
    e, outs = Sim(ctx, p).run(k, cl, interest=EVENTS)
    self0 = param(k, 0)
    fs = p.adts['httpdir::CrawlerIter']['variants'][0]['f']
    flags = [i for i, (n, t) in enumerate(fs) if t == 'bool']
    n = {}
    marks = set()
    for st, v in outs:
        r = e.snap(st, v)
        what = 'end' if r is NONE else 'result' if r.k == 'adt' and r.a[1] == 1 else '?'
        n[what] = n.get(what, 0) + 1
        if not ctx.need(what != '?', 'what the iterator returns: %s' % r):
            continue
        m = cl.get(st, 'msg')
        if m and not any(y is m[0][1] for y in subterms(r)):
            cl.say('lost', 'a message of a task is dropped', st)
        if what == 'result' and not m and not E.is_err(r.a[2]):
            cl.say('made-up', 'returns %s, which no task sent' % r, st)
        if what == 'end':
            fl = [i for i in flags if st.facts.get(mk('fld', mk('deref', self0), 0, i)) is TRUE]
            done = cl.get(st, 'idle') and cl.get(st, 'drained') and cl.get(st, 'calm')
            if not done and not fl:
                cl.say('end' if not cl.get(st, 'idle') else 'order' if not cl.get(st, 'drained') else 'panic',
                       'the end is returned although %s' % ('a task may still be at work' if not cl.get(st, 'idle') else 'a message may have come before the tasks were over' if not cl.get(st, 'drained') else 'a task may have panicked'), st)
            if not done:
                marks |= set(fl)
    ctx.cov['marks'] = len(marks)
    for st, v in outs:
        r = e.snap(st, v)
        me = e.content(st, self0)
        for i in marks:
            f = getproj(me, ('f', None, i))
            same = f is None or f is FALSE or f.k == 'fld' and f.a[-1] == i and strip(f.a[0]) is self0
            if not same and not (r.k == 'adt' and r.a[1] == 1 and E.is_err(r.a[2]) and not cl.get(st, 'msg')) and st.facts.get(mk('fld', mk('deref', self0), 0, i)) is not TRUE:
                cl.say('mark', 'the iterator is marked as over while it returns %s' % r, st)
    for x in n:
        ctx.cov['outcomes_' + x] = n[x]
    for x, m in cl.bad.items():
        ctx.viol(x, m)
    ctx.need(n.get('end') and n.get('result'), 'an end and a result among the outcomes of the iterator')
    ctx.floor('receives', 1)
    ctx.floor('idle_points', 1)
