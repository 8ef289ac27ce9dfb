"""A cache entry becomes visible only when it is complete."""
from cachefs import *

READ = 'std::io::Read::read'
EV = lambda n: FS(n) or n.startswith(('std::io::Read::', 'std::io::Write::', 'flate2::', 'bincode::', 'std::io::BufWriter'))
PUBLISH = rx(r'^std::fs::(rename|hard_link|copy)$', r'NamedTempFile::persist')

class Rec(CacheFs):
    """auto = (self term kept alive, call events of the current read, cache file events)"""
    def __init__(self, keep, buf, bad, p):
        self.keep, self.buf, self.bad, self.p = keep, buf, bad, p
    def init(self):
        return (self.keep, (), ())
    def ev(self, st, *x):
        k, evs, fs = st.auto
        if x not in evs:
            st.auto = (k, evs + (x,), fs)
    def fsevents(self, st):
        return st.auto[2]
    def rec(self, st, *x):
        k, evs, fs = st.auto
        if x not in fs:
            st.auto = (k, evs, tuple(sorted(set(fs) | {x}, key=repr)))
    def on_call(self, e, st, c):
        n, d = c.name, c.decl
        own = c.fn and c.fn.get('body') in self.p.fns and not self.p.fns[c.fn['body']]['ext']
        if d == READ and not own:
            r = e.fresh(st, c.site, 'inner')
            self.ev(st, 'read', r)
            return [(st, r)]
        if d.startswith('std::io::Write::write') and not own:
            data = e.snap(st, c.args[1])
            s2 = st.copy()
            if d.endswith('write_all'):
                self.ev(st, 'wrote', data)
            self.ev(s2, 'fail', 'write')
            return [(st, ok(E.UNIT if d.endswith('write_all') else e.fresh(st, c.site, 'count'))), (s2, err(e.fresh(s2, c.site, 'io')))]
        if d == 'std::io::Write::flush' or n.endswith('BufWriter::into_inner'):
            s2 = st.copy()
            self.ev(st, 'flush')
            return [(st, ok(E.UNIT)), (s2, err(e.fresh(s2, c.site, 'io')))]
        if n.startswith('flate2::') and n.rsplit('::', 1)[-1] in ('finish', 'try_finish'):
            s2 = st.copy()
            self.ev(st, 'finish', S('buffered' if 'BufWriter' in repr(c.dty) + repr(c.aty) else 'direct'))
            self.ev(s2, 'fail', 'finish')
            return [(st, ok(e.fresh(st, c.site, 'file'))), (s2, err(e.fresh(s2, c.site, 'io')))]
        if n.startswith('bincode::') and 'serialize' in n and 'deserialize' not in n:
            s2 = st.copy()
            if n.endswith('serialize_into'):
                self.ev(st, 'finish', S('buffered' if 'BufWriter' in repr(c.aty) + repr(c.fn.get('targs')) else 'direct'))
                return [(st, ok(E.UNIT)), (s2, err(e.fresh(s2, c.site, 'bincode')))]
            return None
        if PUBLISH(n):
            self.publish(e, st, c)
        return CacheFs.on_call(self, e, st, c)
    def publish(self, e, st, c):
        evs = st.auto[1]
        w = where(self.p, c.fnkey, c.block)
        if not n_ok(c.name):
            self.bad['publish:' + c.name] = '%s publishes a cache entry with %s, which is not atomic' % (w, c.name)
        fin = [x for x in evs if x[0] == 'finish']
        if not fin:
            self.bad['unfinished'] = '%s publishes a cache entry that was not completely written (no successful finish before)' % w
        elif fin[-1][1].a[0] == 'buffered' and ('flush',) not in evs[evs.index(fin[-1]):]:
            self.bad['unflushed'] = '%s publishes a cache entry whose last data may still be buffered' % w
        if any(x[0] == 'fail' for x in evs):
            self.bad['after-failure'] = '%s publishes a cache entry after a failed %s' % (w, [x[1] for x in evs if x[0] == 'fail'])
        if self.buf is not None:
            rs = [x[1] for x in evs if x[0] == 'read']
            if not rs:
                self.bad['no-eof'] = '%s publishes the cache entry without having seen the end of the remote data' % w
            for r in rs:
                if e.known(st, mk('discr', r, RES)) is not E.I(0) or e.known(st, getproj(r, ('f', 0, 0))) is not E.I(0):
                    self.bad['no-eof'] = '%s publishes the cache entry although the remote read did not report the end of the data' % w
            if e.known(st, E.simp_op('Eq', mk('call', 'len', self.buf), E.I(0))) is not FALSE:
                self.bad['empty-buffer'] = '%s takes a zero-length read into an empty buffer for the end of the data' % w

def n_ok(n):
    return n == 'std::fs::rename' or n.endswith('persist')

from engine import S

def run(ctx):
    ctx.rule('Rule: typestate over all paths of the recording reader: the entry is published (renamed into place) only in a call where the remote read returned Ok(0) on a '
             'non-empty buffer and the encoder finished successfully; from any state left by a failed call or by delivered-but-unrecorded bytes no later call '
             'reaches the publication (two-step product analysis from an arbitrary reader state); listings are published only after a successful serialisation; '
             'nothing is created or written at the published path; destructors never publish.')
    p = ctx.prog()
    sim = Sim(ctx, p)
    key = p.trait_impls.get(('std::io::Read', 'read', next((a for (t, m, a) in p.trait_impls if t == 'std::io::Read' and a.endswith('CacheReader')), '')))
    if not ctx.need(key, 'Read for CacheReader'):
        return
    self_ = param(key, 0)
    bad = {}
    # one call, from an arbitrary reader state
    cl = Rec(self_, param(key, 1), bad, p)
    e, out = sim.run(key, cl, interest=EV)
    published = 0
    for s, v in out:
        ctx.count('read_outcomes')
        evs = s.auto[1]
        if any(x[0] == 'rename' for x in s.auto[2]):
            published += 1
        poison = None
        v = e.snap(s, v)
        rd = [x[1] for x in evs if x[0] == 'read']
        if v.k == 'adt' and v.a[1] == 1:
            poison = 'a call that failed'
        elif not (v.k == 'adt' and v.a[1] == 0):
            poison = 'a call with an undecided outcome'
        if any(x[0] == 'fail' for x in evs):
            poison = 'a failed write to the entry'
        for r in rd:
            d = e.known(s, mk('discr', r, RES))
            n = e.known(s, getproj(r, ('f', 0, 0)))
            if d is not E.I(0):
                poison = 'a failed remote read'
            elif n is not E.I(0) and not any(x[0] == 'wrote' for x in evs):
                poison = 'a call that delivered data without recording it'
        if poison:
            ctx.count('poisoned_states')
            b2 = {}
            buf2 = mk('init', ('A2', key.split('#')[0], 1))
            cl2 = Rec(self_, buf2, b2, p)
            hit = []
            class Second(Rec):
                def publish(self, e, st, c):
                    hit.append(where(p, c.fnkey, c.block))
            s2 = s.copy()
            s2.auto = (self_, (), ())
            e2, _ = sim.run(key, Second(self_, buf2, b2, p), interest=EV, args={0: self_, 1: buf2}, st=s2)
            if hit:
                bad['resurrect:' + poison] = 'after %s, a later read still publishes the cache entry at %s: the entry misses data' % (poison, hit[0])
    ctx.cov['publishing_paths'] = published
    if not published:
        ctx.viol('never', 'the recording reader never publishes an entry: the rule has nothing to decide')
    for k, m in bad.items():
        ctx.viol('reader:' + k, m)

    # creation: only unpublished names are written
    for m in ('remote_add', 'httpdir_add'):
        k = p.one('logreduce_cache::Cache::' + m)
        if not ctx.need(k, 'Cache::' + m):
            continue
        bad = {}
        cl = Rec(param(k, 0), None, bad, p)
        e, out = sim.run(k, cl, interest=EV)
        okn = 0
        for s, v in out:
            ctx.count('add_outcomes')
            fs = s.auto[2]
            created = {x[1] for x in fs if x[0] == 'create' and x[1] is not None}
            ren = [x for x in fs if x[0] == 'rename']
            for x in ren:
                if x[1] not in created:
                    bad['source'] = 'Cache::%s publishes a file it did not just write' % m
            good = v.k == 'adt' and v.a[1] == 0
            okn += good
            if m == 'httpdir_add':
                dst = {x[2] for x in ren}
                if good and not ren:
                    bad['lost'] = 'Cache::httpdir_add can succeed without publishing the entry'
                if created & dst:
                    bad['direct'] = 'Cache::httpdir_add writes the entry in place: a crash or an error leaves a truncated entry'
                if created and not dst:
                    for x in created:
                        if ('pid',) not in template(x) and good:
                            bad['direct'] = 'Cache::httpdir_add writes the entry in place'
            elif good:
                # reading to the end publishes what was created, under the looked-up name
                bad2 = {}
                root = ('H', 'cr')
                s1 = s.copy()
                s1.store[root] = v.a[2]
                rdr = mk('ref', (root, ()))
                buf = param(key, 1)
                s1.auto = (rdr, (), s.auto[2])
                e3, out3 = sim.run(key, Rec(rdr, buf, bad2, p), interest=EV, args={0: rdr, 1: buf}, st=s1)
                seen = [x for s3, _ in out3 for x in s3.auto[2] if x[0] == 'rename']
                want = lookups(ctx, p, sim)
                if not seen:
                    bad['noentry'] = 'reading a new entry to its end never publishes it'
                for x in seen:
                    ctx.count('publications_traced')
                    if x[1] not in created:
                        bad['source'] = 'the recording reader publishes a file that remote_add did not create (%s)' % (x[1],)
                    if x[2] is None or template(x[2]) not in want:
                        bad['dest'] = 'the recording reader publishes under a name that lookups do not use (%s)' % (x[2] is not None and show_tpl(template(x[2])))
                    if x[2] in created:
                        bad['direct'] = 'Cache::remote_add writes the entry in place: a crash or an error leaves a truncated entry'
            if m == 'remote_add':
                want = lookups(ctx, p, sim)
                for x in created:
                    if template(x) in want:
                        bad['direct'] = 'Cache::remote_add writes the entry in place: a crash or an error leaves a truncated entry'
        if not okn:
            bad['never'] = 'Cache::%s never succeeds' % m
        for kk, mm in bad.items():
            ctx.viol('%s:%s' % (m, kk), mm)
    # destructors never publish
    g = p.cg()
    for (tr, m, adt), k in p.trait_impls.items():
        if tr == 'std::ops::Drop' and p.fns[k]['crate'] == 'logreduce_cache':
            ctx.count('destructors')
            for x in g.closure([k]):
                if any(PUBLISH(n) for n in g.names[x]):
                    ctx.viol('drop:' + adt, 'the destructor of %s publishes a cache entry (%s)' % (adt, p.display(x)))
    ctx.floor('read_outcomes', 5)
    ctx.floor('poisoned_states', 2)
    ctx.floor('publications_traced', 1)

def lookups(ctx, p, sim):
    if not hasattr(ctx, '_lk'):
        k = p.one('logreduce_cache::Cache::remote_get')
        ctx._lk = set()
        if k:
            e, out = sim.run(k, CacheFs(), interest=FS)
            ctx._lk = {template(x[1]) for s, _ in out for x in s.auto if x[0] == 'key'}
    return ctx._lk
