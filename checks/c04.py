"""Reading through the cache and decompression layers is transparent."""
from common import *
import models

READ = 'std::io::Read::read'
READER = rx(r'^std::io::Read::', r'^std::io::Write::')

def run(ctx):
    ctx.rule('Rule: on every path of every implementation of Read for the reader types, exactly one read of the wrapped reader is made, into the caller\'s whole '
             'buffer; success is reported only with that read\'s own count, its error is an error, the buffer is not otherwise written, and while an entry is '
             'being recorded exactly the delivered bytes buf[..n] are written to it (path-sensitive value-flow; other overridden Read methods must be plain delegations).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    impls = {}
    for (tr, m, adt), k in sorted(p.trait_impls.items()):
        if tr == 'std::io::Read':
            impls.setdefault(adt, {})[m] = k
    for want in ('logreduce_cache::CacheReader', 'logreduce_model::reader::DecompressReader'):
        ctx.need(any(a == want or a.endswith('::' + want.rsplit('::', 1)[-1]) for a in impls), 'Read for ' + want)
    for adt, ms in impls.items():
        for m, k in ms.items():
            if m == 'read':
                one(ctx, p, sim, adt, k)
            else:
                delegate(ctx, p, sim, adt, m, k)
    ctx.floor('read_implementations', 2)
    ctx.floor('read_outcomes', 8)

def is_buf(e, st, v, buf):
    """v denotes the whole caller buffer."""
    v0 = v
    for _ in range(6):
        if v is buf:
            return True
        if v.k == 'ref':
            (r, pth) = v.a[0]
            if pth == () and r == ('D', buf):
                return True
            v = e.read(st, v.a[0])
            continue
        if v.k == 'deref':
            v = v.a[0]
            continue
        return False
    return False

def mentions(e, st, v, buf):
    v = e.snap(st, v)
    return any(x is buf for x in subterms(v)) or any(x is buf for x in leaves(v))

def one(ctx, p, sim, adt, key):
    ctx.count('read_implementations')
    nm = adt.rsplit('::', 1)[-1]
    buf = param(key, 1)
    bad = {}
    class C(Client):
        def init(self):
            return ((), ())       # reads, writes
        def on_call(self, e, st, c):
            if c.decl == READ and not (c.fn.get('body') and not p.fns[c.fn['body']]['ext'] and p.fns[c.fn['body']]['crate'] == p.fns[key]['crate']):
                if not is_buf(e, st, c.args[1], buf):
                    bad['buffer'] = '%s hands something else than the whole caller buffer to the wrapped reader: %s' % (where(p, c.fnkey, c.block), e.snap(st, c.args[1]))
                r = e.fresh(st, c.site, 'inner')
                rs, ws = st.auto
                if rs:
                    bad['twice'] = '%s reads the wrapped reader twice for one call' % where(p, c.fnkey, c.block)
                st.auto = ((r,), ws)
                return [(st, r)]
            if c.decl.startswith('std::io::Read::') and c.decl != READ and c.decl not in ('std::io::Read::by_ref',):
                bad['other'] = '%s reads the wrapped reader with %s' % (where(p, c.fnkey, c.block), c.decl)
            if c.decl.startswith('std::io::Write::write'):
                data = e.snap(st, c.args[1])
                rs, ws = st.auto
                s2 = st.copy()
                kind = c.decl.rsplit('::', 1)[-1]
                st.auto = (rs, ws + ((kind, data, 'ok'),))
                s2.auto = (rs, ws + ((kind, data, 'err'),))
                okv = E.UNIT if kind == 'write_all' else e.fresh(st, c.site, 'written')
                return [(st, ok(okv)), (s2, err(e.fresh(s2, c.site, 'io')))]
            for i, a in enumerate(c.args):
                if i < len(c.aty) and c.aty[i].startswith('&mut [') and mentions(e, st, a, buf) and c.fn and c.fn.get('kind') != 'ws' and c.decl not in E.IDENT_REF:
                    if c.decl.rsplit('::', 1)[-1] not in ('index', 'index_mut', 'len', 'is_empty', 'deref', 'deref_mut', 'get', 'get_mut', 'as_ref', 'iter', 'split_at'):
                        bad['mutated:' + c.decl] = '%s gives the caller buffer to %s' % (where(p, c.fnkey, c.block), c.name)
            return None
        def on_write(self, e, st, loc, val, fnkey, block):
            if loc[0] == ('D', buf):
                bad['written'] = '%s writes into the caller buffer' % where(p, fnkey, block)
    e, out = sim.run(key, C(), interest=READER)
    for s, v in out:
        ctx.count('read_outcomes')
        rs, ws = s.auto
        v = e.snap(s, v)
        vs = outcome(e, s, v)
        for s1, tag, pay in vs:
            if not rs:
                if tag == 'ok':
                    bad['none'] = '%s::read can succeed without reading the wrapped reader' % nm
                continue
            r = rs[0]
            d = e.known(s1, mk('discr', r, RES))
            n = getproj(r, ('f', 0, 0))
            if tag == 'ok':
                if v is r:
                    pass
                elif d is E.I(1):
                    bad['swallow'] = '%s::read reports success (%s) when the wrapped reader failed' % (nm, pay)
                elif d.k != 'i':
                    bad['undecided'] = '%s::read reports success without looking at the outcome of the wrapped read' % nm
                elif e.known(s1, pay) is not e.known(s1, n):
                    bad['count'] = '%s::read reports %s bytes when the wrapped reader delivered %s' % (nm, pay, n)
            elif tag == 'any' and v is not r:
                bad['result'] = '%s::read returns %s, not the outcome of the wrapped read' % (nm, v)
        for kind, data, res in ws:
            if not rs:
                bad['early'] = '%s::read records data before reading it' % nm
                continue
            n = getproj(rs[0], ('f', 0, 0))
            if kind != 'write_all':
                bad['partial'] = '%s::read records the data with %s, which may store only a part of it' % (nm, kind)
            if not is_prefix(e, s, data, buf, n):
                bad['recorded'] = '%s::read records %s instead of the %s bytes just delivered' % (nm, data, n)
        if len(ws) > 1:
            bad['dup'] = '%s::read records the delivered data more than once' % nm
    ctx.sample('%s::read: %d path outcomes' % (nm, len(out)))
    for k, m in bad.items():
        ctx.viol('%s:%s' % (nm, k), m)

def outcome(e, s, v):
    if v.k == 'adt' and v.a[0] == RES:
        return [(s, 'ok' if v.a[1] == 0 else 'err', v.a[2])]
    d = e.known(s, mk('discr', v, RES))
    if d.k == 'i':
        return [(s, 'ok' if d.a[0] == 0 else 'err', getproj(v, ('f', d.a[0], 0)))]
    return [(s, 'any', v)]

def is_prefix(e, s, data, buf, n):
    """data is buf[..n] (or buf[0..n])."""
    if data.k == 'slice' and len(data.a) >= 3:
        base, lo, hi = data.a[0], data.a[1], data.a[2]
        return base is buf and e.known(s, lo) is E.I(0) and e.known(s, hi) is e.known(s, n)
    return False

def delegate(ctx, p, sim, adt, m, key):
    """An overridden provided method must hand everything to the same method of the wrapped reader."""
    ctx.count('delegations')
    nm = adt.rsplit('::', 1)[-1]
    if 'CacheReader' in nm:
        ctx.viol('%s:override:%s' % (nm, m), '%s overrides Read::%s: data can be delivered without being recorded by read()' % (nm, m))
        return
    args = [param(key, i) for i in range(1, p.fns[key]['argc'])]
    bad = []
    class C(Client):
        def init(self):
            return ()
        def on_call(self, e, st, c):
            if c.decl == 'std::io::Read::' + m:
                r = e.fresh(st, c.site, 'inner')
                st.auto = st.auto + (r,)
                if not all(is_buf(e, st, a, b) for a, b in zip(c.args[1:], args)):
                    bad.append('other arguments')
                return [(st, r)]
            return None
    e, out = sim.run(key, C(), interest=READER)
    for s, v in out:
        if len(s.auto) != 1 or e.snap(s, v) is not s.auto[0]:
            bad.append('%s' % v)
    if bad or not out:
        ctx.viol('%s:override:%s' % (nm, m), '%s overrides Read::%s with something else than a delegation to the wrapped reader (%s)' % (nm, m, bad[:2]))
