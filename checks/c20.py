"""Saving a model or a report succeeds only if the file is completely written, and loading reads the same format."""
from common import *
from engine import S

class Codec(Client):
    """Layers are tracked as values: file(path) / gz(inner) / buf(inner).
    auto: frozenset of ('ser', writer, value), ('fin', writer), ('err', call), ('de', reader)"""
    def __init__(self, ctx, prog, root):
        self.ctx, self.p, self.root = ctx, prog, root
        self.unknown = []
    def init(self):
        return frozenset()
    def fork(self, e, st, c, val, ev=None, what=None):
        s2 = st.copy()
        if ev:
            st.auto = st.auto | {ev}
        s2.auto = s2.auto | {('err', what or c.name.rsplit('::', 1)[-1])}
        return [(st, ok(val)), (s2, err(e.fresh(s2, c.site, 'error')))]
    def on_call(self, e, st, c):
        n, d = c.name, c.decl
        a = c.args
        sn = lambda i: e.snap(st, a[i])
        m = n.rsplit('::', 1)[-1]
        if n in ('std::fs::File::create', 'std::fs::File::create_new', 'std::fs::File::open'):
            return self.fork(e, st, c, mk('call', 'file', S('r' if m == 'open' else 'w'), sn(0)))
        if n == 'std::fs::OpenOptions::open':
            return self.fork(e, st, c, mk('call', 'file', S('o'), sn(0), sn(1)))
        mm = re.match(r'^(flate2::(write|read|bufread)::(\w+)|flate2::\w+::\w+::(\w+))::(new|with_quality)$', n)
        if n.startswith('flate2::') and m == 'new' and ('Encoder' in n or 'Decoder' in n):
            kind = re.search(r'(\w+)(Encoder|Decoder)', n).group(1)
            if kind != 'Compression':
                return [(st, mk('call', 'layer', S(kind), sn(0)))]
        if n in ('std::io::BufWriter::new', 'std::io::BufReader::new', 'std::io::LineWriter::new'):
            return [(st, mk('call', 'layer', S('buf'), sn(0)))]
        if n in ('std::io::BufWriter::with_capacity', 'std::io::BufReader::with_capacity'):
            return [(st, mk('call', 'layer', S('buf'), sn(1)))]
        if n.startswith('bincode::'):
            if m == 'serialize_into':
                return self.fork(e, st, c, E.UNIT, ('ser', sn(-2), sn(-1), n))
            if m == 'serialize':
                return self.fork(e, st, c, mk('call', 'encoded', sn(-1), S(n)))
            if m == 'deserialize_from':
                return self.fork(e, st, c, mk('call', 'decoded', sn(-1), S(n.replace('deserialize_from', 'serialize_into'))))
            if m == 'deserialize':
                x = sn(-1)
                return self.fork(e, st, c, mk('call', 'decoded', x, S(n.replace('deserialize', 'serialize'))))
        w = e.content(st, a[0]) if a else None
        if w is not None and w.k == 'call' and w.a[0] in ('file', 'layer'):
            w = sn(0)
            if m == 'write_all':
                return self.fork(e, st, c, E.UNIT, ('raw', w, sn(1)))
            if m in ('finish', 'into_inner'):
                return self.fork(e, st, c, w.a[-1], ('fin', w))
            if m in ('try_finish', 'sync_all', 'sync_data'):
                return self.fork(e, st, c, E.UNIT, ('fin', w))
            if m == 'flush':
                # flushing empties a buffer, but does not end a compressed stream
                if w.a[0] == 'layer' and w.a[1].a[0] == 'buf':
                    return self.fork(e, st, c, E.UNIT, ('flush', w))
                return self.fork(e, st, c, E.UNIT)
            if m in ('read_to_end', 'read_to_string'):
                buf = a[1]
                val = mk('call', 'allof', w)
                s2 = st.copy()
                if buf.k == 'ref':
                    e.write(st, buf.a[0], val)
                s2.auto = s2.auto | {('err', m)}
                return [(st, ok(e.fresh(st, c.site, 'n'))), (s2, err(e.fresh(s2, c.site, 'error')))]
        if n in ('std::fs::write',):
            x = sn(1)
            return self.fork(e, st, c, E.UNIT, ('whole', sn(0), x))
        if n in ('std::fs::read',):
            return self.fork(e, st, c, mk('call', 'allof', mk('call', 'file', S('r'), sn(0))))
        if n == 'std::fs::rename':
            return self.fork(e, st, c, E.UNIT, ('rename', sn(0), sn(1)))
        return None

def layers(w):
    """file / [layers from the file outwards]"""
    out = []
    while w.k == 'call' and w.a[0] in ('layer', 'allof'):
        if w.a[0] == 'layer' and w.a[1].a[0] != 'buf':
            out.append(w.a[1].a[0])
        w = w.a[-1]
    return w, list(reversed(out))

def flat(w):
    out = []
    while w.k == 'call' and w.a[0] == 'layer':
        out.append(w)
        w = w.a[-1]
    return out

def run(ctx):
    ctx.rule('Rule: on every path on which Model::save or Report::save returns Ok, the file was created at the given path, the whole value was encoded into it, every compression layer was finished and every '
             'buffer flushed, each successfully; a failure of any of them makes save fail. load applies to the file the inverse layers with the same encoding, and fails if any of them fails '
             '(typestate of the writer stack over the MIR).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    for ty in ('Model', 'Report'):
        ks, kl = p.one('logreduce_model::%s::save' % ty), p.one('logreduce_model::%s::load' % ty)
        if not ctx.need(ks, ty + '::save') or not ctx.need(kl, ty + '::load'):
            continue
        fmts = set()
        cl = Codec(ctx, p, ks)
        e, out = sim.run(ks, cl)
        me, path = mk('deref', param(ks, 0)), param(ks, 1)
        w = p.display(ks)
        good = 0
        for s, v in out:
            v = e.snap(s, v)
            ctx.count('save_outcomes')
            errs = [x for x in s.auto if x[0] == 'err']
            isok = v.k == 'adt' and v.a[0] == RES and v.a[1] == 0
            iserr = v.k == 'adt' and v.a[0] == RES and v.a[1] == 1
            if not isok and not iserr:
                ctx.viol(ty + ':save:unknown', '%s: outcome cannot be decided: %s' % (w, str(v)[:150]))
                continue
            if iserr:
                if not errs:
                    ctx.viol(ty + ':save:spurious', '%s fails although nothing failed' % w)
                continue
            if errs:
                ctx.viol(ty + ':save:swallowed', '%s succeeds although %s failed' % (w, ' '.join(sorted(x[1] for x in errs))))
                continue
            good += 1
            sers = [x for x in s.auto if x[0] == 'ser']
            raws = [x for x in s.auto if x[0] in ('raw', 'whole')]
            if not sers and len(raws) == 1:
                tgt = raws[0][1] if raws[0][0] == 'raw' else mk('call', 'file', S('w'), raws[0][1])
                b = raws[0][2]
                if b.k == 'call' and b.a[0] == 'encoded':
                    sers = [('ser', tgt, b.a[1], b.a[2].a[0].replace('serialize', 'serialize_into'))]
            if len(sers) != 1:
                ctx.viol(ty + ':save:encode', '%s succeeds without encoding the value exactly once' % w)
                continue
            _, wr, val, codec = sers[0]
            if str(e.content(s, val)) != str(me) and val is not param(ks, 0) and val is not me:
                ctx.viol(ty + ':save:value', '%s does not save the value it is called on: %s' % (w, str(val)[:100]))
            f, ls = layers(wr)
            fmts.add((tuple(ls), codec.rsplit('::', 1)[0]))
            if not (f.k == 'call' and f.a[0] == 'file' and f.a[1].a[0] in ('w', 'o')):
                ctx.viol(ty + ':save:file', '%s does not write to a file it created' % w)
                continue
            tgt = f.a[-1]
            ren = [x for x in s.auto if x[0] == 'rename']
            if not same(tgt, path) and not any(same(x[1], tgt) and same(x[2], path) for x in ren):
                ctx.viol(ty + ':save:path', '%s does not write at the path it is given: %s' % (w, str(tgt)[:100]))
            if f.a[1].a[0] == 'o':
                sub = [t for t in subterms(f) if t.k == 'call' and str(t.a[0]).endswith('truncate')]
                if not sub:
                    ctx.viol(ty + ':save:truncate', '%s may leave the end of a previous file behind' % w)
            for l in flat(wr):
                done = any(x[0] == 'fin' and (x[1] is l or str(x[1]) == str(l)) for x in s.auto)
                if l.a[1].a[0] == 'buf':
                    # finishing is what matters after the outer layers were finished
                    done = done or any(x[0] == 'flush' and str(x[1]) == str(l) for x in s.auto)
                if not done:
                    ctx.viol(ty + ':save:finish', '%s succeeds before the %s layer is completely written out: a failure of the last write is lost' % (w, l.a[1].a[0]))
        if not good:
            ctx.viol(ty + ':save:never', '%s never succeeds' % w)
        # load
        cl = Codec(ctx, p, kl)
        e, out = sim.run(kl, cl)
        w = p.display(kl)
        good = 0
        for s, v in out:
            v = e.snap(s, v)
            ctx.count('load_outcomes')
            errs = [x for x in s.auto if x[0] == 'err']
            isok = v.k == 'adt' and v.a[0] == RES and v.a[1] == 0
            if isok and errs:
                ctx.viol(ty + ':load:swallowed', '%s succeeds although %s failed' % (w, ' '.join(sorted(x[1] for x in errs))))
                continue
            if not isok:
                if not errs:
                    ctx.viol(ty + ':load:spurious', '%s fails although nothing failed' % w)
                continue
            good += 1
            r = v.a[2]
            if not (r.k == 'call' and r.a[0] == 'decoded'):
                ctx.viol(ty + ':load:value', '%s does not return what it decoded: %s' % (w, str(r)[:120]))
                continue
            f, ls = layers(r.a[1])
            if not (f.k == 'call' and f.a[0] == 'file' and same(f.a[-1], param(kl, 0))):
                ctx.viol(ty + ':load:path', '%s does not read the file it is given' % w)
            fmt = (tuple(ls), r.a[2].a[0].rsplit('::', 1)[0])
            if fmts and {(tuple(x.replace('Multi', '') for x in a), b) for a, b in fmts} != {(tuple(x.replace('Multi', '') for x in fmt[0]), fmt[1])}:
                ctx.viol(ty + ':format', '%s reads %s but save writes %s' % (w, fmt, sorted(fmts)))
        if not good:
            ctx.viol(ty + ':load:never', '%s never succeeds' % w)
        ctx.sample('%s: %s' % (ty, sorted(fmts)))
    ctx.floor('save_outcomes', 6)
    ctx.floor('load_outcomes', 4)

def same(a, b):
    return a is b or str(a) == str(b) or b in subterms(a) and a.k in ('deref', 'call') and len(leaves(a)) == 1
