"""From lines to features and distances: ChunkIndex::add and ChunkIndex::search.

Automaton facts:
  ('line', x) ('split', x) ('kept', x)   line x in hand; its words were taken; its vector was kept
  ('vec', w) ('vent', y) ('trip', y)     vector w in hand; entry y of it in hand; y was put in the matrix
  ('rowof', w, i)                        i is the place of w
  ('base', b) ('done', b)                chunk b in hand; all entries of its product were visited
  ('entry', x) ('upd', x)                entry x of a product in hand; the result was updated with it
  ('lend',) ('bend',) ('vend',)          all lines / chunks / vectors were visited
  ('stored',)                            a matrix was added to the index"""
from common import *
import models
from engine import B

WORDS = rx(r'^str::(split|splitn|rsplit|split_whitespace|split_ascii_whitespace|char_indices|chars|bytes|split_terminator|split_inclusive|as_bytes|lines|matches|match_indices|split_once)$')
RANGE = ('it:range', 'core::ops::range::Range')
REORDER = {'rev', 'sorted', 'sorted_by', 'sorted_by_key', 'sorted_unstable', 'sorted_unstable_by', 'unique', 'unique_by', 'dedup', 'dedup_by', 'cycle', 'chain', 'interleave', 'flat_map', 'flatten', 'intersperse', 'filter', 'filter_map', 'skip_while', 'take_while', 'skip', 'take', 'step_by', 'map_while', 'reverse', 'sort', 'sort_by', 'sort_unstable', 'sort_by_key', 'retain', 'truncate', 'swap', 'shuffle', 'rotate_left', 'rotate_right'}

LOSE = {'remove', 'swap_remove', 'drain', 'truncate', 'clear', 'pop', 'pop_if', 'retain', 'retain_mut', 'split_off', 'dedup', 'dedup_by', 'dedup_by_key', 'splice', 'extract_if', 'set_len', 'resize', 'swap_with_slice', 'fill', 'copy_from_slice', 'clone_from_slice'}

def strip(t):
    while t.k == 'deref':
        t = t.a[0]
    return t

class Feat(Client):
    templates = True
    merge_rets = True
    def __init__(self, ctx, prog, root):
        self.ctx, self.p, self.root = ctx, prog, root
        self.P = param(root, 1)
        self.S = param(root, 0)
        self.bad = {}
        self.events = {}
    def init(self):
        return frozenset()
    def say(self, key, msg, st=None):
        self.bad.setdefault(key, '%s: %s%s' % (self.p.display(self.root), msg, '\n' + st.trail() if st else ''))
    def get(self, st, k):
        return [x for x in st.auto if x[0] == k]
    def add(self, st, *x):
        st.auto = st.auto | {x}
    def rm(self, st, *ks):
        st.auto = frozenset(x for x in st.auto if x[0] not in ks)
    def cur(self, st, k):
        xs = self.get(st, k)
        return xs[0][1] if xs else None
    def event(self, e, st, c, name, *args):
        t = (name,) + tuple(self.canon(e, st, a) for a in args)
        self.events.setdefault(t, where(self.p, c.fnkey, c.block))
    def canon(self, e, st, t, d=0):
        if d > 12:
            return '…'
        if t.k == 'deref':
            return self.canon(e, st, t.a[0], d)
        if t is self.P:
            return 'lines'
        if t.k == 'init':
            return 'param'
        if t.k in ('fresh', 'phi', 'old'):
            b = st.facts.get(mk('elemof', t)) if t.k == 'fresh' else None
            if ('line', t) in st.auto:
                return 'line'
            return ('elem', self.canon(e, st, b, d + 1)) if b is not None and b.k != 'undef' else '?'
        if t.k in ('i', 'b', 'ch', 's', 'fl', 'by'):
            return str(t)
        if t.k == 'tmpl':
            return self.canon(e, st, t.a[1], d + 1)
        if t.k == 'coll':
            return ('coll', self.canon(e, st, t.a[1], d + 1))
        if t.k == 'adt' and t.a[0].startswith('closure'):
            return 'closure'
        return (t.k,) + tuple(self.canon(e, st, x, d + 1) if isinstance(x, T) else str(x).split('{')[0] if isinstance(x, str) else '_' for x in t.a)
    # ---- boundaries
    def line_end(self, e, st):
        x = self.cur(st, 'line')
        if x is not None:
            self.ctx.count('lines_judged')
            if ('kept', x) not in st.auto:
                self.say('line', 'a line is left out: no features are kept for it', st)
        self.rm(st, 'line', 'split', 'kept')
    def vent_end(self, e, st):
        y = self.cur(st, 'vent')
        if y is not None and ('trip', y) not in st.auto:
            self.say('feature', 'a feature of a line is left out of the matrix', st)
        self.rm(st, 'vent', 'trip')
    def vec_end(self, e, st):
        self.vent_end(e, st)
        w = self.cur(st, 'vec')
        if w is not None:
            self.ctx.count('vectors_judged')
            if ('vdone', w) not in st.auto:
                self.say('row', 'a line is left out of the matrix', st)
        self.rm(st, 'vec', 'vdone', 'rowof')
    def entry_end(self, e, st):
        x = self.cur(st, 'entry')
        if x is not None:
            self.ctx.count('entries_judged')
            if ('upd', x) not in st.auto:
                if not self.not_smaller(e, st, x):
                    self.say('entry', 'a comparison with an indexed line is not taken into account', st)
        self.rm(st, 'entry', 'upd')
    def base_end(self, e, st):
        self.entry_end(e, st)
        b = self.cur(st, 'base')
        if b is not None:
            self.ctx.count('chunks_judged')
            if ('done', b) not in st.auto:
                self.say('chunk', 'a chunk of the index does not take part in the search', st)
        self.rm(st, 'base', 'done')
    def not_smaller(self, e, st, x):
        for k, v in st.facts.items():
            if k.k == 'op' and k.a[0] in ('Lt', 'Le') and self.is_dist(strip(k.a[1]), x) and self.is_res(strip(k.a[2]), x) and v is FALSE:
                return True
            if k.k == 'op' and k.a[0] in ('Lt', 'Le') and self.is_dist(strip(k.a[2]), x) and self.is_res(strip(k.a[1]), x) and v is TRUE:
                return True
        return False
    def is_dist(self, t, x):
        return t.k == 'op' and t.a[0] == 'Sub' and t.a[1].k == 'fl' and float(t.a[1].a[0]) == 1.0 and strip(t.a[2]) is mk('call', 'eval', x)
    def is_res(self, t, x):
        return t.k == 'at' and t.a[0].k == 'call' and t.a[0].a[0] == 'filled' and strip(t.a[1]) is mk('call', 'ecol', x)
    # ---- iteration
    def src_kind(self, e, st, v):
        """What an iterator walks over: the lines, the vectors or the chunks."""
        if not (v.k == 'adt' and (v.a[0] == 'it:seq')):
            return None, None
        s = e.snap(st, v.a[2])
        while s.k == 'deref':
            s = s.a[0]
        if s is self.P:
            return 'lines', s
        if s.k == 'coll' and any(t.k == 'call' and t.a[0] == 'vecof' for t in subterms(s)):
            return 'vectors', s
        if s.k in ('fld', 'call') and self.S in leaves(s):
            return 'chunks', s
        return None, None
    def next_items(self, e, st, loc, v, site):
        if v.k == 'call' and v.a[0] == 'vents':
            self.vent_end(e, st)
            s1, s2 = st.copy(), st.copy()
            self.add(s2, 'vdone', v.a[1])
            y = e.fresh(s1, site + ('vent',), 'vent')
            self.add(s1, 'vent', y)
            return [(s2, NONE), (s1, some(E.tup(mk('call', 'vcol', y), mk('call', 'vval', y))))]
        if v.k == 'call' and v.a[0] == 'ents':
            self.entry_end(e, st)
            s1, s2 = st.copy(), st.copy()
            pr = v.a[1]
            if pr.k == 'call' and pr.a[0] == 'prod':
                self.add(s2, 'done', strip(pr.a[1]))
            x = e.fresh(s1, site + ('ent',), 'entry')
            self.add(s1, 'entry', x)
            return [(s2, NONE), (s1, some(E.tup(mk('call', 'eval', x), E.tup(mk('call', 'erow', x), mk('call', 'ecol', x)))))]
        if v.k == 'adt' and v.a[0] == 'it:enumerate':
            res = models.nxt(e, st, (loc[0], loc[1] + (('f', 0, 0),)), site, 1)
            out = []
            for s, o in res:
                if E.is_some(o):
                    s = s.copy()
                    ix = e.fresh(s, site + ('idx',), 'idx')
                    w = self.cur(s, 'vec')
                    if w is not None and strip(e.snap(s, o.a[2])) is w:
                        self.add(s, 'rowof', w, ix)
                    o = some(E.tup(ix, o.a[2]))
                out.append((s, o))
            return out
        if v.k == 'adt' and v.a[0] in RANGE:
            hi = e.snap(st, v.a[3])
            for t in subterms(hi):
                if t.k == 'coll' and any(u.k == 'call' and u.a[0] == 'vecof' for u in subterms(t)):
                    return self.indexed(e, st, site, t)
        k, s = self.src_kind(e, st, v)
        if k is None:
            return None
        {'lines': self.line_end, 'vectors': self.vec_end, 'chunks': self.base_end}[k](e, st)
        s1, s2 = st.copy(), st.copy()
        self.add(s2, {'lines': 'lend', 'vectors': 'vend', 'chunks': 'bend'}[k])
        if k == 'vectors':
            y = e.fresh(s1, site + ('vec',), 'vec')
            x = mk('call', 'vecof', y)
        else:
            x = e.fresh(s1, site + (k,), k)
            if k == 'lines':
                s1.facts[mk('elemof', x)] = self.P
        self.add(s1, {'lines': 'line', 'vectors': 'vec', 'chunks': 'base'}[k], x)
        return [(s2, NONE), (s1, some(x))]
    def indexed(self, e, st, site, coll):
        self.vec_end(e, st)
        s1, s2 = st.copy(), st.copy()
        self.add(s2, 'vend')
        ix = e.fresh(s1, site + ('idx',), 'idx')
        w = mk('at', coll, ix)
        self.add(s1, 'vec', w)
        self.add(s1, 'rowof', w, ix)
        return [(s2, NONE), (s1, some(ix))]
    def on_collect(self, e, st, x, site):
        self.keep(e, st, x)
    def keep(self, e, st, x):
        x = strip(e.snap(st, x))
        if x.k == 'call' and x.a[0] == 'vecof' and ('line', x.a[1]) in st.auto:
            self.add(st, 'kept', x.a[1])
    def on_extend(self, e, st, loc, x, site):
        self.appended(e, st, loc, e.snap(st, x))
    def appended(self, e, st, l, v):
        self.keep(e, st, v)
        v = strip(v)
        if v.k == 'call' and v.a[0] == 'csr':
            t = e.snap(st, e.read(st, l))
            if self.S in leaves(t) or l[0][0] == 'D' and l[0][1] is self.S:
                self.add(st, 'stored')
    # ---- calls
    def on_call(self, e, st, c):
        n, d = c.name, c.decl
        last = n.rsplit('::', 1)[-1]
        dl = d.rsplit('::', 1)[-1]
        a = c.args
        if WORDS(n):
            t = strip(e.snap(st, a[0]))
            x = self.cur(st, 'line')
            self.event(e, st, c, n, *[e.snap(st, y) for y in a])
            if x is not None and t is x:
                self.add(st, 'split', x)
            return None
        if (d.startswith('std::iter::') or d.startswith('itertools::') or n.startswith(('std::vec::Vec::', '[T]::'))) and dl in REORDER and a:
            t = e.snap(st, a[0])
            if any(u is self.P or u.k == 'call' and u.a[0] == 'vecof' for u in subterms(t)) and not any(u.k == 'call' and u.a[0] == 'split' for u in subterms(t)) or any(u.k in ('fld',) and self.S in leaves(u) for u in subterms(t)):
                self.say('order', '%s applies %s to the lines, their features or the chunks: they are left out or get out of step with the distances' % (where(self.p, c.fnkey, c.block), dl), st)
        if (n.startswith('std::vec::Vec::') or n.startswith('[T]::')) and last in LOSE and a and a[0].k == 'ref':
            l = e.deep(st, a[0].a[0])
            if l[0][0] == 'D' and self.S in leaves(l[0][1]) or self.S in leaves(e.snap(st, e.read(st, l))):
                self.say('dropped', '%s applies %s to what was indexed before' % (where(self.p, c.fnkey, c.block), last), st)
        if n.startswith('sprs::'):
            return self.sprs(e, st, c, n, last, a)
        if n.startswith('fxhash::') and not n.startswith('fxhash::Fx'):
            self.event(e, st, c, n, *[e.snap(st, y) for y in a])
            return None
        if n == 'std::vec::from_elem':
            v, k = e.snap(st, a[0]), e.snap(st, a[1])
            if v.k == 'fl':
                return [(st, mk('call', 'filled', v, k))]
        if d in ('std::ops::Mul::mul', 'std::ops::Mul') and c.aty and 'CsMat' in c.aty[0]:
            return [(st, mk('call', 'prod', strip(e.snap(st, a[0])), strip(e.snap(st, a[1]))))]
        if d == 'std::ops::Index::index' and len(a) == 2 and c.aty[1] == 'usize':
            b = e.snap(st, a[0])
            if b.k in ('call', 'coll', 'fld', 'phi', 'deref', 'init'):
                return [(st, mk('at', strip(b), e.snap(st, a[1])))]
        if d == 'std::ops::IndexMut::index_mut' and len(a) == 2 and c.aty[1] == 'usize':
            r = a[0]
            if r.k == 'ref':
                l = e.deep(st, r.a[0])
                return [(st, mk('ref', (l[0], l[1] + (('ix', e.snap(st, a[1])),))))]
        if n == 'std::vec::Vec::push' and len(a) == 2:
            v = e.snap(st, a[1])
            self.appended(e, st, e.deep(st, a[0].a[0]) if a[0].k == 'ref' else (('D', a[0]), ()), v)
        if n == 'f32::min' and len(a) == 2:
            return [(st, mk('call', 'fmin', e.snap(st, a[0]), e.snap(st, a[1])))]
        return None
    def sprs(self, e, st, c, n, last, a):
        vs = [strip(e.snap(st, x)) for x in a]
        w = where(self.p, c.fnkey, c.block)
        if 'CsVec' in n and last in ('new', 'new_from_unsorted', 'new_unchecked', 'try_new'):
            x = self.cur(st, 'line')
            self.event(e, st, c, 'vector', vs[0])
            if x is not None and ('split', x) in st.auto and last != 'try_new':
                return [(st, mk('call', 'vecof', x))]
            return None
        if 'TriMat' in n:
            if last in ('new', 'with_capacity'):
                self.event(e, st, c, 'matrix', getproj(vs[0], ('f', 0, 1)) if vs[0].k == 'adt' else vs[0])
                return [(st, mk('call', 'tri', vs[0]))]
            if last == 'add_triplet':
                y = self.cur(st, 'vent')
                vec = self.cur(st, 'vec')
                if y is None or strip(vs[2]) is not mk('call', 'vcol', y) or mk('call', 'vval', y) not in subterms(vs[3]):
                    self.say('triplet', '%s puts %s / %s in the matrix instead of the feature in hand' % (w, vs[2], vs[3]), st)
                elif ('rowof', vec, vs[1]) not in st.auto:
                    self.say('rowidx', '%s: the row %s is not the place of the line' % (w, vs[1]), st)
                else:
                    self.event(e, st, c, 'value', self.named(vs[3], vec))
                    self.add(st, 'trip', y)
                return [(st, E.UNIT)]
            if last in ('to_csr', 'to_csc'):
                self.event(e, st, c, last)
                s = ('vend',) in st.auto
                r = mk('call', 'csr', mk('s', 'all' if s else 'none'))
                self.vec_end(e, st)
                self.rm(st, 'vend')
                return [(st, r)]
        if 'CsVec' in n and last == 'iter':
            return [(st, mk('call', 'vents', vs[0]))]
        if 'CsMat' in n:
            if last == 'iter':
                return [(st, mk('call', 'ents', vs[0]))]
            if last == 'transpose_mut' and a[0].k == 'ref':
                l = e.deep(st, a[0].a[0])
                e.write(st, l, mk('call', 'transposed', e.snap(st, e.read(st, l))))
                return [(st, E.UNIT)]
            if last in ('transpose_into', 'transpose_view'):
                return [(st, mk('call', 'transposed', vs[0]))]
            if last in ('to_csr', 'to_csc', 'clone', 'to_owned', 'view', 'into_csr', 'into_csc'):
                return [(st, vs[0])]
            if last in ('cols', 'rows'):
                return [(st, mk('call', last, vs[0]))]
            if last == 'mul' or 'mul' in last:
                return [(st, mk('call', 'prod', vs[0], vs[1]))] if len(vs) == 2 else None
        return None
    def named(self, t, vec):
        m = {}
        for u in subterms(t):
            if u.k == 'call' and u.a[0] in ('vval', 'vcol'):
                m[u] = u.a[0]
        def go(u):
            if u.k == 'deref':
                return go(u.a[0])
            if u in m:
                return mk('s', m[u])
            if u is vec:
                return mk('s', 'vector')
            if u.k in ('op', 'call'):
                return mk(u.k, *[go(x) if isinstance(x, T) else x for x in u.a])
            return u
        return go(t)
    # ---- the result
    def on_write(self, e, st, loc, val, fnkey, block):
        r, p = loc
        if not p or p[-1][0] != 'ix':
            return
        root = (r, p[:-1])
        base = e.read(st, root)
        while base.k == 'obj':
            base = base.a[0]
        if not (base.k == 'call' and base.a[0] == 'filled'):
            return
        x = self.cur(st, 'entry')
        c = strip(p[-1][1])
        w = where(self.p, fnkey, block)
        v = strip(e.snap(st, val))
        good = False
        if x is not None and c is mk('call', 'ecol', x):
            if v.k == 'call' and v.a[0] == 'fmin':
                u, z = strip(v.a[1]), strip(v.a[2])
                good = self.is_dist(u, x) and self.is_res(z, x) or self.is_dist(z, x) and self.is_res(u, x)
            elif self.is_dist(v, x):
                for k, b in st.facts.items():
                    if k.k == 'op' and k.a[0] in ('Lt', 'Le'):
                        lo, hi = strip(k.a[1]), strip(k.a[2])
                        if b is TRUE and self.is_dist(lo, x) and self.is_res(hi, x) or b is FALSE and self.is_res(lo, x) and self.is_dist(hi, x):
                            good = True
        if good:
            self.add(st, 'upd', x)
        else:
            self.say('update', '%s sets a distance to %s, which is not the smaller of the distance found so far and the distance of the pair in hand' % (w, v), st)
        e.write(st, root, base)
        self.ctx.count('updates')

def roots(ctx):
    p = ctx.prog()
    ka = [k for k in p.find('ChunkIndex::add') if p.fns[k]['kind'] != 'closure']
    ks = [k for k in p.find('ChunkIndex::search') if p.fns[k]['kind'] != 'closure']
    if not ctx.need(len(ka) == 1 and len(ks) == 1, 'ChunkIndex::add and ChunkIndex::search'):
        return None
    CI = next(k for k in p.adts if k.endswith('::ChunkIndex'))
    vi = [i for i, v in enumerate(p.adts[CI]['variants']) if v['n'] == 'HashingTrick'] if 'n' in p.adts[CI]['variants'][0] else [0]
    out = []
    for k in (ka[0], ks[0]):
        cl = Feat(ctx, p, k)
        st = St()
        st.auto = cl.init()
        st.facts[mk('discr', mk('deref', param(k, 0)), CI)] = E.I(vi[0])
        e, outs = Sim(ctx, p).run(k, cl, interest=lambda n: n.startswith(('sprs::', 'fxhash::')) or WORDS(n) or n == 'std::vec::from_elem', st=st,
                                  also=[x for x in p.ws_fns() if p.fns[x]['crate'] == 'logreduce_index'])
        out.append((k, cl, e, outs))
    return out
