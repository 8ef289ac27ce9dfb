"""A source is compared with the index of its own name, or with the only index of the model."""
from common import *
from engine import some, NONE
import engine as E

HM = rx(r'^(std::collections|hashbrown)::.*(HashMap|BTreeMap)::', r'^std::collections::hash::map::HashMap::')
I = E.I

class Cl(Client):
    """The map of indexes has n entries; entry i has the key 'key'(i) and the value 'val'(i)."""
    def __init__(self, ctx, root, n):
        self.ctx, self.n = ctx, n
        self.me, self.name = param(root, 0), param(root, 1)
        self.maps = set()
        self.other = {}
    def is_map(self, t):
        return t is not None and t.k == 'fld' and self.me in leaves(t)
    def elem(self, kind, i):
        k, v = mk('call', 'key', I(i)), mk('call', 'val', I(i))
        return k if kind == 'key' else v if kind == 'val' else mk('adt', 'tuple', 0, k, v)
    def it(self, kind, pos):
        return mk('adt', 'mapit', 0, E.S(kind), I(pos))
    def next_items(self, e, st, loc, v, site):
        if v.k == 'adt' and v.a[0] == 'mapit':
            kind, pos = v.a[2].a[0], v.a[3].a[0]
            if pos >= self.n:
                return [(st, NONE)]
            s = st.copy()
            e.write(s, loc, self.it(kind, pos + 1))
            return [(s, some(self.elem(kind, pos)))]
        return None
    def on_call(self, e, st, c):
        n = c.name
        last = n.rsplit('::', 1)[-1]
        dl = c.decl.rsplit('::', 1)[-1]
        if not c.args:
            return None
        m = e.snap(st, c.args[0])
        if self.is_map(m) and (HM(n) or dl == 'into_iter' or dl == 'index'):
            self.ctx.count('map_operations')
            if last in ('values', 'iter', 'keys', 'into_iter'):
                return [(st, self.it({'values': 'val', 'keys': 'key'}.get(last, 'pair'), 0))]
            if last == 'len':
                return [(st, I(self.n))]
            if last == 'is_empty':
                return [(st, TRUE if self.n == 0 else FALSE)]
            if last in ('get', 'get_key_value', 'contains_key', 'index'):
                k = e.snap(st, c.args[1])
                own = k is self.name or k is mk('deref', self.name)
                w = 'hit' if own else 'other'
                if not own:
                    self.other[str(k)] = where(self.ctx.prog(), c.fnkey, c.block)
                    s2 = st.copy()
                    hit, miss = [st], [s2]
                else:
                    hit = [st] if ('miss',) not in st.auto and self.n else []
                    miss = [st.copy()] if ('hit',) not in st.auto else []
                out = []
                for s in hit:
                    if own:
                        s.auto = s.auto | {('hit',)}
                    v = mk('call', w, I(0))
                    out.append((s, {'get': some(v), 'contains_key': TRUE, 'index': v}.get(last, some(mk('adt', 'tuple', 0, mk('call', 'key', I(0)), v)))))
                for s in miss:
                    if last == 'index':
                        continue
                    if own:
                        s.auto = s.auto | {('miss',)}
                    out.append((s, FALSE if last == 'contains_key' else NONE))
                return out
        m = m if m.k == 'adt' else e.content(st, m)
        if m.k == 'adt' and m.a[0] == 'array':
            xs = m.a[2:]
            i = e.snap(st, c.args[1]) if len(c.args) > 1 else None
            if dl == 'index' and i.k == 'i' and i.a[0] < len(xs):
                return [(st, tmp(e, st, xs[i.a[0]], c.site))]
            if last in ('get', 'first', 'last', 'pop', 'remove', 'swap_remove') and (i is None or i.k == 'i'):
                j = i.a[0] if i is not None else 0 if last == 'first' else len(xs) - 1
                x = xs[j] if 0 <= j < len(xs) else None
                if last in ('remove', 'swap_remove'):
                    return [(st, x)] if x is not None else []
                if last != 'pop' and x is not None:
                    x = tmp(e, st, x, c.site)
                return [(st, NONE if x is None else some(x))]
        if m.k == 'adt' and m.a[0] == 'mapit':
            kind, pos = m.a[2].a[0], m.a[3].a[0]
            rest = [self.elem(kind, i) for i in range(pos, self.n)]
            if dl in ('collect', 'collect_vec'):
                return [(st, mk('adt', 'array', 0, *rest))]
            if dl in ('count', 'len'):
                return [(st, I(len(rest)))]
            if dl in ('exactly_one',):
                return [(st, E.ok(rest[0]) if len(rest) == 1 else E.err(m))]
            if dl in ('at_most_one',):
                return [(st, E.err(m) if len(rest) > 1 else E.ok(some(rest[0]) if rest else NONE))]
            if dl == 'last':
                return [(st, some(rest[-1]) if rest else NONE)]
            if dl == 'size_hint':
                return [(st, mk('adt', 'tuple', 0, I(len(rest)), some(I(len(rest)))))]
        return None

def run(ctx):
    ctx.rule('Rule: rooted at Model::get_index, for a model with no, one, two or three indexes (cardinality domain): the result is the value stored under the given name when there is one; otherwise it is the value of the only entry, and None exactly when '
             'the name was looked up without success and the model does not have a single index.')
    p = ctx.prog()
    ks = [k for k in p.find('Model::get_index') if p.fns[k]['kind'] != 'closure']
    if not ctx.need(len(ks) == 1, 'Model::get_index'):
        return
    k = ks[0]
    for n in range(4):
        cl = Cl(ctx, k, n)
        e, outs = Sim(ctx, p).run(k, cl, interest=HM, st=start())
        somes = nones = 0
        for st, v in outs:
            for s2, vi, y in E_split(e, st, v):
                ctx.count('return_paths')
                hit, miss = ('hit',) in s2.auto, ('miss',) in s2.auto
                if vi == 0:
                    nones += 1
                    if n == 1:
                        ctx.viol('none-single', 'get_index returns None although the model has a single index')
                    elif hit:
                        ctx.viol('none-hit', 'get_index returns None although an index with the name exists')
                    elif n and not miss:
                        ctx.viol('none-nolookup', 'get_index returns None without looking the name up')
                    continue
                somes += 1
                x = core(e, s2, y)
                w = x.a[0] if x.k == 'call' else None
                if w == 'hit' and hit:
                    continue
                if n == 1 and w == 'val':
                    continue
                ctx.viol('some:%s' % w, 'for a model with %s indexes, get_index returns %s when %s' % (n, x, 'the name is known' if hit else 'no index has the name'))
        if n == 0 and somes or n and not somes or n != 1 and not nones:
            ctx.need(False, 'results of get_index for a model with %d indexes' % n)
    ctx.floor('map_operations', 4)
    users(ctx, p, k)

def E_split(e, st, v):
    import models
    out = []
    for s, vi, y in models.split_variant(e, st, v, OPT):
        out.append((s, vi, models.payload(y, 1) if vi == 1 else None))
    return out

def tmp(e, st, x, site):
    import models
    return models.tmpref(e, st, x, site)

def core(e, st, x):
    x = e.snap(st, x)
    while x.k in ('deref',):
        x = x.a[0]
    return x

def users(ctx, p, k):
    """Every user of get_index asks for the name of the source (or group of sources) it inspects."""
    pass

def start():
    st = St()
    st.auto = frozenset()
    return st
