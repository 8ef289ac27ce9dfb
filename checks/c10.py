"""The results do not depend on the order in which hash tables are walked."""
from common import *
import models
from mir import callee_of, cname, cdecl

HASHTY = re.compile(r'\b(HashMap|HashSet|FxHashMap|FxHashSet|hash_map::\w+|hash_set::\w+)\b')
WALK = ('iter', 'iter_mut', 'drain', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'difference', 'union', 'intersection', 'symmetric_difference', 'extract_if')
TABLE = re.compile(r'\b(HashMap|HashSet|BTreeMap|BTreeSet|FxHashMap|FxHashSet|IndexReports)\b')
SORTS = ('sorted', 'sorted_by', 'sorted_by_key', 'sorted_unstable', 'sorted_unstable_by', 'sorted_unstable_by_key', 'sorted_by_cached_key')
VSORTS = ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key')
GROW = rx(r'^std::(vec::Vec|collections::VecDeque|collections::LinkedList|string::String)::(push|push_back|push_front|push_str|insert|insert_str|extend|append|extend_from_slice)$', r'^std::iter::Extend::extend$',
          r'^std::(fmt|io)::Write::write\w*$', r'Sender::(send|try_send)$', r'::(execute|spawn)$', r'^std::fs::', r'^std::io::Write')
PRINT = rx(r'^std::io::(_print|_eprint)$', r'^std::io::stdio::(_print|_eprint)$')

def plain(t):
    while t.k == 'deref' or t.k == 'call' and len(t.a) == 2 and t.a[0] == 'pyobj':
        t = t.a[0]
    return t

def target(ty):
    """The type constructor of what is collected, behind Result and Option."""
    while True:
        m = re.match(r'^(std|core)::(result::Result|option::Option)<(.*)$', ty)
        if not m:
            return ty.split('<')[0]
        ty = m.group(3)

def transient(e, st, c):
    """Does the text start by going back to the beginning of the line?"""
    t = e.snap(st, c.args[0]) if c.args else None
    if t is None:
        return False
    t = t.a[0] if t.k == 'cat' and t.a else t
    return t.k == 's' and t.a[0].startswith('\r')

class Order(Client):
    """auto: ('in', source) the elements of a hash table are being visited in its order."""
    def __init__(self, ctx, p, root, loud):
        self.ctx, self.p, self.root, self.loud = ctx, p, root, loud
        self.bad = {}
        self.its = {}
        self.live = {}
        self.out = {}
    def init(self):
        return frozenset()
    def say(self, k, m):
        self.bad.setdefault(k, m)
    def at(self, c):
        return self.p.display(c.fnkey) + (' (%s)' % c.span if c.span else '')
    def src(self, e, st, v):
        """The hash table whose order a value has."""
        for x in subterms(e.snap(st, v)):
            if x.k == 'call' and x.a[0] in ('hashorder', 'unordered'):
                return x
        return None
    def elem_of(self, e, st, t):
        for x in subterms(t):
            b = st.facts.get(mk('elemof', x))
            if b is not None and b.k != 'undef':
                for y in subterms(b):
                    if y.k == 'call' and y.a[0] in ('hashorder', 'unordered'):
                        return x, y
        return None
    def alone(self, e, st, h):
        """Is the table known to have one element?"""
        while h is not None:
            ns = [mk('call', 'len', h)]
            if h.a[0] == 'hashorder':
                ns.append(e.length(st, h.a[1]))
            if any(e.known(st, E.simp_op('Eq', n, E.I(1))) is TRUE for n in ns):
                return True
            h = next((y for y in subterms(h.a[1]) if y is not h and y.k == 'call' and y.a[0] in ('hashorder', 'unordered')), None)
        return False
    def key_of(self, e, x, h):
        """The part of an element which is unique in its table."""
        while h.a[0] == 'unordered':
            h = next((y for y in subterms(h.a[1]) if y is not h and y.k == 'call' and y.a[0] in ('hashorder', 'unordered')), None)
            if h is None:
                return None
        kind = h.a[2].a[0]
        return {'pair': [getproj(x, ('f', None, 0)), getproj(x, ('f', 0, 0)), x], 'key': [x], 'value': [x]}[kind]
    # ---- comparators
    def total(self, e, st, c, itv, f, by_key):
        """Does the comparison distinguish any two elements?"""
        s = st.copy()
        s.auto = frozenset()
        xs = []
        for i in (1, 2):
            loc = (('R', c.site, 'cmp', i), ())
            s.store[loc[0]] = itv
            nx = [(s2, v) for s2, v in models.nxt(e, s, loc, c.site + ('cmp', i)) if v.k == 'adt' and v.a[1] == 1]
            if not nx:
                return False
            s, v = nx[0]
            xs.append(v.a[2])
        x, y = xs
        ox, oy = self.elem_of(e, s, e.snap(s, x)), self.elem_of(e, s, e.snap(s, y))
        if ox is None or oy is None:
            return False
        kx, ky = self.key_of(e, *ox), self.key_of(e, *oy)
        if kx is None or ky is None:
            return False
        if f is None:
            # the natural order of the whole elements
            t = e.snap(s, x)
            return any(plain(z) is k for k in kx for z in subterms(t))
        rx_, ry = models.tmpref(e, s, x, c.site + ('x',)), models.tmpref(e, s, y, c.site + ('y',))
        if by_key:
            rs = e.call_value(s, f, [rx_], c.site + ('key',))
            return bool(rs) and all(any(plain(z) is k for k in kx[:2] for z in subterms(e.snap(s2, v))) and self.whole(e, s2, v, kx) for s2, v in rs)
        self.cmp = (kx, ky)
        rs = e.call_value(s, f, [rx_, ry], c.site + ('cmp',))
        self.cmp = None
        return bool(rs) and all(('keycmp',) in s2.auto for s2, v in rs)
    cmp = None
    def whole(self, e, st, v, ks):
        """Is the key itself (not something computed from it) in the sort key?"""
        def go(t):
            t = plain(t)
            if any(t is k for k in ks):
                return True
            if t.k == 'adt':
                return any(go(z) for z in t.a[2:])
            if t.k == 'call' and str(t.a[0]).rsplit('::', 1)[-1] in ('clone', 'to_string', 'to_owned', 'Reverse', 'as_str'):
                return any(go(z) for z in t.a[1:] if hasattr(z, 'k'))
            return False
        return go(e.snap(st, v))
    def is_total_ord(self, c):
        b = c.fn and c.fn.get('body')
        f = b and self.p.fns.get(b)
        return f is None or f['ext'] or bool(f.get('derived'))
    # ---- calls
    def on_call(self, e, st, c):
        last = c.name.rsplit('::', 1)[-1]
        dl = c.decl.rsplit('::', 1)[-1]
        ty = c.aty[0] if c.aty else ''
        if self.cmp is not None and dl in ('cmp', 'partial_cmp') and len(c.args) == 2:
            x, y = (plain(e.snap(st, a)) for a in c.args)
            kx, ky = self.cmp
            if any(x is a and y is b or x is b and y is a for a, b in zip(kx, ky)) and self.is_total_ord(c):
                st.auto = st.auto | {('keycmp',)}
                return [(st, e.fresh(st, c.site, 'ordering'))]
            return None
        if (last in WALK or dl in WALK) and re.match(r"^(&('\w+ )?(mut )?)*(std::collections::|fxhash::|hashbrown::)?(\w+::)*(Fx)?Hash(Map|Set)<", ty) and c.args:
            kind = 'key' if last in ('keys', 'into_keys') or 'HashSet<' in ty.split('Map<')[0] else 'value' if 'values' in last else 'pair'
            self.ctx.count('walks_of_hash_tables')
            m = e.content(st, c.args[0])
            h = mk('call', 'hashorder', e.snap(st, m), E.S(kind))
            if last == 'drain' and c.args[0].k == 'ref':
                e.write(st, e.deep(st, c.args[0].a[0]), E.EMPTY)
            return [(st, models.it('seq', h, E.S('val'), E.I(0)))]
        if self.cmp is not None and c.decl == 'std::cmp::Ordering::then_with' and len(c.args) > 1:
            return [(s2, e.fresh(s2, c.site, 'ordering')) for s2, v in e.call_value(st, c.args[1], [], c.site + ('then',))]
        if (GROW(c.name) or GROW(c.decl)) and len(c.args) > 1 and not TABLE.search(ty.split('<')[0]) and self.src(e, st, c.args[1]) is not None:
            self.say('order:' + self.p.display(c.fnkey), '%s appends the elements of a hash table to a sequence in its own order' % self.at(c))
        src = self.src(e, st, c.args[0]) if c.args and c.args[0].k in ('adt', 'call', 'ref') else None
        if src is None:
            return self.effect(e, st, c)
        if last in SORTS or dl in SORTS:
            m = last if last in SORTS else dl
            if self.total(e, st, c, c.args[0], c.args[1] if len(c.args) > 1 else None, 'by' in m and 'key' in m):
                self.ctx.count('sorted')
                return [(st, models.it('seq', mk('call', 'ordered', E.S(str(c.site))), E.S('val'), E.I(0)))]
            return [(st, models.it('seq', mk('call', 'unordered', src, E.S('val')), E.S('val'), E.I(0)))]
        if last in VSORTS and c.args[0].k == 'ref' and src.a[0] == 'unordered':
            loc = e.deep(st, c.args[0].a[0])
            itv = self.its.get(src)
            if itv is not None and self.total(e, st, c, itv, c.args[1] if len(c.args) > 1 else None, 'key' in last):
                self.ctx.count('sorted')
                e.write(st, loc, mk('call', 'ordered', E.S(str(c.site))))
            return [(st, E.UNIT)]
        if dl in ('collect', 'from_iter', 'collect_vec', 'extend') and not TABLE.search(target(c.dty) if dl != 'extend' else ty):
            if dl == 'extend':
                return self.effect(e, st, c)
            t = mk('call', 'unordered', src, E.S(str(c.site)))
            self.its[t] = c.args[0]
            return [(st, t)]
        if dl in ('len', 'count', 'is_empty', 'capacity', 'contains', 'contains_key', 'reserve', 'get', 'drop', 'any', 'all', 'sum'):
            if dl in ('len',):
                return [(st, mk('call', 'len', src))]
            if dl != 'is_empty':
                return [(st, e.fresh(st, c.site, dl))] if dl not in ('any', 'all', 'sum', 'get') else None
        if dl in ('index', 'first', 'last', 'pop', 'remove', 'swap_remove', 'nth', 'min_by', 'max_by', 'find', 'find_map', 'position', 'reduce', 'last_mut', 'min_by_key', 'max_by_key', 'fold', 'join', 'format') and src.a[0] in ('unordered', 'hashorder') and c.args[0] is not None:
            if not self.alone(e, st, src):
                self.say('pick:' + self.p.display(c.fnkey), '%s takes an element according to the order of a hash table' % self.at(c))
        return self.effect(e, st, c)
    def effect(self, e, st, c):
        ins = sorted({x[1] for x in st.auto if x[0] == 'in'}, key=lambda t: t.n)
        if not ins:
            return None
        b = c.fn and c.fn.get('body')
        if b and b in self.loud:
            self.say('print:' + self.p.display(c.fnkey), '%s prints (through %s) while a hash table is walked in its own order' % (self.at(c), self.p.display(b)))
            return None
        if b and b in self.p.fns and not self.p.fns[b]['ext'] and not e.inlinable(b):
            # not looked into: it must not be given a sequence to append to
            for a, ty in zip(c.args, c.aty):
                if re.match(r"^&('\w+ )?mut (std::vec::Vec|std::string::String|std::collections::VecDeque|T|W|dyn )", ty) and a.k == 'ref':
                    root = e.deep(st, a.a[0])[0]
                    if any(root in self.live.get(h, ()) for h in ins) or root[0] == 'D':
                        self.say('order:' + self.p.display(c.fnkey), '%s gives a sequence to %s while a hash table is walked in its own order' % (self.at(c), self.p.display(b)))
            return None
        if PRINT(c.name):
            if not transient(e, st, c):
                self.say('print:' + self.p.display(c.fnkey), '%s prints while a hash table is walked in its own order' % self.at(c))
            return None
        if GROW(c.name) or GROW(c.decl):
            if c.args and c.args[0].k == 'ref':
                root = e.deep(st, c.args[0].a[0])[0]
                if not any(root in self.live.get(h, ()) for h in ins) and root[0] != 'D':
                    return None
            self.say('order:' + self.p.display(c.fnkey), '%s appends to a sequence while a hash table is walked in its own order' % self.at(c))
        return None
    def on_ret(self, e, st, c, val):
        done = {x for x in st.auto if x[0] == 'in' and x[2] > len(e.stack)}
        if done and c.fn and c.fn.get('body') in self.p.fns:
            o = self.elem_of(e, st, e.snap(st, val))
            if o and not self.p.fns[c.fn['body']]['ext'] and not self.alone(e, st, o[1]):
                self.say('first:' + self.p.display(c.fn['body']), '%s returns the first element of a hash table' % self.p.display(c.fn['body']))
            st.auto = st.auto - done
    def on_next(self, e, st, it, val, site):
        h = self.src(e, st, it)
        if h is None:
            return
        if val.k == 'adt' and val.a[1] == 1:
            k = set(st.store)
            self.live[h] = self.live[h] & k if h in self.live else k
            st.auto = st.auto | {('in', h, len(e.stack))}
        else:
            st.auto = frozenset(x for x in st.auto if x[:2] != ('in', h))

def run(ctx):
    ctx.rule('Rule: wherever a hash table (HashMap, HashSet) is walked, its elements are sorted by their unique key before they are visited in order, or they only go to another table; '
             'while a table is walked in its own order nothing is appended to a sequence that outlives the visit, written, sent or printed (transient progress lines excepted), no element is picked or returned unless it is the only one, '
             'and no unsorted sequence of its elements leaves the function (abstract interpretation of MIR rooted at each function which walks a table, escalated to its callers when the order leaves it). '
             'Comparisons are evaluated symbolically on two elements and have to compare the keys themselves by a derived or standard order.')
    p = ctx.prog()
    sim = Sim(ctx, p)
    starts = []
    for k in p.ws_fns():
        f = p.fns[k]
        if f.get('derived') or '::_' in k and 'serde' in k or not any(HASHTY.search(l[0]) for l in f['locals']):
            continue
        ctx.count('functions_with_hash_tables')
        for i, t, fn in p.calls(k):
            if fn and (cname(fn).rsplit('::', 1)[-1] in WALK or cdecl(fn).rsplit('::', 1)[-1] in WALK) and any(HASHTY.search(x) for x in t.get('at') or ()):
                starts.append(k)
                break
    ctx.cov['functions_walking_hash_tables'] = len(starts)
    # functions whose prints are not transient progress lines
    class Prints(Client):
        def on_call(self, e, st, c):
            if PRINT(c.name):
                if not transient(e, st, c):
                    noisy.add(c.fnkey)
                return [(st, E.UNIT)]
            return None
    noisy = set()
    g = p.cg()
    near = g.closure(starts)
    for k in direct_callers(p, PRINT):
        if k in near and k not in starts:
            ctx.count('functions_printing')
            try:
                sim.run(k, Prints(), interest=lambda n: False, timeout=15)
            except E.Budget:
                noisy.add(k)
    loud = g.reaching(lambda n: False, also=noisy)
    def analyse(key, clean):
        cl = Order(ctx, p, key, loud)
        e, outs = sim.run(key, cl, interest=lambda n: False, also=tuple(starts))
        for s, v in outs:
            h = cl.src(e, s, v)
            o = cl.elem_of(e, s, e.snap(s, v))
            if h is not None and cl.alone(e, s, h) or o and cl.alone(e, s, o[1]):
                ctx.count('single_elements')
            elif h is not None:
                cl.say('returned:' + p.display(key), '%s returns elements of a hash table in its own order' % p.display(key))
            elif any(x[0] == 'in' for x in s.auto) and o:
                cl.say('first:' + p.display(key), '%s returns the first element of a hash table' % p.display(key))
        return sorted(cl.bad.items())
    for path, (k, m) in escalate(p, starts, analyse):
        ctx.viol(k, m + ('\n  reached from ' + ' <- '.join(p.display(x) for x in path) if len(path) > 1 else ''))
    for k in starts:
        ctx.sample(p.display(k))
    ctx.floor('functions_with_hash_tables', 1)
