"""Transfer functions for std / popular-crate functions (by resolved or declared path)."""
import re
import engine_ref as R   # late-bound engine names

def _fmt_decode(tpl):
    """Decode a core::fmt template: list of str | ('arg', index or None, opts)."""
    out = []
    i = 0
    nxt = 0
    while i < len(tpl):
        n = tpl[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(tpl[i:i+n].decode('utf-8', 'replace'))
            i += n
        elif n == 0x80:
            ln = tpl[i] | tpl[i+1] << 8
            i += 2
            out.append(tpl[i:i+ln].decode('utf-8', 'replace'))
            i += ln
        else:
            opts = {}
            if n & 1:
                opts['flags'] = int.from_bytes(tpl[i:i+4], 'little')
                i += 4
            if n & 2:
                opts['width'] = int.from_bytes(tpl[i:i+2], 'little')
                i += 2
            if n & 4:
                opts['prec'] = int.from_bytes(tpl[i:i+2], 'little')
                i += 2
            idx = nxt
            if n & 8:
                idx = int.from_bytes(tpl[i:i+2], 'little')
                i += 2
            nxt = idx + 1
            if n & 0x10:
                opts['wa'] = 1
            if n & 0x20:
                opts['pa'] = 1
            out.append(('arg', idx, tuple(sorted(opts.items()))))
    return out

def cat(*xs):
    mk = R.E.mk
    out = []
    for x in xs:
        ys = x.a if x.k == 'cat' else (x,)
        for y in ys:
            if y.k == 'empty' or (y.k == 's' and y.a[0] == ''):
                continue
            if y.k == 'ch':
                y = mk('s', chr(y.a[0]))
            if out and out[-1].k == 's' and y.k == 's':
                out[-1] = mk('s', out[-1].a[0] + y.a[0])
            else:
                out.append(y)
    if not out:
        return R.E.EMPTY
    if len(out) == 1:
        return out[0]
    if len(out) > 40:
        return mk('cat', *out[:20], mk('call', 'more', *out[20:21]))
    return mk('cat', *out)

STRTY = ('str', 'std::string::String', 'std::borrow::Cow<\'_, str>', "std::borrow::Cow<'static, str>", 'alloc::string::String')
def is_strty(t):
    t = t.replace('&mut ', '').replace("&'static ", '').replace("&'_ ", '')
    t = re.sub(r"&('\w+ )?", '', t)
    return t in STRTY or t.startswith('std::borrow::Cow<')

def split_bool(self, st, t):
    """Fork on a boolean term."""
    E = R.E
    t = self.known(st, t)
    if t.k == 'b':
        return [(st, t)]
    out = []
    for v in (E.TRUE, E.FALSE):
        s = st.copy()
        if self.assume(s, t, v):
            self.c.on_branch(self, s, t, v)
            out.append((s, v))
    return out

def split_variant(self, st, v, adt):
    """Fork an opaque enum value into its variants: [(state, variant index, payload fields getter)]."""
    E = R.E
    while v.k == 'obj':
        v = v.a[0]
    if v.k == 'adt':
        return [(st, v.a[1], v)]
    A = self.p.adts.get(adt)
    n = [x['d'] for x in A['variants']] if A else [0, 1]
    d = self.known(st, E.mk('discr', v, adt))
    out = []
    for i, x in enumerate(n):
        if d.k == 'i':
            if d.a[0] == x:
                out.append((st, i, v))
            continue
        s = st.copy()
        if self.assume(s, E.mk('discr', v, adt), E.I(x)):
            self.c.on_branch(self, s, E.mk('discr', v, adt), E.I(x))
            out.append((s, i, v))
    return out

def payload(v, variant, i=0):
    return R.E.getproj(v, ('f', variant, i))

# ------------------------------------------------------------------ iterators
def it(kind, *xs):
    return R.E.mk('adt', 'it:' + kind, 0, *xs)

def elem_of(self, st, src, site):
    """An arbitrary element of an opaque collection/iterator."""
    E = R.E
    return self.fresh(st, site + ('el',), 'elem')

def with_tmp(self, s, f, x, site, tag):
    """Call predicate f on a reference to x. -> [(state, truth, x afterwards)]"""
    E = R.E
    s = s.copy()
    rr = self.tmpref(s, x, site)
    keep = ('R', site, 'kept')
    s.store[keep] = E.tup(rr, x)
    out = []
    for s2, bv in self.call_value(s, f, [rr], site + (tag,)):
        for s3, b in split_bool(self, s2, bv):
            s3 = s3.copy()
            k = s3.store.pop(keep)
            out.append((s3, b is E.TRUE, self.read(s3, rr.a[0]) if rr.a[0][0] in s3.store else k.a[3]))
    return out

def templ(self, s, site, cur, x):
    """The collection `cur` (of elements like x) with x added: its elements are described by one term over
    template atoms, with the facts that hold for all of them."""
    E = R.E
    if not getattr(self.c, 'templates', False) or E.has_ref(x):
        return E.mk('coll', site, x)
    m = {l: E.mk('tmpl', site, l) for l in E.leaves(x) if l.k in ('fresh', 'phi', 'old')}
    if not m:
        return E.mk('coll', site, x)
    xt = E.subst(x, m)
    new = {}
    for k, v in s.facts.items():
        if E.leaves(k) & m.keys():
            new[E.subst(k, m)] = v
    ts = {l for k in s.facts for l in E.leaves(k) if l.k == 'tmpl' and l.a[0] == site}
    for k in [k for k in s.facts if E.leaves(k) & ts]:
        if new.get(k) is not s.facts[k]:
            del s.facts[k]
    if cur.k == 'empty':
        s.facts.update(new)
    if cur.k == 'coll' and cur.a[0] == site:
        return self.join_coll(cur, E.mk('coll', site, xt))
    return E.mk('coll', site, xt)

def inst(self, s, x, site):
    """A new arbitrary element of a collection described by the template x."""
    E = R.E
    ts = [l for l in E.leaves(x) if l.k == 'tmpl']
    if not ts:
        return x
    m = {l: self.fresh(s, site + ('inst',), str(i) + str(l.a[1])) for i, l in enumerate(sorted(ts, key=lambda t: t.n))}
    for k, v in list(s.facts.items()):
        if E.leaves(k) & m.keys():
            s.facts[E.subst(k, m)] = v
    return E.subst(x, m)

def nxt(self, st, loc, site, depth=0):
    """Advance the iterator stored at loc. -> [(state, Option value)]"""
    E = R.E
    v = self.read(st, loc)
    n = 0
    while v.k == 'ref' or (v.k == 'adt' and v.a[0] == 'box'):
        loc = v.a[0] if v.k == 'ref' else v.a[2].a[0]
        v = self.read(st, loc)
        n += 1
        if n > 8:
            break
    r, p = loc
    site = site + (depth,) if depth else site
    h = self.c.next_items(self, st, loc, v, site)
    if h is not None:
        return h
    if v.k == 'adt' and v.a[0].startswith('it:'):
        kind = v.a[0][3:]
        inner = (r, p + (('f', 0, 0),))
        f1 = (r, p + (('f', 0, 1),))
        if kind in ('map', 'inspect', 'enumerate', 'cloned', 'copied', 'take', 'peekable', 'rev', 'fuse', 'take_while', 'map_while', 'sorted'):
            out = []
            for s, o in nxt(self, st, inner, site, depth + 1):
                if E.is_none(o):
                    out.append((s, E.NONE))
                    continue
                x = o.a[2]
                if kind == 'map':
                    for s2, y in self.call_value(s, E.mk('ref', f1), [x], site + ('map',)):
                        out.append((s2, E.some(y)))
                elif kind == 'map_while':
                    for s2, y in self.call_value(s, E.mk('ref', f1), [x], site + ('map',)):
                        for s3, vi, y2 in split_variant(self, s2, y, E.OPT):
                            out.append((s3, E.some(payload(y2, 1)) if vi == 1 else E.NONE))
                elif kind == 'inspect':
                    for s2, y in self.call_value(s, E.mk('ref', f1), [self.tmpref(s, x, site)], site + ('map',)):
                        out.append((s2, o))
                elif kind == 'enumerate':
                    cnt = self.read(s, f1)
                    s = s.copy()
                    self.write(s, f1, E.simp_op('Add', cnt, E.I(1)))
                    out.append((s, E.some(E.tup(cnt, x))))
                elif kind in ('cloned', 'copied'):
                    out.append((s, E.some(self.content(s, x) if x.k == 'ref' else deref_sym(x))))
                elif kind == 'take_while':
                    for s4, b, x2 in with_tmp(self, s, E.mk('ref', f1), x, site, 'pred'):
                        out.append((s4, E.some(x2) if b else E.NONE))
                elif kind == 'take':
                    n = self.read(s, f1)
                    if n.k == 'i':
                        if n.a[0] <= 0:
                            out.append((st.copy(), E.NONE))
                        else:
                            s2 = s.copy()
                            self.write(s2, f1, E.I(n.a[0] - 1))
                            out.append((s2, o))
                    else:
                        out.append((s, o))
                        out.append((st.copy(), E.NONE))
                else:
                    out.append((s, o))
            if kind == 'take':
                # an exhausted take never advances its source
                n = self.read(st, f1)
                if n.k == 'i' and n.a[0] <= 0:
                    return [(st, E.NONE)]
            return out
        if kind in ('filter', 'filter_map', 'skip_while'):
            def body(s):
                again, ex = [], []
                for s1, o in nxt(self, s, inner, site, depth + 1):
                    if E.is_none(o):
                        ex.append((s1, E.NONE))
                        continue
                    x = o.a[2]
                    if kind == 'filter_map':
                        for s2, y in self.call_value(s1, E.mk('ref', f1), [x], site + ('fm',)):
                            for s3, vi, y2 in split_variant(self, s2, y, E.OPT):
                                if vi == 1:
                                    ex.append((s3, E.some(payload(y2, 1))))
                                else:
                                    again.append((s3, None))
                    else:
                        for s3, b, x2 in with_tmp(self, s1, E.mk('ref', f1), x, site, 'pred'):
                            if b == (kind == 'filter'):
                                ex.append((s3, E.some(x2)))
                            else:
                                again.append((s3, None))
                return again, ex
            return self.abs_loop(st, site + (kind,), body)[1]
        if kind in ('skip', 'step_by'):
            n = self.known(st, self.read(st, f1))
            if n.k == 'i' and n.a[0] == (0 if kind == 'skip' else 1):
                return nxt(self, st, inner, site, depth + 1)
            # any number of elements may be dropped before the next one
            def body(s):
                again, ex = [], []
                for s1, o in nxt(self, s, inner, site, depth + 1):
                    if E.is_none(o):
                        ex.append((s1, o))
                    else:
                        again.append((s1.copy(), None))
                        ex.append((s1, o))
                return again, ex
            return self.abs_loop(st, site + (kind,), body)[1]
        if kind == 'chain':
            out = []
            for s, o in nxt(self, st, inner, site, depth + 1):
                if E.is_none(o):
                    out.extend(nxt(self, s, f1, site + ('c2',), depth + 1))
                else:
                    out.append((s, o))
            return out
        if kind == 'zip':
            out = []
            for s, o in nxt(self, st, inner, site, depth + 1):
                if E.is_none(o):
                    out.append((s, o))
                    continue
                for s2, o2 in nxt(self, s, f1, site + ('z2',), depth + 1):
                    out.append((s2, E.NONE if E.is_none(o2) else E.some(E.tup(o.a[2], o2.a[2]))))
            return out
        if kind in ('flatten', 'flat_map'):
            # element of an element
            out = []
            def body(s):
                again, ex = [], []
                for s1, o in nxt(self, s, inner, site, depth + 1):
                    if E.is_none(o):
                        ex.append((s1, E.NONE))
                        continue
                    xs = [(s1, o.a[2])]
                    if kind == 'flat_map':
                        xs = self.call_value(s1, E.mk('ref', f1), [o.a[2]], site + ('fm',))
                    for s2, y in xs:
                        s2 = s2.copy()
                        y = into_iter(self, s2, y, site + ('ii',))
                        rr = ('C', site, 'flat')
                        s2.store[rr] = y
                        for s3, o3 in nxt(self, s2, (rr, ()), site + ('in',), depth + 1):
                            if E.is_none(o3):
                                again.append((s3, None))
                            else:
                                ex.append((s3, o3))
                return again, ex
            return self.abs_loop(st, site + (kind,), body)[1]
        if kind == 'once':
            flag = self.read(st, f1)
            if flag is E.TRUE:
                return [(st, E.NONE)]
            s = st.copy()
            self.write(s, f1, E.TRUE)
            return [(s, E.some(v.a[2]))]
        if kind == 'empty':
            return [(st, E.NONE)]
        if kind == 'opt':
            x = v.a[2]
            if x is E.UNDEF:
                return [(st, E.NONE)]
            out = []
            for s, vi, y in split_variant(self, st, x, E.OPT):
                s = s.copy()
                self.write(s, inner, E.NONE)
                out.append((s, E.some(payload(y, 1)) if vi == 1 else E.NONE))
            return out
        if kind == 'res':
            x = v.a[2]
            out = []
            for s, vi, y in split_variant(self, st, x, E.RES):
                s = s.copy()
                self.write(loc and s, (r, p), it('empty'))
                out.append((s, E.some(payload(y, 0)) if vi == 0 else E.NONE))
            return out
        if kind == 'range':
            lo, hi = v.a[2], v.a[3]
            out = []
            for s, b in split_bool(self, st, self.known(st, E.simp_op('Lt', lo, hi))):
                if b is E.TRUE:
                    s = s.copy()
                    self.write(s, inner, E.simp_op('Add', lo, E.I(1)))
                    out.append((s, E.some(lo)))
                else:
                    out.append((s, E.NONE))
            return out
        if kind == 'seq':
            # (collection term, mode) — elements of a known or opaque collection, by value or by reference
            src, mode = v.a[2], v.a[3].a[0]
            pos = v.a[4] if len(v.a) > 4 else E.I(0)
            csrc = self.content(st, src)
            out = []
            if csrc.k == 'empty':
                s = st.copy()
                self.c.on_next(self, s, v, E.NONE, site)
                return [(s, E.NONE)]
            if csrc.k == 'adt' and csrc.a[0] == 'array' and pos.k == 'i':
                i = pos.a[0]
                if i >= len(csrc.a) - 2:
                    s = st.copy()
                    self.c.on_next(self, s, v, E.NONE, site)
                    return [(s, E.NONE)]
                s = st.copy()
                self.write(s, (r, p + (('f', 0, 2),)), E.I(i + 1))
                x = csrc.a[i + 2]
                if mode == 'ref':
                    x = E.mk('ref', (src.a[0][0], src.a[0][1] + (('ix', E.I(i)),))) if src.k == 'ref' else x
                o = E.some(x)
                self.c.on_next(self, s, v, o, site)
                return [(s, o)]
            s = st.copy()
            self.c.on_next(self, s, v, E.NONE, site)
            out.append((s, E.NONE))
            if csrc.k == 'adt' and csrc.a[0] == 'array' and len(csrc.a) <= 10 and src.k != 'ref':
                # position unknown: any of the elements
                for x in dict.fromkeys(csrc.a[2:]):
                    s = st.copy()
                    o = E.some(x)
                    self.c.on_next(self, s, v, o, site)
                    out.append((s, o))
                return out
            s = st.copy()
            if csrc.k == 'coll':
                x = inst(self, s, csrc.a[1], site)
                if mode == 'ref':
                    x = self.tmpref(s, x, site + ('cel',))
            else:
                x = self.fresh(s, site + ('el',), 'elem')
                base = self.snap(s, src)
                s.facts[E.mk('elemof', x)] = base if base.k not in ('i', 'b') else E.UNDEF
            o = E.some(x)
            self.c.on_next(self, s, v, o, site)
            out.append((s, o))
            return out
        if kind == 'drain':
            src = v.a[2]
            s = st.copy()
            out = [(s, E.NONE)]
            self.c.on_next(self, s, v, E.NONE, site)
            s = st.copy()
            x = self.fresh(s, site + ('el',), 'elem')
            o = E.some(x)
            self.c.on_next(self, s, v, o, site)
            out.append((s, o))
            return out
    if v.k == 'adt':
        k = self.p.iter_impls.get(v.a[0])
        if k and self.inlinable(k):
            out = []
            for s, o in self.exec_fn(k, [E.mk('ref', loc)], st, self.fid(site, ('next', k))):
                for s2, vi, y in split_variant(self, s, o, E.OPT):
                    out.append((s2, E.NONE if vi == 0 else E.some(payload(y, 1))))
            return out
        if v.a[0] == 'core::ops::range::RangeFrom' and len(v.a) == 3:
            s = st.copy()
            self.write(s, (r, p + (('f', 0, 0),)), E.simp_op('Add', v.a[2], E.I(1)))
            return [(s, E.some(v.a[2]))]
        if v.a[0] == 'core::ops::range::Range' and len(v.a) == 4:
            lo, hi = v.a[2], v.a[3]
            out = []
            for s, b in split_bool(self, st, self.known(st, E.simp_op('Lt', lo, hi))):
                if b is E.TRUE:
                    s = s.copy()
                    self.write(s, (r, p + (('f', 0, 0),)), E.simp_op('Add', lo, E.I(1)))
                    out.append((s, E.some(lo)))
                else:
                    out.append((s, E.NONE))
            return out
    # opaque iterator
    out = []
    s = st.copy()
    self.c.on_next(self, s, v, E.NONE, site)
    out.append((s, E.NONE))
    s = st.copy()
    src = self.snap(s, v)
    x = self.fresh(s, site + ('el',), 'elem')
    s.facts[E.mk('elemof', x)] = src if src.k not in ('i', 'b') else E.UNDEF
    o = E.some(x)
    self.c.on_next(self, s, v, o, site)
    out.append((s, o))
    return out

def deref_sym(x):
    E = R.E
    return E.mk('deref', x) if x.k not in E.CONSTS and x.k not in ('adt', 'deref', 'cat') else x

def into_iter(self, st, v, site, ty=''):
    """IntoIterator::into_iter on a value."""
    E = R.E
    m = re.match(r"&('\w+ )?mut (.*)", ty)
    if m and not m.group(2).startswith(('std::vec::', '[', 'std::collections::', 'std::option::', 'std::result::', 'std::path::')):
        return v          # &mut I where I is an iterator
    if v.k == 'adt':
        if v.a[0].startswith('it:') or v.a[0] in self.p.iter_impls or v.a[0] in ('core::ops::range::Range', 'core::ops::range::RangeFrom'):
            return v
        if v.a[0] == E.OPT:
            return it('opt', v)
        if v.a[0] == E.RES:
            return it('res', v)
        if v.a[0] == 'box':
            return v
        if v.a[0] == 'array':
            return it('seq', v, E.S('val'), E.I(0))
    if v.k == 'ref':
        c = self.read(st, v.a[0])
        if 'dyn std::iter::Iterator' in ty:
            return v
        if c.k == 'adt':
            if c.a[0].startswith('it:') or c.a[0] in self.p.iter_impls:
                return v          # &mut I
            if c.a[0] == E.OPT:
                out = it('opt', E.some(E.mk('ref', (v.a[0][0], v.a[0][1] + (('f', 1, 0),)))) if c.a[1] == 1 else E.NONE)
                return out
        return it('seq', v, E.S('ref'), E.I(0))
    t = ty.replace('&mut ', '').replace('&', '')
    if t.startswith(('std::option::Option<',)):
        return it('opt', v)
    if t.startswith(('std::result::Result<',)):
        return it('res', v)
    if 'Iter' in ty.split('<')[0] or 'iter::' in ty.split('<')[0] or ty.startswith('impl ') or 'dyn std::iter::Iterator' in ty or 'Box<dyn' in ty:
        return v
    return it('seq', v, E.S('ref' if ty.startswith('&') else 'val'), E.I(0))

def consume(self, st, itv, site, per, init=None):
    """Drain an iterator value. per(state, elem) -> [(state, 'go'|('exit', value))].
    Returns [(state, None if exhausted else exit value)]."""
    E = R.E
    root = ('C', site, 'it')
    st = st.copy()
    st.store[root] = itv
    keep = ('R', site, 'it')
    st.store[keep] = E.mk('ref', (root, ()))
    def body(s):
        again, ex = [], []
        for s1, o in nxt(self, s, (root, ()), site + ('nx',)):
            if E.is_none(o):
                ex.append((s1, None))
                continue
            for s2, d in per(s1, o.a[2]):
                if d == 'go':
                    again.append((s2, None))
                else:
                    ex.append((s2, d))
        return again, ex
    _, exits = self.abs_loop(st, site + ('consume',), body)
    out = []
    for s, d in exits:
        s = s.copy()
        s.store.pop(keep, None)
        out.append((s, d))
    return out

def tmpref(self, st, x, site):
    """A reference to a temporary holding x."""
    E = R.E
    r = ('C', site, 'tmp')
    st.store[r] = x
    return E.mk('ref', (r, ()))

# ------------------------------------------------------------------ dispatch
def model(self, st, c):
    E = R.E
    site = c.site
    mk, I, S = E.mk, E.I, E.S
    n, d, a = c.name, c.decl, c.args
    last = d.rsplit('::', 1)[-1]

    # --- tracing macros: one level decision, taken from the client
    if n.startswith('tracing'):
        m = n.rsplit('::', 1)[-1]
        if m in ('le', 'lt', 'ge', 'gt') and 'evel' in n:
            return [(st, E.B(self.c.tracing))]
        if m == 'is_never':
            return [(st, E.FALSE)]
        if m in ('__is_enabled', 'is_enabled'):
            return [(st, E.B(self.c.tracing))]
        if m in ('is_disabled', 'is_none'):
            return [(st, E.B(not self.c.tracing))]
    # --- calling closures
    if d in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call', 'std::ops::function::FnOnce::call_once'):
        tupv = a[1]
        if tupv.k == 'adt' and tupv.a[0] == 'tuple':
            args = list(tupv.a[2:])
        else:
            nn = self.closure_argc(st, a[0])
            args = [E.getproj(tupv, ('f', 0, i)) for i in range(nn)]
        return self.call_value(st, a[0], args, c.site + ('cv',), c)

    # --- lazily initialised statics
    if n in ('lazy_static::lazy::Lazy::get', 'std::sync::OnceLock::get_or_init', 'std::sync::LazyLock::force', 'once_cell::sync::Lazy::force', 'once_cell::sync::OnceCell::get_or_init'):
        f = self.content(st, a[1]) if len(a) > 1 else None
        if f is not None:
            root = ('S', repr(f.a))
            if root in st.store:
                return [(st, mk('ref', (root, ())))]
            out = []
            for s, v in self.call_value(st, a[1], [], c.site + ('lazy',), c):
                s = s.copy()
                s.store[root] = v
                out.append((s, mk('ref', (root, ()))))
            return out
    if d.startswith('std::ops::Deref::deref') and c.fn.get('selfadt') in ('std::sync::lazy_lock::LazyLock', 'once_cell::sync::Lazy'):
        return None

    # --- content preserving conversions
    if d in ('std::clone::Clone::clone',):
        v = self.content1(st, a[0])
        return [(st, v)]
    if d in E.IDENT_REF or n in E.IDENT_REF:
        if not (d in ('std::convert::AsRef::as_ref', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::borrow::Borrow::borrow', 'std::convert::AsMut::as_mut') and c.fn.get('kind') == 'ws'):
            return [(st, a[0])]
    if d in E.IDENT_VAL or n in E.IDENT_VAL:
        return [(st, self.content(st, a[0]))]
    if d == 'std::string::ToString::to_string':
        t = c.aty[0] if c.aty else ''
        if is_strty(t) or (c.fn['targs'] and is_strty(c.fn['targs'][0])):
            return [(st, self.content(st, a[0]))]
        return [(st, mk('call', 'fmt:display', S(''), self.snap(st, a[0])))]
    if d in ('std::convert::From::from', 'std::convert::Into::into'):
        ta = c.fn['targs']
        if d.endswith('from'):
            dst, src = ta[0], ta[1] if len(ta) > 1 else ''
        else:
            src, dst = ta[0], ta[1] if len(ta) > 1 else ''
        if src == dst:
            return [(st, a[0])]
        strish = lambda t: is_strty(t) or t in ('char', 'std::path::PathBuf', '&std::path::Path', 'std::ffi::OsString', '&std::ffi::OsStr', 'std::boxed::Box<str>')
        if strish(src) and strish(dst):
            return [(st, self.content(st, a[0]))]
        if dst.startswith('std::boxed::Box<dyn std::error::Error') or dst in ('anyhow::Error', 'std::io::Error'):
            return [(st, mk('call', 'conv:' + dst, self.snap(st, a[0])))]
        if dst.startswith('std::option::Option<'):
            return [(st, E.some(a[0]))]
        if c.fn.get('body') and not self.p.fns.get(c.fn['body'], {'ext': True})['ext']:
            return None
        return [(st, mk('call', n, *[self.snap(st, x) for x in a]))]
    if n == 'std::borrow::Cow::into_owned' or n == 'std::borrow::Cow::Borrowed':
        return [(st, self.content(st, a[0]))]

    if d in ('anyhow::Context::context', 'anyhow::Context::with_context'):
        v = a[0]
        opt = any('option::Option<' in t for t in c.fn['targs'][:1]) or (c.aty and c.aty[0].startswith('std::option::Option'))
        out = []
        for s, i, w in split_variant(self, st, v, E.OPT if opt else E.RES):
            if opt:
                if i == 1:
                    out.append((s, E.ok(payload(w, 1))))
                else:
                    out.append((s, E.err(mk('call', 'msg', self.snap(s, a[1])))))
            elif i == 0:
                out.append((s, E.ok(payload(w, 0))))
            else:
                out.append((s, E.err(mk('call', 'context', payload(w, 1), self.snap(s, a[1])))))
        return out

    # --- memory
    if n in ('std::mem::replace',):
        if a[0].k == 'ref':
            s = st.copy()
            old = self.read(s, a[0].a[0])
            self.write(s, a[0].a[0], a[1])
            self.prev = old
            self.c.on_write(self, s, a[0].a[0], a[1], c.fnkey, c.block)
            return [(s, old)]
        loc = (('D', a[0]), ())
        s = st.copy()
        old = self.read(s, loc)
        self.write(s, loc, a[1])
        self.prev = old
        self.c.on_write(self, s, loc, a[1], c.fnkey, c.block)
        return [(s, old)]
    if n in ('std::mem::take',) or n == 'std::option::Option::take':
        loc = a[0].a[0] if a[0].k == 'ref' else (('D', a[0]), ())
        s = st.copy()
        old = self.read(s, loc)
        ty = (c.fn['targs'] or [''])[0]
        dv = E.NONE if n.endswith('Option::take') or ty.startswith('std::option::Option') else E.EMPTY if ty.startswith(('std::vec', 'std::string', 'std::collections')) else E.FALSE if ty == 'bool' else I(0) if ty in ('usize', 'u64', 'u32', 'i32') else mk('call', 'default', S(ty))
        self.write(s, loc, dv)
        self.prev = old
        self.c.on_write(self, s, loc, dv, c.fnkey, c.block)
        return [(s, old)]
    if n == 'std::mem::swap':
        la = a[0].a[0] if a[0].k == 'ref' else (('D', a[0]), ())
        lb = a[1].a[0] if a[1].k == 'ref' else (('D', a[1]), ())
        s = st.copy()
        x, y = self.read(s, la), self.read(s, lb)
        self.write(s, la, y)
        self.write(s, lb, x)
        self.prev = x
        self.c.on_write(self, s, la, y, c.fnkey, c.block)
        self.prev = y
        self.c.on_write(self, s, lb, x, c.fnkey, c.block)
        return [(s, E.UNIT)]
    if n in ('std::mem::drop', 'std::ops::Drop::drop'):
        s = st.copy()
        self.c.on_drop(self, s, a[0], c.aty[0] if c.aty else '', c.fnkey, c.block)
        return [(s, E.UNIT)]
    if n in ('std::boxed::Box::new', 'std::boxed::Box::pin') or (n == 'std::boxed::box_new'):
        s = st.copy()
        r = ('H', c.site)
        s.store[r] = a[0]
        return [(s, mk('ref', (r, ())))]
    if n.startswith('std::boxed::box_assume_init_into_vec_unsafe') or n.endswith('::into_vec') or n.endswith('box_assume_init_into_vec_unsafe'):
        v = self.content(st, a[0])
        while v.k == 'adt' and len(v.a) == 3 and 'aybe' in v.a[0]:
            v = v.a[2]
        if v.k == 'obj':
            vs = [x for _, x in v.a[1]]
            if len(vs) == 1:
                v = vs[0]
        for _ in range(4):
            if v.k == 'adt' and v.a[0] != 'array' and len(v.a) == 3:
                v = v.a[2]
        return [(st, v)]

    # --- Default
    if d == 'std::default::Default::default':
        ty = (c.fn['targs'] or [''])[0]
        if ty.startswith(('std::vec::Vec', 'std::string::String', 'std::collections::')):
            return [(st, E.EMPTY)]
        if ty.startswith('std::option::Option'):
            return [(st, E.NONE)]
        if ty == 'bool':
            return [(st, E.FALSE)]
        if ty in ('usize', 'u64', 'u32', 'i32', 'i64', 'u8'):
            return [(st, I(0))]
        if (ty if ty != 'T' else c.dty or '').lstrip('&').split(' ')[-1] in ('str', 'std::ffi::OsStr'):
            return [(st, S(''))]
        return None
    if n in ('std::ffi::OsStr::to_str', 'std::path::Path::to_str') and a:
        v = self.content(st, a[0])
        if v.k == 's':
            return [(st, E.some(v))]

    # --- collections
    if n in ('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::string::String::new', 'std::string::String::with_capacity',
             'std::collections::VecDeque::new', 'std::collections::VecDeque::with_capacity', 'std::collections::HashMap::new', 'std::collections::HashSet::new',
             'std::collections::HashMap::with_capacity', 'std::collections::HashSet::with_capacity', 'std::collections::BTreeMap::new', 'std::collections::BTreeSet::new',
             'bytes::BytesMut::new', 'bytes::BytesMut::with_capacity'):
        return [(st, E.EMPTY)]
    if n in ('std::vec::Vec::push', 'std::collections::VecDeque::push_back', 'std::collections::VecDeque::push_front', 'std::string::String::push_str', 'std::string::String::push', 'std::vec::Vec::clear', 'std::string::String::clear',
             'std::collections::VecDeque::clear', 'std::collections::HashSet::clear', 'std::collections::HashMap::clear', 'bytes::BytesMut::clear', 'std::vec::Vec::append', 'std::vec::Vec::extend_from_slice'):
        loc = a[0].a[0] if a[0].k == 'ref' else (('D', a[0]), ())
        loc = self.deep(st, loc)
        s = st.copy()
        old = self.read(s, loc)
        if last == 'clear':
            nv = E.EMPTY
        elif last in ('push_str',):
            nv = cat(old, self.content(s, a[1]))
        elif n == 'std::string::String::push':
            nv = cat(old, a[1] if a[1].k != 'i' else a[1])
        elif last in ('append', 'extend_from_slice'):
            nv = mk('call', 'append', old, self.snap(s, a[1]))
            if last == 'append' and old.k == 'empty' and a[1].k == 'ref':
                nv = self.content(s, a[1])
            if last == 'append':
                l2 = a[1].a[0] if a[1].k == 'ref' else (('D', a[1]), ())
                self.write(s, l2, E.EMPTY)
        elif getattr(self.c, 'templates', False) and n == 'std::vec::Vec::push' and (old.k == 'empty' or (old.k == 'coll' and old.a[0] == site)):
            nv = templ(self, s, site, old, a[1])
        else:
            nv = mk('vpush', old if depth_of(old) < 6 else mk('call', 'many', mk('s', 'v')), self.content(s, a[1]) if a[1].k == 'ref' else a[1])
        self.write(s, loc, nv)
        return [(s, E.UNIT)]
    if n in ('std::string::String::add', 'std::string::String::add_assign') and len(a) == 2:
        if last == 'add':
            return [(st, cat(self.snap(st, a[0]), self.content(st, a[1])))]
        s = st.copy()
        loc = self.deep(s, a[0].a[0] if a[0].k == 'ref' else (('D', a[0]), ()))
        self.write(s, loc, cat(self.read(s, loc), self.content(s, a[1])))
        return [(s, E.UNIT)]
    if n.startswith('[T]::sort') or n in ('std::vec::Vec::retain', 'std::vec::Vec::truncate', 'std::vec::Vec::reverse', '[T]::reverse'):
        loc = a[0].a[0] if a[0].k == 'ref' else (('D', a[0]), ())
        loc = self.deep(st, loc)
        old = self.read(st, loc)
        if old.k in ('coll', 'empty'):
            if last != 'retain' and (len(a) == 1 or last == 'truncate'):
                return [(st, E.UNIT)]
            s = st.copy()
            if old.k == 'empty':
                return [(s, E.UNIT)]
            f = self.hold(s, a[1], site)
            if last == 'retain':
                got = ('R', site, 'got')
                s.store[got] = E.EMPTY
                def per(s1, x):
                    out = []
                    for s2, b, x2 in with_tmp(self, s1, f, x, site, 'ret'):
                        if b:
                            s2 = s2.copy()
                            s2.store[got] = templ(self, s2, site, self.read(s2, (got, ())), x2)
                        out.append((s2, 'go'))
                    return out
                out = []
                for s2, _ in consume(self, s, it('seq', old, E.S('val'), I(0)), site, per):
                    s2 = s2.copy()
                    self.write(s2, loc, s2.store.pop(got))
                    out.append((s2, E.UNIT))
                return out
            x = self.tmpref(s, old.a[1], site + ('s1',))
            y = self.tmpref(s, old.a[1], site + ('s2',))
            args = [x] if 'key' in last else [x, y]
            return [(q, E.UNIT) for q, _ in self.call_value(s, f, args, site + ('cmp',))]
    if last == 'len' and len(a) == 1 and (n.startswith(('std::', 'str::', '[', 'bytes::')) or d == 'std::iter::ExactSizeIterator::len') and c.fn['kind'] != 'ws':
        return [(st, self.length(st, self.content(st, a[0])))]
    if last == 'is_empty' and len(a) == 1 and n.startswith(('std::', 'str::', '[', 'bytes::')) and c.fn['kind'] != 'ws':
        l = self.length(st, self.content(st, a[0]))
        return [(st, self.known(st, E.simp_op('Eq', l, I(0))))]

    if (d == 'std::ops::Index::index' or last == 'get' and n in ('str::get', '[T]::get')) and len(a) == 2 and c.fn['kind'] != 'ws':
        rg = self.content(st, a[1])
        if rg.k == 'adt' and rg.a[0].rsplit('::', 1)[-1] in ('Range', 'RangeTo', 'RangeFrom', 'RangeFull'):
            base = self.content(st, a[0])
            kind = rg.a[0].rsplit('::', 1)[-1]
            lo = rg.a[2] if kind in ('Range', 'RangeFrom') else I(0)
            hi = rg.a[3] if kind == 'Range' else rg.a[2] if kind == 'RangeTo' else self.length(st, base)
            if base.k == 'slice':
                lo, hi = E.simp_op('Add', base.a[1], lo), E.simp_op('Add', base.a[1], hi)
                base = base.a[0]
            v = base if kind == 'RangeFull' else mk('slice', base, lo, hi)
            if last == 'get':
                out = []
                for s, b in split_bool(self, st, mk('call', 'inrange', base, lo, hi)):
                    out.append((s, E.some(v) if b is E.TRUE else E.NONE))
                return out
            return [(st, v)]

    # --- numbers
    if d in ('std::cmp::Ord::max', 'std::cmp::Ord::min') and len(a) == 2 and (c.fn['targs'] and c.fn['targs'][0] in ('usize', 'u64', 'u32', 'i32', 'i64', 'u8')) or n in ('std::cmp::max', 'std::cmp::min'):
        return self.minmax(st, last, a[0], a[1])
    if n in ('usize::saturating_sub', 'u64::saturating_sub', 'u32::saturating_sub'):
        out = []
        for s, b in split_bool(self, st, self.known(st, E.simp_op('Lt', a[0], a[1]))):
            out.append((s, I(0) if b is E.TRUE else E.simp_op('Sub', a[0], a[1])))
        return out
    if n in ('usize::checked_sub', 'u64::checked_sub', 'u32::checked_sub'):
        out = []
        for s, b in split_bool(self, st, self.known(st, E.simp_op('Lt', a[0], a[1]))):
            out.append((s, E.NONE if b is E.TRUE else E.some(E.simp_op('Sub', a[0], a[1]))))
        return out
    if d in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne') and len(a) == 2:
        # structural equality on snapshots (derived impls of workspace enums are decided on variants)
        x, y = self.snap(st, a[0]), self.snap(st, a[1])
        r = eq_terms(self, st, x, y)
        if r is None:
            for u, w in ((x, y), (y, x)):
                # one side a fieldless variant of an enum: compare discriminants
                if u.k == 'adt' and len(u.a) == 2 and u.a[0] in self.p.adts and self.p.adts[u.a[0]]['kind'] == 'enum' and w.k not in ('adt',):
                    t = mk('op', 'Eq', *sorted((mk('discr', w, u.a[0]), I(self.p.adts[u.a[0]]['variants'][u.a[1]]['d'])), key=lambda z: z.n))
                    if last == 'ne':
                        t = E.simp_op('Not', t)
                    return [(st, self.known(st, t))]
            if x.n > y.n:
                x, y = y, x
            t = mk('op', 'Eq', x, y)
            if last == 'ne':
                t = E.simp_op('Not', t)
            return [(st, self.known(st, t))]
        return [(st, E.B(r if last == 'eq' else not r))]
    if d in ('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge') and len(a) == 2 and c.fn.get('kind') != 'ws':
        return [(st, self.known(st, E.simp_op(last.capitalize(), self.snap(st, a[0]), self.snap(st, a[1]))))]

    # --- formatting
    if n.startswith('std::fmt::rt::Argument::new_'):
        kind = last[4:]
        v = self.snap(st, a[0])
        ty = (c.fn['targs'] or [''])[-1]
        return [(st, mk('call', 'fmtarg', S(kind), S(ty), v))]
    if n in ('std::fmt::Arguments::new',):
        tpl = self.content(st, a[0])
        ar = self.content(st, a[1])
        if tpl.k == 'by' and ar.k == 'adt':
            return [(st, fmt_term(tpl.a[0], [x for x in ar.a[2:]]))]
        return [(st, mk('call', 'fmtargs', tpl, self.snap(st, ar)))]
    if n.startswith('std::fmt::Arguments::from_str') or n == 'std::fmt::Arguments::new_const':
        return [(st, self.content(st, a[0]))]
    if n in ('std::fmt::format', 'std::fmt::Arguments::to_string', 'std::fmt::format::format_inner'):
        return [(st, self.content(st, a[0]))]

    # --- iterators
    if d == 'std::iter::IntoIterator::into_iter':
        k = c.fn.get('kind')
        if k != 'ws':
            s = st.copy()
            return [(s, into_iter(self, s, a[0], c.site, c.aty[0] if c.aty else ''))]
    if last in ('iter', 'iter_mut') and len(a) == 1 and n.startswith(('std::', '[', 'bytes::')) and c.fn['kind'] != 'ws':
        if 'collections::' in n and ('Hash' in n):
            return [(st, it('seq', a[0], S('ref'), I(0)))]
        if n.startswith('std::option::Option'):
            cv = self.content(st, a[0])
            if cv.k == 'adt':
                return [(st, it('opt', E.some(mk('ref', (a[0].a[0][0], a[0].a[0][1] + (('f', 1, 0),)))) if cv.a[1] == 1 else E.NONE))]
        return [(st, it('seq', a[0], S('ref'), I(0)))]
    if last in ('keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'chars', 'bytes', 'lines', 'split_whitespace', 'char_indices') and n.startswith(('std::', 'str::')) and c.fn['kind'] != 'ws':
        s = st.copy()
        if last == 'drain':
            loc = a[0].a[0] if a[0].k == 'ref' else (('D', a[0]), ())
            loc = self.deep(s, loc)
            src = self.read(s, loc)
            self.havoc(s, loc, c.site + ('drain',))
            return [(s, it('seq', mk('call', n, src), S('val'), I(0)))]
        return [(s, it('seq', mk('call', n, self.snap(s, a[0])), S('val'), I(0)))]
    if n in ('std::iter::once',):
        return [(st, it('once', a[0], E.FALSE))]
    if n in ('std::iter::empty',):
        return [(st, it('empty'))]
    if n in ('std::iter::zip',):
        s = st.copy()
        return [(s, it('zip', into_iter(self, s, a[0], c.site), into_iter(self, s, a[1], c.site)))]
    if d.startswith('std::iter::Iterator::') and not (c.fn.get('kind') == 'ws'):
        return iter_method(self, st, c, last)
    if d.startswith('std::iter::DoubleEndedIterator::') or d.startswith('std::iter::ExactSizeIterator::'):
        if last == 'next_back':
            return iter_method(self, st, c, 'next')
        if last in ('rfind',):
            return iter_method(self, st, c, 'find')
    if d.startswith('itertools::Itertools::'):
        return itertools_method(self, st, c, last)
    if d in ('std::iter::Extend::extend',) and c.fn.get('kind') != 'ws':
        loc = self.deep(st, a[0].a[0] if a[0].k == 'ref' else (('D', a[0]), ()))
        s = st.copy()
        itv = into_iter(self, s, a[1], c.site, c.aty[1])
        out = []
        def ext(s1, x):
            self.c.on_extend(self, s1, loc, x, c.site)
            return [(s1, 'go')]
        for s2, _ in consume(self, s, itv, c.site, ext):
            self.havoc(s2, loc, c.site + ('ext',))
            out.append((s2, E.UNIT))
        return out
    if d == 'std::iter::FromIterator::from_iter' and c.fn.get('kind') != 'ws':
        s = st.copy()
        return collect(self, s, into_iter(self, s, a[0], c.site, c.aty[0]), c)

    # --- map-like
    if n in ('std::collections::HashMap::entry', 'std::collections::BTreeMap::entry'):
        return [(st, mk('adt', 'entry', 0, a[0], a[1]))]
    if n.endswith('Entry::or_insert_with') or n.endswith('Entry::or_insert') or n.endswith('Entry::or_default') or n.endswith('Entry::or_insert_with_key'):
        s = st.copy()
        return [(s, mk('call', 'entry_ref', self.snap(s, a[0])))]
    return None

def depth_of(t):
    n = 0
    while t.k == 'vpush':
        t = t.a[0]
        n += 1
    return n

def fmt_term(tpl, args):
    E = R.E
    parts = []
    for p in _fmt_decode(tpl):
        if isinstance(p, str):
            parts.append(E.S(p))
        else:
            _, i, opts = p
            x = args[i] if i < len(args) else E.UNDEF
            if x.k == 'call' and x.a[0] == 'fmtarg':
                kind, ty, v = x.a[1].a[0], x.a[2].a[0], x.a[3]
                if kind == 'display' and not opts and (is_strty(ty) or ty in ('std::fmt::Arguments<\'_>',)):
                    parts.append(v)
                elif kind == 'display' and not opts and ty in ('char', '&char') and v.k == 'ch':
                    parts.append(v)
                else:
                    parts.append(E.mk('call', 'fmt:' + kind, E.S(ty + '|' + repr(opts)), v))
            else:
                parts.append(E.mk('call', 'fmt:?', x))
    return cat(*parts) if parts else E.S('')

def eq_terms(self, st, x, y, d=0):
    """True/False/None (unknown) structural equality."""
    E = R.E
    if x is y:
        return None if any(l.k == 'old' for l in E.leaves(x)) else True
    if x.k in ('i', 's', 'ch', 'by', 'b') and y.k == x.k:
        return False
    if (x.k == 's' and y.k == 'empty') or (y.k == 's' and x.k == 'empty'):
        return (x if x.k == 's' else y).a[0] == ''
    if x.k == 'adt' and y.k == 'adt' and d < 4:
        if x.a[0] == y.a[0]:
            if x.a[1] != y.a[1]:
                return False
            rs = [eq_terms(self, st, p, q, d + 1) for p, q in zip(x.a[2:], y.a[2:])]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
    return None

def iter_method(self, st, c, m):
    E = R.E
    mk = E.mk
    a = c.args
    site = c.site
    s = st.copy()
    if m == 'next':
        loc = a[0].a[0] if a[0].k == 'ref' else (('D', a[0]), ())
        return nxt(self, s, loc, site)
    if m in E.ADAPT1:
        return [(s, it(m, a[0], a[1]))]
    if m == 'enumerate':
        return [(s, it('enumerate', a[0], E.I(0)))]
    if m in E.ADAPT0:
        return [(s, it(m, a[0]))]
    if m in ('take', 'skip', 'step_by'):
        return [(s, it(m, a[0], a[1]))]
    if m in ('chain', 'zip'):
        return [(s, it(m, a[0], into_iter(self, s, a[1], site, c.aty[1])))]
    if m == 'by_ref':
        return [(s, a[0])]
    if m in ('size_hint',):
        return None
    itv = a[0]
    if m == 'collect':
        return collect(self, s, itv, c)
    if m == 'for_each':
        f = self.hold(s, a[1], site)
        return [(s2, E.UNIT) for s2, _ in consume(self, s, itv, site, lambda s1, x: [(s3, 'go') for s3, _ in self.call_value(s1, f, [x], site + ('fe',))])]
    if m in ('try_for_each', 'try_fold'):
        adt = E.OPT if c.dty.startswith('std::option::Option<') else E.RES if c.dty.startswith('std::result::Result<') else None
        if adt is not None:
            good = 1 if adt == E.OPT else 0
            acc_root = ('R', site, 'acc')
            f = self.hold(s, a[-1], site)
            s.store[acc_root] = a[1] if m == 'try_fold' else E.UNIT
            def per(s1, x):
                out = []
                args = [self.read(s1, (acc_root, ())), x] if m == 'try_fold' else [x]
                for s2, r in self.call_value(s1, f, args, site + ('tf',)):
                    for s3, vi, y in split_variant(self, s2, r, adt):
                        if vi == good:
                            s3 = s3.copy()
                            s3.store[acc_root] = payload(y, good)
                            out.append((s3, 'go'))
                        else:
                            out.append((s3, ('exit', y)))
                return out
            out = []
            for s2, d in consume(self, s, itv, site, per):
                s2 = s2.copy()
                r = s2.store.pop(acc_root)
                out.append((s2, mk('adt', adt, good, r) if d is None else d[1]))
            return out
    if m in ('fold', 'try_fold', 'reduce'):
        acc_root = ('R', site, 'acc')
        f = self.hold(s, a[-1], site)
        s.store[acc_root] = a[1] if m != 'reduce' else self.fresh(s, site + ('acc',), 'acc')
        def per(s1, x):
            out = []
            for s2, r in self.call_value(s1, f, [self.read(s1, (acc_root, ())), x], site + ('fo',)):
                s2 = s2.copy()
                if m == 'try_fold':
                    r = E.mk('call', 'tryval', r)
                s2.store[acc_root] = r
                out.append((s2, 'go'))
            return out
        out = []
        for s2, _ in consume(self, s, itv, site, per):
            s2 = s2.copy()
            r = s2.store.pop(acc_root)
            out.append((s2, r))
        return out
    if m in ('any', 'all'):
        f = self.hold(s, a[1], site)
        loc = a[0].a[0] if a[0].k == 'ref' else None
        def per(s1, x):
            out = []
            for s2, bv in self.call_value(s1, f, [x], site + ('p',)):
                for s3, b in split_bool(self, s2, bv):
                    out.append((s3, ('exit', b) if (b is E.TRUE) == (m == 'any') else 'go'))
            return out
        return [(s2, E.B(m == 'all') if d is None else d[1]) for s2, d in consume(self, s, itv, site, per)]
    if m in ('find', 'position', 'find_map'):
        f = self.hold(s, a[1], site)
        def per(s1, x):
            out = []
            s1 = s1.copy()
            if m == 'find':
                return [(s3, ('exit', E.some(x2)) if b else 'go') for s3, b, x2 in with_tmp(self, s1, f, x, site + ('fx',), 'p')]
            arg = x
            for s2, bv in self.call_value(s1, f, [arg], site + ('p',)):
                if m == 'find_map':
                    for s3, vi, y in split_variant(self, s2, bv, E.OPT):
                        out.append((s3, ('exit', E.some(payload(y, 1))) if vi == 1 else 'go'))
                    continue
                for s3, b in split_bool(self, s2, bv):
                    out.append((s3, ('exit', E.some(x if m == 'find' else E.mk('call', 'pos', x))) if b is E.TRUE else 'go'))
            return out
        return [(s2, E.NONE if d is None else d[1]) for s2, d in consume(self, s, itv, site, per)]
    if m == 'count':
        # nothing counted is told apart from something counted
        got = ('R', site, 'got')
        s.store[got] = E.NONE
        def per(s1, x):
            s1 = s1.copy()
            s1.store[got] = E.some(E.UNIT)
            return [(s1, 'go')]
        out = []
        for s2, _ in consume(self, s, itv, site, per):
            s2 = s2.copy()
            if s2.store.pop(got) is E.NONE:
                out.append((s2, E.I(0)))
                continue
            y = self.fresh(s2, site, m)
            self.assume_not(s2, y, [E.I(0)])
            self.assume(s2, E.mk('op', 'Gt', y, E.I(0)), E.TRUE)
            out.append((s2, y))
        return out
    if m in ('sum', 'product'):
        return [(s2, self.fresh(s2, site, m)) for s2, _ in consume(self, s, itv, site, lambda s1, x: [(s1, 'go')])]
    if m in ('max', 'min', 'last', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'nth'):
        got = ('R', site, 'got')
        s.store[got] = E.NONE
        def per(s1, x):
            s2 = s1.copy()
            s2.store[got] = E.some(x)
            # a later element may not replace the chosen one
            out = [(s2, 'go')]
            if m not in ('last',):
                out.append((s1, 'go'))
            if m == 'nth':
                out.append((s2, ('exit', E.some(x))))
            return out
        out = []
        for s2, d in consume(self, s, itv, site, per):
            s2 = s2.copy()
            r = s2.store.pop(got)
            if d is not None:
                r = d[1]
            elif m == 'nth':
                r = E.NONE
            out.append((s2, r))
        return out
    if m in ('partition', 'unzip'):
        f = self.hold(s, a[1], site) if m == 'partition' else None
        def per(s1, x):
            if f is None:
                return [(s1, 'go')]
            s1 = s1.copy()
            arg = self.tmpref(s1, x, site + ('fx',))
            return [(s2, 'go') for s2, _ in self.call_value(s1, f, [arg], site + ('p',))]
        out = []
        for s2, _ in consume(self, s, itv, site, per):
            s2 = s2.copy()
            out.append((s2, self.fresh(s2, site, m)))
        return out
    return None

def collect(self, s, itv, c):
    """collect(): kinds by the destination type."""
    E = R.E
    site = c.site
    ty = c.dty or (c.fn['targs'][-1] if c.fn and c.fn['targs'] else '')
    if not c.dty and c.fn and c.fn['targs']:
        ty = c.fn['targs'][-1]
    got = ('R', site, 'got')
    s = s.copy()
    s.store[got] = E.EMPTY
    isres = ty.startswith('std::result::Result<')
    isopt = ty.startswith('std::option::Option<')
    def add(s1, x):
        s2 = s1.copy()
        self.c.on_collect(self, s2, x, site)
        s2.store[got] = templ(self, s2, site, self.read(s2, (got, ())), x)
        return s2
    def per(s1, x):
        if isres:
            out = []
            for s2, vi, y in split_variant(self, s1, x, E.RES):
                if vi == 0:
                    out.append((add(s2, payload(y, 0)), 'go'))
                else:
                    out.append((s2, ('exit', E.err(payload(y, 1)))))
            return out
        if isopt:
            out = []
            for s2, vi, y in split_variant(self, s1, x, E.OPT):
                if vi == 1:
                    out.append((add(s2, payload(y, 1)), 'go'))
                else:
                    out.append((s2, ('exit', E.NONE)))
            return out
        return [(add(s1, x), 'go')]
    out = []
    for s2, d in consume(self, s, itv, site, per):
        s2 = s2.copy()
        g = s2.store.pop(got)
        if g.k not in ('coll', 'empty'):
            g = E.mk('coll', site, E.mk('fld', g, 0, 0))
        if 'Hash' in ty.split('<')[0]:
            pass
        if d is not None:
            out.append((s2, d[1]))
        elif isres:
            out.append((s2, E.ok(g)))
        elif isopt:
            out.append((s2, E.some(g)))
        else:
            out.append((s2, g))
    return out

def itertools_method(self, st, c, m):
    E = R.E
    a = c.args
    site = c.site
    s = st.copy()
    if m in ('sorted', 'sorted_by', 'sorted_by_key', 'sorted_unstable', 'sorted_unstable_by', 'sorted_unstable_by_key', 'sorted_by_cached_key'):
        out = []
        c2 = c
        got = ('R', site, 'got')
        s.store[got] = E.EMPTY
        f = self.hold(s, a[1], site) if len(a) > 1 else None
        def per(s1, x):
            s2 = s1.copy()
            s2.store[got] = templ(self, s2, site, self.read(s2, (got, ())), x)
            return [(s2, 'go')]
        for s2, _ in consume(self, s, a[0], site, per):
            s2 = s2.copy()
            g = s2.store[got]
            s2s = [s2]
            if f is not None and g.k == 'coll':
                x = self.tmpref(s2, g.a[1], site + ('s1',))
                y = self.tmpref(s2, g.a[1], site + ('s2',))
                args = [x, y] if m in ('sorted_by', 'sorted_unstable_by') else [x]
                s2s = [q for q, _ in self.call_value(s2, f, args, site + ('cmp',))]
            for q in s2s:
                q = q.copy()
                g = q.store.pop(got)
                out.append((q, it('sorted', it('seq', g, E.S('val'), E.I(0)))))
        return out
    if m in ('dedup_by', 'dedup', 'unique', 'dedup_by_with_count'):
        return [(s, it('fuse', a[0]))]
    if m in ('format', 'join', 'format_with'):
        return [(s2, self.fresh(s2, site, m)) for s2, _ in consume(self, s, a[0] if a[0].k != 'ref' else self.read(s, a[0].a[0]), site, lambda s1, x: [(s1, 'go')])]
    if m in ('try_collect', 'collect_vec'):
        return collect(self, s, a[0], c)
    return None

def minmax(self, st, op, x, y):
    E = R.E
    if x.k == 'i' and y.k == 'i':
        return [(st, E.I(max(x.a[0], y.a[0]) if op == 'max' else min(x.a[0], y.a[0])))]
    out = []
    for s, b in split_bool(self, st, self.known(st, E.simp_op('Lt', x, y))):
        # b: x < y
        out.append((s, (y if b is E.TRUE else x) if op == 'max' else (x if b is E.TRUE else y)))
    return out

def content1(self, st, v):
    """One level of dereference (Clone::clone)."""
    E = R.E
    if v.k == 'ref':
        x = self.read(st, v.a[0])
        if x.k == 'ref':
            # clone of a &T (by auto-ref) copies the reference, of a Box copies the content
            return x
        return x
    if v.k in E.CONSTS or v.k in ('adt', 'cat'):
        return v
    r = ('D', v)
    return self.root_val(st, r)

def deep(self, st, loc):
    """Follow references stored at loc."""
    n = 0
    while n < 6:
        v = self.read(st, loc)
        if v.k == 'ref':
            loc = v.a[0]
        else:
            break
        n += 1
    return loc

def hold(self, st, f, site):
    """Keep a callable alive at a stable place and return a reference to it."""
    E = R.E
    if f.k == 'ref':
        return f
    r = ('R', site, 'fn')
    st.store[r] = f
    return E.mk('ref', (r, ()))
