"""Every log file of a directory or build is listed, and grouped under its own index name."""
from common import *
from engine import some, NONE, UNIT
import engine as E

VALID = rx(r'(^|::)Source::is_valid$')
LIST = rx(r'(^|::)httpdir::list$', r'^httpdir::list$')
CGET = rx(r'(^|::)Cache::httpdir_get$')
CADD = rx(r'(^|::)Cache::httpdir_add$')
NAME = rx(r'(^|::)IndexName::from_source$')
GETS = rx(r'(^|::)Content::get_sources$')
MAP = rx(r'^std::collections::(hash_map::|btree_map::)?(HashMap|BTreeMap)::\w+$')
ENTRY = rx(r'(^|::)(OccupiedEntry|VacantEntry|Entry)::\w+$')
B = lambda x: TRUE if x else FALSE
KINDS = ('file', 'dir', 'link', 'other')
HARMLESS = {'new', 'into_iter', 'max_open', 'sort_by', 'sort_by_key', 'sort_by_file_name', 'contents_first', 'next'}

class Base(Client):
    def __init__(self, ctx, root):
        self.ctx, self.p, self.root = ctx, ctx.prog(), root
        self.bad = {}
    def init(self):
        return frozenset()
    def say(self, k, m, st):
        self.bad.setdefault(k, m + '\n' + st.trail())
    def add(self, st, *x):
        st.auto = st.auto | {x}
    def get(self, st, k):
        return [x for x in st.auto if x[0] == k]
    def drop(self, st, *ks):
        st.auto = frozenset(x for x in st.auto if x[0] not in ks)
    def fails(self, e, st, c, what):
        s = st.copy()
        self.add(s, 'failed', what)
        return s, err(e.fresh(s, c.site, 'err'))

class Src(Base):
    templates = True
    """Rooted at Content::get_sources.
    ('item', x) ('kind', x, k) ('valid', s) ('invalid', s) ('kept', s) ('any',) ('end',) ('failed', what)"""
    def unit(self, st):
        x = self.get(st, 'item')
        return x[0][1] if x else None
    def of(self, x):
        """The item a source value was made of."""
        for t in subterms(x):
            if t.k == 'call' and t.a[0] in ('entry', 'url'):
                return t
        return None
    def boundary(self, e, st):
        x = self.unit(st)
        if x is None:
            return
        k = [y[2] for y in self.get(st, 'kind') if y[1] is x]
        if x.a[0] == 'entry' and k and k[0] != 'file':
            pass
        elif not any(y[1] is x for y in self.get(st, 'kept') + self.get(st, 'invalid')):
            self.say('lost', 'a %s that is a valid source is not listed' % ('file of the directory' if x.a[0] == 'entry' else 'file of the remote listing'), st)
        self.drop(st, 'item', 'kind', 'kept', 'invalid', 'valid')
    def keep(self, e, st, v):
        v = e.snap(st, v)
        if E.is_ok(v):
            v = v.a[2]
        if E.is_err(v):
            return
        if v.k == 'fld' and param(self.root, 0) in leaves(v):
            self.add(st, 'any')
        if not (v.k == 'adt' and v.a[0].endswith('::Source')):
            return
        x = self.of(v)
        if x is None:
            self.say('made-up', 'lists %s, which is not one of the files found' % v, st)
            return
        if x is not self.unit(st):
            return
        self.ctx.count('sources_listed')
        if x.a[0] == 'entry':
            k = [y[2] for y in self.get(st, 'kind') if y[1] is x]
            if v.a[1] != 0 or v.a[3] is not mk('call', 'path', x):
                self.say('path', 'a file is listed as %s instead of its own path' % v, st)
            if not k:
                self.say('unchecked', 'lists an entry of the directory without knowing that it is a regular file', st)
            elif k[0] != 'file':
                self.say('kind', 'lists an entry of the directory that is a %s' % {'dir': 'directory', 'link': 'symbolic link', 'other': 'device, pipe or socket'}[k[0]], st)
        elif v.a[1] != 1 or v.a[3] is not x:
            self.say('url', 'a remote file is listed as %s instead of its own url' % v, st)
        if any(y[1] is x for y in self.get(st, 'invalid')):
            self.say('invalid', 'lists a source that is not valid', st)
        if any(y[1] is x for y in self.get(st, 'kept')):
            self.say('twice', 'lists a file twice', st)
        self.add(st, 'kept', x)
        self.add(st, 'any')
    def on_collect(self, e, st, x, site):
        self.keep(e, st, x)
    def on_extend(self, e, st, loc, x, site):
        self.keep(e, st, x)
    def kind(self, st, x):
        """[(state, kind)]"""
        k = [y[2] for y in self.get(st, 'kind') if y[1] is x]
        if k:
            return [(st, k[0])]
        out = []
        for k in KINDS:
            s = st.copy()
            self.add(s, 'kind', x, k)
            out.append((s, k))
        self.ctx.count('kind_tests')
        return out
    def next_items(self, e, st, loc, v, site):
        w = e.snap(st, v.a[2]) if v.k == 'adt' and v.a[0] == 'it:seq' else v
        while w.k in ('deref',):
            w = w.a[0]
        if w.k == 'coll' and v.a[3].a[0] == 'val' and self.of(w.a[1]) is not None:
            # a second pass over what was listed
            import models
            self.boundary(e, st)
            s1, s2 = st.copy(), st.copy()
            x = models.inst(e, s1, w.a[1], site + ('again',))
            self.add(s1, 'item', self.of(x))
            if self.of(x).a[0] == 'entry':
                self.add(s1, 'kind', self.of(x), 'file')
            self.add(s2, 'end')
            return [(s2, NONE), (s1, some(x))]
        if w.k == 'call' and w.a[0] in ('walk', 'urls'):
            self.boundary(e, st)
            self.add(st, 'listing')
            out = []
            s = st.copy()
            self.add(s, 'end')
            out.append((s, NONE))
            self.ctx.count('item_visits')
            f = e.fresh(st, site + ('item',), 'item')
            if w.a[0] == 'walk':
                s = st.copy()
                self.add(s, 'failed', 'walk')
                out.append((s, some(err(e.fresh(s, site + ('walkerr',), 'walkerr')))))
                s = st.copy()
                x = mk('call', 'entry', f)
                self.add(s, 'item', x)
                out.append((s, some(ok(x))))
            else:
                s = st.copy()
                x = mk('call', 'url', f)
                self.add(s, 'item', x)
                out.append((s, some(x)))
            return out
        return None
    def on_call(self, e, st, c):
        n = c.name
        last = n.rsplit('::', 1)[-1]
        w = where(self.p, c.fnkey, c.block)
        if n.startswith('walkdir::'):
            a = [e.snap(st, x) for x in c.args]
            if 'WalkDir::' in n or 'IntoIter::' in n or 'FilterEntry' in n:
                if last == 'new':
                    if param(self.root, 0) not in leaves(a[0]) or any(t.k not in ('fld', 'deref', 'init', 'at', 'call') for t in subterms(a[0])):
                        self.say('root', '%s walks %s instead of the directory' % (w, a[0]), st)
                    return [(st, mk('call', 'walk', E.I(0)))]
                okk = last in HARMLESS or last == 'follow_links' and a[1] is FALSE or last == 'same_file_system' and a[1] is FALSE
                if last != 'next' and not okk:
                    self.say('walk:' + last, '%s: %s makes the walk leave out files or follow symbolic links' % (w, n), st)
                return [(st, mk('call', 'walk', E.I(0)))] if last != 'next' else None
            if 'DirEntry::' in n:
                x = a[0]
                if x.k == 'deref':
                    x = x.a[0]
                if last == 'path_is_symlink':
                    return [(s, B(k == 'link')) for s, k in self.kind(st, x)]
                if last == 'file_type':
                    return [(st, mk('call', 'ftype', x))]
                if last in ('into_path', 'path'):
                    return [(st, mk('call', 'path', x))]
                if last == 'metadata':
                    return [(st, ok(mk('call', 'ftype', x))), self.fails(e, st, c, 'metadata')]
                return None
        if n.startswith(('std::fs::FileType::', 'std::fs::Metadata::', 'std::path::Path::is_', 'std::path::Path::to_path_buf')) or last in ('to_path_buf', 'to_owned'):
            x = e.snap(st, c.args[0])
            if x.k == 'deref':
                x = x.a[0]
            if x.k == 'call' and x.a[0] == 'ftype':
                if last == 'file_type':
                    return [(st, x)]
                m = {'is_file': 'file', 'is_dir': 'dir', 'is_symlink': 'link'}.get(last)
                if m:
                    return [(s, B(k == m)) for s, k in self.kind(st, x.a[1])]
            if x.k == 'call' and x.a[0] == 'path':
                if last in ('to_path_buf', 'to_owned'):
                    return [(st, x)]
                if last == 'is_symlink':
                    return [(s, B(k == 'link')) for s, k in self.kind(st, x.a[1])]
                if last in ('is_file', 'is_dir'):
                    out = []
                    for s, k in self.kind(st, x.a[1]):
                        if k == 'link':
                            out += [(s.copy(), TRUE), (s.copy(), FALSE)]
                        else:
                            out.append((s, B(k == last[3:])))
                    return out
        if LIST(n):
            return [(st, ok(mk('call', 'urls', E.I(0)))), self.fails(e, st, c, 'list')]
        if CGET(n):
            return [(st, NONE), (st.copy(), some(ok(mk('call', 'urls', E.I(0))))), (lambda f: (f[0], some(f[1])))(self.fails(e, st, c, 'cache'))]
        if CADD(n):
            return [(st, ok(UNIT)), self.fails(e, st, c, 'cache')]
        if VALID(n):
            v = e.snap(st, c.args[0])
            x = self.of(v) or v
            self.ctx.count('validity_tests')
            if ('valid', x) in st.auto:
                return [(st, TRUE)]
            if ('invalid', x) in st.auto:
                return [(st, FALSE)]
            s2 = st.copy()
            self.add(st, 'valid', x)
            self.add(s2, 'invalid', x)
            return [(st, TRUE), (s2, FALSE)]
        if n == 'std::vec::Vec::push':
            self.keep(e, st, c.args[1])
        return None

class Grp(Base):
    """Rooted at Content::group_sources.
    ('base', b) ('src', s) ('pushed', s) ('occ', name) ('vac', name) ('end',) ('send', b)"""
    def sboundary(self, st):
        for x in self.get(st, 'src'):
            if ('pushed', x[1]) not in st.auto:
                self.say('lost', 'a source of a content is not put in its group', st)
        self.drop(st, 'src', 'pushed', 'occ', 'vac')
    def boundary(self, st):
        self.sboundary(st)
        for b in self.get(st, 'base'):
            if ('send', b[1]) not in st.auto:
                self.say('content', 'the sources of a content are not all visited', st)
        self.drop(st, 'base', 'send')
    def next_items(self, e, st, loc, v, site):
        if not (v.k == 'adt' and v.a[0] == 'it:seq'):
            return None
        w = e.snap(st, v.a[2])
        while w.k == 'deref':
            w = w.a[0]
        if w is param(self.root, 0):
            self.boundary(st)
            s1, s2 = st.copy(), st.copy()
            x = mk('call', 'content', e.fresh(s1, site + ('c',), 'content'))
            self.add(s1, 'base', x)
            self.add(s2, 'end')
            self.ctx.count('content_visits')
            return [(s2, NONE), (s1, some(x))]
        if w.k == 'call' and w.a[0] == 'srcs':
            self.sboundary(st)
            s1, s2 = st.copy(), st.copy()
            x = mk('call', 'source', e.fresh(s1, site + ('s',), 'source'))
            self.add(s1, 'src', x)
            self.add(s2, 'send', w.a[1])
            self.ctx.count('source_visits')
            return [(s2, NONE), (s1, some(x))]
        return None
    def src_of(self, e, st, v):
        v = e.snap(st, v)
        while v.k in ('deref',):
            v = v.a[0]
        return v
    def put(self, e, st, c, key, v):
        w = where(self.p, c.fnkey, c.block)
        self.ctx.count('group_writes')
        v = self.src_of(e, st, v)
        if ('src', v) not in st.auto:
            self.say('other', '%s: puts %s in a group instead of the source' % (w, v), st)
            return
        if key is not mk('call', 'name', v):
            self.say('name', '%s: a source is put in the group %s instead of the one of its own name' % (w, key), st)
        if ('pushed', v) in st.auto:
            self.say('twice', '%s: a source is put in a group twice' % w, st)
        self.add(st, 'pushed', v)
    def store(self, e, st, c, key, val):
        """A new group is stored under key."""
        t = e.content(st, val)
        t = e.snap(st, t)
        arr = [x for x in subterms(t) if x.k == 'adt' and x.a[0] == 'array']
        if len(arr) == 1 and any(x.k == 'call' and 'new_uninit' in x.a[0] for x in subterms(t)):
            t = arr[0]
        if t.k == 'vpush' and t.a[0].k == 'empty':
            self.put(e, st, c, key, t.a[1])
        elif t.k == 'adt' and t.a[0] == 'array' and len(t.a) == 3:
            self.put(e, st, c, key, t.a[2])
        elif t.k != 'empty':
            self.say('group', '%s: stores %s as a group' % (where(self.p, c.fnkey, c.block), t), st)
    def occ(self, st, key):
        if ('occ', key) in st.auto:
            return [(st, True)]
        if ('vac', key) in st.auto:
            return [(st, False)]
        s2 = st.copy()
        self.add(st, 'occ', key)
        self.add(s2, 'vac', key)
        return [(st, True), (s2, False)]
    def now(self, st, key):
        st.auto = st.auto - {('vac', key)} | {('occ', key)}
    def on_call(self, e, st, c):
        n = c.name
        last = n.rsplit('::', 1)[-1]
        if GETS(n):
            b = e.snap(st, c.args[0])
            if b.k == 'deref':
                b = b.a[0]
            return [(st, ok(mk('call', 'srcs', b))), self.fails(e, st, c, 'sources')]
        if NAME(n):
            return [(st, mk('call', 'name', self.src_of(e, st, c.args[0])))]
        if MAP(n) and last in ('entry', 'get_mut', 'insert', 'contains_key', 'remove', 'clear', 'retain', 'drain', 'get'):
            key = e.snap(st, c.args[1]) if len(c.args) > 1 else None
            while key is not None and key.k == 'deref':
                key = key.a[0]
            if last in ('remove', 'clear', 'retain', 'drain'):
                self.say('removed', '%s removes groups' % where(self.p, c.fnkey, c.block), st)
                return None
            if last == 'insert':
                if ('vac', key) not in st.auto:
                    self.say('overwrite', '%s replaces the sources already in the group' % where(self.p, c.fnkey, c.block), st)
                self.store(e, st, c, key, c.args[2])
                self.now(st, key)
                return [(st, NONE)]
            out = []
            for s, o in self.occ(st, key):
                slot = mk('call', 'slot', key)
                if last == 'entry':
                    out.append((s, mk('adt', 'Entry', 0 if o else 1, mk('call', 'ent', key))))
                elif last == 'contains_key':
                    out.append((s, B(o)))
                else:
                    out.append((s, some(slot) if o else NONE))
            return out
        if ENTRY(n) and c.args:
            v = e.snap(st, c.args[0])
            while v.k == 'deref':
                v = v.a[0]
            if v.k == 'adt' and v.a[0] == 'Entry':
                o, key = v.a[1] == 0, v.a[2].a[1]
            elif v.k == 'call' and v.a[0] == 'ent':
                o, key = 'Occupied' in n, v.a[1]
            else:
                return None
            slot = mk('call', 'slot', key)
            if last in ('get_mut', 'into_mut', 'get'):
                return [(st, slot)]
            if last == 'and_modify':
                if not o:
                    return [(st, v)]
                return [(s, v) for s, _ in e.call_value(st.copy(), c.args[1], [slot], c.site)]
            if last in ('or_insert', 'or_default', 'or_insert_with', 'or_insert_with_key', 'insert', 'insert_entry'):
                if o and last in ('insert', 'insert_entry'):
                    self.say('overwrite', '%s replaces the sources already in the group' % where(self.p, c.fnkey, c.block), st)
                if o:
                    return [(st, slot)]
                rs = [(st, c.args[1])] if last in ('or_insert', 'insert', 'insert_entry') else [(st, E.EMPTY)] if last == 'or_default' else e.call_value(st.copy(), c.args[1], [] if last == 'or_insert_with' else [key], c.site)
                out = []
                for s, x in rs:
                    s = s.copy()
                    self.store(e, s, c, key, x)
                    self.now(s, key)
                    out.append((s, slot))
                return out
            return None
        if n in ('std::vec::Vec::push', 'std::vec::Vec::insert'):
            x = e.snap(st, c.args[0])
            while x.k == 'deref':
                x = x.a[0]
            if x.k == 'call' and x.a[0] == 'slot':
                self.put(e, st, c, x.a[1], c.args[-1])
                return [(st, UNIT)]
        return None
    def on_extend(self, e, st, loc, x, site):
        r = loc[0][1] if loc[0][0] == 'D' else None
        if r is not None and r.k == 'call' and r.a[0] == 'slot':
            class C: pass
            c = C()
            c.fnkey, c.block = self.root, None
            self.put(e, st, c, r.a[1], x)

def run(ctx):
    ctx.rule('Rule 1 (typestate of every file found, rooted at Content::get_sources with the listings below analysed in place): an entry of the directory walk is listed, as its own path, exactly when it is a regular file, not a symbolic link, and a valid source; '
             'every url of a remote listing is listed exactly when it is a valid source; an entry that cannot be read and a listing that fails make get_sources return the error; the walk is not restricted and does not follow links. '
             'Rule 2 (rooted at Content::group_sources): every source of every content is put exactly once in the group of IndexName::from_source of itself, no group is replaced or removed, a failing listing makes it return the error. '
             'Rule 3 (Source::is_valid): it answers no only on a path where the text of the source ends with one of the excluded endings, or contains /etc/.')
    p = ctx.prog()
    ks = [k for k in p.find('Content::get_sources') if p.fns[k]['kind'] != 'closure']
    kg = [k for k in p.find('Content::group_sources') if p.fns[k]['kind'] != 'closure']
    if not (ctx.need(len(ks) == 1, 'Content::get_sources') and ctx.need(len(kg) == 1, 'Content::group_sources')):
        return
    sim = Sim(ctx, p)
    cl = Src(ctx, ks[0])
    W = lambda n: n.startswith('walkdir::') or VALID(n) or LIST(n) or CGET(n) or CADD(n) or n == 'std::vec::Vec::push'
    e, outs = sim.run(ks[0], cl, interest=W)
    good = set()
    for st, v in outs:
        r = e.snap(st, v)
        f = [x[1] for x in cl.get(st, 'failed')]
        for s2, vi in ([(st, 1)] if E.is_err(r) else [(st, 0)] if E.is_ok(r) else [(st, 0), (st, 1)]):
            ctx.count('return_paths')
            if vi == 1:
                continue
            good.add(bool(cl.get(st, 'end')))
            if [x for x in f if x != 'cache'] or f and E.is_ok(r) and r.a[2].k != 'fld':
                cl.say('failure', 'returns a list although the listing failed (%s)' % ', '.join(f), st)
            cl.boundary(e, st)
            if ('listing',) in st.auto and ('end',) not in st.auto:
                cl.say('early', 'returns before the end of the listing', st)
            if ('any',) not in st.auto:
                cl.say('empty', 'returns an empty list of sources' if cl.get(st, 'end') else 'does not list the file it was given', st)
    ctx.need(True in good, 'a successful path of Content::get_sources over a listing')
    ctx.need(False in good, 'a successful path of Content::get_sources for a single file')
    for k, m in cl.bad.items():
        ctx.viol('s:' + k, m)
    ctx.floor('item_visits', 2)
    ctx.floor('kind_tests', 1)
    ctx.floor('validity_tests', 2)
    ctx.floor('sources_listed', 2)
    g = Grp(ctx, kg[0])
    e, outs = sim.run(kg[0], g, interest=lambda n: GETS(n) or NAME(n) or MAP(n) or ENTRY(n))
    good = 0
    for st, v in outs:
        r = e.snap(st, v)
        if E.is_err(r):
            continue
        good += 1
        g.boundary(st)
        if g.get(st, 'failed'):
            g.say('failure', 'returns groups although the sources of a content could not be listed', st)
        if ('end',) not in st.auto:
            g.say('early', 'returns before all the contents were visited', st)
    ctx.need(good, 'a successful path of Content::group_sources')
    for k, m in g.bad.items():
        ctx.viol('g:' + k, m)
    for x in ('content_visits', 'source_visits', 'group_writes'):
        ctx.floor(x, 1)
    excluded(ctx, p, sim)

TESTS = ('ends_with', 'contains', 'starts_with', 'eq', 'ne', 'is_match', 'is_empty', 'eq_ignore_ascii_case', 'find', 'rfind', 'strip_suffix', 'strip_prefix')
CUTS = ('strip_suffix', 'trim_end_matches', 'to_lowercase', 'to_ascii_lowercase')

class Valid(Client):
    """Rooted at Source::is_valid; the state is why the source may be left out: {'end', 'etc', ('other', test)}."""
    def __init__(self, ctx, k):
        self.ctx, self.root, self.bad = ctx, k, {}
    def init(self):
        return frozenset()
    def own(self, e, st, v):
        return param(self.root, 0) in leaves(e.snap(st, v))
    def on_call(self, e, st, c):
        last = c.name.rsplit('::', 1)[-1]
        if last not in TESTS or len(c.args) < 2 or not (self.own(e, st, c.args[0]) or e.snap(st, c.args[0]).k == 's'):
            return None
        if self.own(e, st, c.args[1]):
            why = ('other', c.name)
        elif last in ('ends_with', 'strip_suffix'):
            a = e.snap(st, c.args[1])
            if a.k == 's' and a.a[0] == '.gz':
                why = None
            elif a.k == 's' and not a.a[0]:
                why = ('other', 'an empty ending')
            else:
                why = 'end'
        elif last == 'contains' and (lambda a: a.k == 's' and a.a[0] == '/etc/')(e.snap(st, c.args[1])):
            why = 'etc'
        else:
            why = ('other', last + ' ' + str(e.snap(st, c.args[1]))[:60])
        self.ctx.count('exclusion_tests')
        s2 = st.copy()
        if why is not None:
            s2.auto = s2.auto | {why}
        if last in ('strip_suffix', 'strip_prefix', 'find', 'rfind'):
            return [(st, NONE), (s2, some(mk('call', last, e.snap(st, c.args[0]))))]
        return [(st, FALSE), (s2, TRUE)] if last != 'ne' else [(st, TRUE), (s2, FALSE)]

def excluded(ctx, p, sim):
    ks = [k for k in p.find('Source::is_valid') if p.fns[k]['kind'] != 'closure']
    if not ctx.need(len(ks) == 1, 'Source::is_valid'):
        return
    cl = Valid(ctx, ks[0])
    e, outs = sim.run(ks[0], cl, interest=lambda n: n.rsplit('::', 1)[-1] in TESTS)
    seen = set()
    for st, v in outs:
        v = e.snap(st, v)
        ctx.count('exclusions_decided')
        if v is TRUE:
            seen.add(True)
            continue
        why = {x for x in st.auto if x in ('end', 'etc')}
        seen |= why or {False}
        if not why:
            cl.bad.setdefault('excluded', 'a source is left out although its text does not end with an excluded ending (%s)\n%s' % ('; '.join(x[1] for x in st.auto) or 'no test', st.trail()))
    ctx.need({True, 'end'} <= seen, 'sources kept, and sources left out for their ending')
    for k, m in cl.bad.items():
        ctx.viol('v:' + k, m)
