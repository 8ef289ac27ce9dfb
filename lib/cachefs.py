"""Abstract model of the cache directory API (xdg paths, existence tests, file operations) shared by the cache checks."""
from common import *
import models

CACHEPATH = rx(r'^xdg::BaseDirectories::(get|place|find)_cache_file$')
EXISTS = {'std::path::Path::exists', 'std::path::Path::is_file', 'std::path::Path::try_exists', 'std::fs::exists', 'std::fs::metadata',
          'std::path::Path::metadata', 'std::fs::symlink_metadata', 'std::path::Path::is_symlink'}
OPEN = {'std::fs::File::open', 'std::fs::read', 'std::fs::read_to_string'}
CREATE = {'std::fs::File::create', 'std::fs::File::create_new', 'std::fs::write', 'std::fs::copy', 'std::fs::hard_link'}
FS = rx(r'^std::fs::', r'^std::path::Path::(exists|is_file|try_exists|metadata|is_symlink)$', r'^xdg::')

def key_of(v):
    """The cache key of a path term (paths derived from it keep the derivation in the key)."""
    if v.k == 'call' and v.a[0] == 'cachepath':
        return v.a[1]
    for x in subterms(v):
        if x.k == 'call' and x.a[0] == 'cachepath':
            return mk('call', 'derived', v)
    return None

class CacheFs(Client):
    """auto = frozen set of events: ('exists', key, bool) | (op, key)"""
    def init(self):
        return ()

    def fsevents(self, st):
        return st.auto

    def rec(self, st, *ev):
        if ev not in st.auto:
            st.auto = tuple(sorted(set(st.auto) | {ev}, key=repr))

    def on_call(self, e, st, c):
        n = c.name
        if 'igest::' in c.decl:
            m = c.decl.rsplit('::', 1)[-1]
            if m == 'new' and not c.args or m == 'default':
                return [(st, mk('call', 'shastate', E.EMPTY))]
            if m == 'digest' and len(c.args) == 1:
                return [(st, mk('call', 'sha256', e.snap(st, c.args[0])))]
            if m in ('update', 'chain_update', 'finalize', 'finalize_reset'):
                v = e.content(st, c.args[0])
                if v.k == 'call' and v.a[0] == 'shastate':
                    if m == 'finalize':
                        return [(st, mk('call', 'sha256', v.a[1]))]
                    nv = mk('call', 'shastate', models.cat(v.a[1], e.snap(st, c.args[1])))
                    if m == 'chain_update':
                        return [(st, nv)]
                    if m == 'update' and c.args[0].k == 'ref':
                        s = st.copy()
                        e.write(s, c.args[0].a[0], nv)
                        return [(s, E.UNIT)]
        if CACHEPATH(n):
            key = e.snap(st, c.args[1])
            self.rec(st, 'key', key)
            path = mk('call', 'cachepath', key)
            if '::get_' in n:
                return [(st, path)]
            if '::place_' in n:
                s2 = st.copy()
                return [(st, ok(path)), (s2, err(e.fresh(s2, c.site, 'io')))]
            s2 = st.copy()
            self.rec(st, 'exists', key, True)
            self.rec(s2, 'exists', key, False)
            return [(st, some(path)), (s2, NONE)]
        if n in EXISTS:
            k = key_of(e.snap(st, c.args[0]))
            if k is None:
                return None
            have = [x[2] for x in self.fsevents(st) if x[0] == 'exists' and x[1] is k]
            out = []
            for b in (True, False):
                if have and b not in have:
                    continue
                s = st.copy()
                self.rec(s, 'exists', k, b)
                v = E.B(b)
                if n.endswith('metadata'):
                    v = ok(e.fresh(s, c.site, 'meta')) if b else err(e.fresh(s, c.site, 'io'))
                elif 'try_exists' in n or n == 'std::fs::exists':
                    v = ok(v)
                out.append((s, v))
            return out
        op = 'open' if n in OPEN else 'create' if n in CREATE else 'remove' if n == 'std::fs::remove_file' else 'rename' if n == 'std::fs::rename' \
            else 'create' if n == 'std::fs::OpenOptions::open' else None
        if op:
            args = {'open': c.args[:1], 'remove': c.args[:1], 'rename': c.args[:2], 'create': c.args[1:2] if n.endswith('OpenOptions::open') or n in ('std::fs::copy', 'std::fs::hard_link') else c.args[:1]}[op]
            ks = tuple(key_of(e.snap(st, a)) for a in args)
            s2 = st.copy()
            s2.note('%s fails' % n)
            self.rec(st, op, *ks)
            okv = e.fresh(st, c.site, n) if op in ('open', 'create') else E.UNIT
            return [(st, ok(okv)), (s2, err(e.fresh(s2, c.site, 'io')))]
        return None

# ---------------------------------------------------------------- key templates
TEXT = {'as_str', 'to_string', 'as_bytes', 'as_ref', 'into_string', 'fmt:display', 'into', 'from', 'to_owned', 'clone', 'borrow', 'deref'}

def whole_param(t):
    """i when t is the complete text of parameter i, else None."""
    for _ in range(8):
        if t.k == 'init' and t.a[0][0] == 'A':
            return t.a[0][2]
        if t.k == 'deref':
            t = t.a[0]
        elif t.k == 'call' and t.a[0].rsplit('::', 1)[-1] in TEXT:
            xs = [x for x in t.a[1:] if isinstance(x, T) and x.k != 's']
            if len(xs) != 1:
                return None
            t = xs[0]
        else:
            return None
    return None

def template(key):
    """A key term as a list of str | ('H', param) | ('?', text)."""
    out = []
    for x in (key.a if key.k == 'cat' else (key,)):
        if x.k == 's':
            out.append(x.a[0])
            continue
        if x.k == 'call' and x.a[0] in ('fmt:upper_hex', 'fmt:lower_hex') and x.a[1].a[0].endswith('|()'):
            d = x.a[2]
            if d.k == 'call' and d.a[0].rsplit('::', 1)[-1] in ('sha256',):
                i = whole_param(d.a[-1])
                if i is not None:
                    out.append(('H', i))
                    continue
        if x.k == 'call' and x.a[0] == 'fmt:display' and 'process::id' in repr(x):
            out.append(('pid',))
            continue
        out.append(('?', repr(x)[:160]))
    return tuple(out)

def show_tpl(t):
    return ''.join(x if isinstance(x, str) else '<sha256 of argument %d>' % x[1] if x[0] == 'H' else '<pid>' if x[0] == 'pid' else '{%s}' % x[1] for x in t)

HEX = set('0123456789abcdefABCDEF')

def slots(t):
    """(fixed prefix of slots, open-ended?) — a slot is a char or None for any hex digit."""
    out = []
    for x in t:
        if isinstance(x, str):
            out.extend(x)
        elif x[0] == 'H':
            out.extend([None] * 64)
        else:
            return out, True
    return out, False

def disjoint(a, b):
    sa, oa = slots(a)
    sb, ob = slots(b)
    for x, y in zip(sa, sb):
        if x is None and y is None:
            continue
        if x is None and y not in HEX or y is None and x not in HEX:
            return True
        if x is not None and y is not None and x != y:
            return True
    if not oa and not ob and len(sa) != len(sb):
        return True
    # one is closed and shorter than the other's fixed part
    if not oa and len(sa) < len(sb) or not ob and len(sb) < len(sa):
        return True
    return False
