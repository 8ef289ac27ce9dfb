"""Property simulation over MIR (in the style of ESP / trace-partitioned abstract interpretation).

Abstract states = (abstract store, branch facts, client automaton state).  Straight-line transfer
functions over MIR; calls to workspace functions, closures and plain std combinators are analysed in
place (context-sensitively); states are merged at control-flow joins when they agree on the automaton
state and the live store, and are generalised (widened) at loop heads until a fixpoint.  No code is
run and no solver is involved.
"""
import re, os, sys, time
from mir import norm, callee_of

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- terms
class T:
    __slots__ = ('k', 'a', 'n', '_lv')
    def __repr__(self):
        return show(self)

_tab = {}
def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.n = len(_tab)
        t._lv = None
        _tab[key] = t
    return t

def I(n): return mk('i', int(n))
def B(b): return TRUE if b else FALSE
TRUE = mk('b', 'true')
FALSE = mk('b', 'false')
UNIT = mk('adt', 'tuple', 0)
UNDEF = mk('undef')
EMPTY = mk('empty')
def S(s): return mk('s', s)
def tup(*xs): return mk('adt', 'tuple', 0, *xs)
OPT = 'core::option::Option'
RES = 'core::result::Result'
NONE = mk('adt', OPT, 0)
def some(x): return mk('adt', OPT, 1, x)
def ok(x): return mk('adt', RES, 0, x)
def err(x): return mk('adt', RES, 1, x)
def is_none(v): return v.k == 'adt' and v.a[0] == OPT and v.a[1] == 0
def is_some(v): return v.k == 'adt' and v.a[0] == OPT and v.a[1] == 1
def is_ok(v): return v.k == 'adt' and v.a[0] == RES and v.a[1] == 0
def is_err(v): return v.k == 'adt' and v.a[0] == RES and v.a[1] == 1

ATOMS = ('init', 'fresh', 'phi', 'old', 'tmpl')
CONSTS = ('i', 'b', 's', 'ch', 'fl', 'by', 'fn', 'undef', 'empty', 'zst')

def root_term(r):
    return r[1] if r[0] == 'D' else None

def leaves(t):
    lv = t._lv
    if lv is None:
        if t.k in ATOMS:
            lv = frozenset((t,))
        elif t.k in CONSTS:
            lv = frozenset()
        elif t.k == 'ref':
            s = set()
            r, p = t.a[0]
            rt = root_term(r)
            if rt is not None:
                s |= leaves(rt)
            for e in p:
                if e[0] == 'ix':
                    s |= leaves(e[1])
            lv = frozenset(s)
        elif t.k == 'obj':
            s = set(leaves(t.a[0]))
            for _, v in t.a[1]:
                s |= leaves(v)
            lv = frozenset(s)
        else:
            s = set()
            for x in t.a:
                if isinstance(x, T):
                    s |= leaves(x)
            lv = frozenset(s)
        t._lv = lv
    return lv

def subst(t, m, memo=None):
    """Replace atoms by m (dict T->T)."""
    if not (leaves(t) & m.keys()):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.k in ATOMS:
        r = t
    elif t.k == 'ref':
        r = mk('ref', subst_loc(t.a[0], m, memo))
    elif t.k == 'obj':
        r = mk('obj', subst(t.a[0], m, memo), tuple((p, subst(v, m, memo)) for p, v in t.a[1]))
    else:
        r = rebuild(t.k, [subst(x, m, memo) if isinstance(x, T) else x for x in t.a])
    memo[t] = r
    return r

def rebuild(k, a):
    if k == 'op':
        return simp_op(a[0], *a[1:])
    if k == 'fld' and a[0].k in ('adt', 'obj'):
        return getproj(a[0], ('f', a[1], a[2]))
    if k == 'deref' and a[0].k == 'ref':
        return mk(k, *a)
    return mk(k, *a)

def subst_root(r, m, memo=None):
    if r[0] == 'D':
        return ('D', subst(r[1], m, memo))
    return r

def subst_loc(loc, m, memo=None):
    r, p = loc
    if r[0] == 'D':
        nt = subst(r[1], m, memo)
        if nt.k == 'ref':
            r2, p2 = nt.a[0]
            r, p = r2, p2 + p
        else:
            r = ('D', nt)
    if any(e[0] == 'ix' for e in p):
        p = tuple(('ix', subst(e[1], m, memo)) if e[0] == 'ix' else e for e in p)
    return (r, p)

def show(t, d=0):
    if d > 6:
        return '…'
    k, a = t.k, t.a
    if k == 'i':
        return str(a[0])
    if k == 'b':
        return a[0]
    if k == 's':
        return repr(a[0])
    if k == 'adt':
        key = a[0].rsplit('::', 1)[-1]
        return '%s#%d(%s)' % (key, a[1], ', '.join(show(x, d+1) for x in a[2:]))
    if k == 'ref':
        return '&' + show_loc(a[0], d)
    if k == 'fld':
        return '%s.%s%s' % (show(a[0], d+1), '' if not a[1] else 'v%d.' % a[1], a[2])
    if k == 'fresh':
        return '%s@%s' % (a[1], a[0][-1] if isinstance(a[0], tuple) else a[0])
    if k == 'call':
        return '%s(%s)' % (a[0].rsplit('::', 2)[-1] if isinstance(a[0], str) else a[0], ', '.join(show(x, d+1) for x in a[1:] if isinstance(x, T)))
    if k == 'op':
        return '%s(%s)' % (a[0], ', '.join(show(x, d+1) for x in a[1:]))
    if k == 'phi':
        return 'φ%s' % (show_loc(a[1], d) if len(a) > 1 else '')
    if k == 'init':
        return 'init(%s)' % (a[0],)
    if k == 'obj':
        return show(a[0], d+1) + '{' + ','.join('%s:%s' % (p, show(v, d+1)) for p, v in a[1]) + '}'
    if k == 'cat':
        return ' ++ '.join(show(x, d+1) for x in a)
    return '%s(%s)' % (k, ', '.join(show(x, d+1) if isinstance(x, T) else str(x) for x in a))

def show_loc(loc, d=0):
    r, p = loc
    if r[0] == 'D':
        s = '*' + show(r[1], d+1)
    elif r[0] == 'L':
        s = '_%s' % r[2]
    else:
        s = str(r)
    for e in p:
        s += '.%s' % (e[2] if e[0] == 'f' else '[%s]' % show(e[1], d+1) if e[0] == 'ix' else e)
    return s

# ---------------------------------------------------------------- projections
def getproj(v, p):
    k = v.k
    if p[0] == 'f':
        if k == 'adt':
            if v.a[0] == 'box' or (p[1] is not None and p[1] != v.a[1] and v.a[0] not in ('tuple', 'array')):
                return UNDEF if v.a[0] != 'box' else v
            i = p[2] + 2
            return v.a[i] if i < len(v.a) else UNDEF
        if k == 'ref':
            return v            # Box / Unique / NonNull wrappers around a pointer
        if k == 'obj':
            for q, x in v.a[1]:
                if q == p:
                    return x
            return mk('fld', v.a[0], p[1] or 0, p[2])
        if k == 'undef':
            return UNDEF
        return mk('fld', v, p[1] or 0, p[2])
    if p[0] == 'ix':
        if k == 'adt' and v.a[0] == 'array' and p[1].k == 'i' and p[1].a[0] + 2 < len(v.a):
            return v.a[p[1].a[0] + 2]
        if k == 'obj':
            for q, x in v.a[1]:
                if q == p:
                    return x
            return mk('at', v.a[0], p[1])
        return mk('at', v, p[1])
    if p[0] == 'ci':
        if k == 'adt' and v.a[0] == 'array':
            i = p[1] if not p[2] else len(v.a) - 2 - p[1]
            if 0 <= i < len(v.a) - 2:
                return v.a[i + 2]
        return mk('at', v if k != 'obj' else v.a[0], I(p[1]) if not p[2] else mk('fromend', I(p[1])))
    return mk('sub', v, str(p))

def setproj(v, path, new):
    if not path:
        return new
    p = path[0]
    if p[0] == 'f':
        if v.k == 'adt' and v.a[0] != 'box' and p[2] + 2 < len(v.a) and (p[1] in (None, 0) or p[1] == v.a[1]):
            a = list(v.a)
            a[p[2] + 2] = setproj(a[p[2] + 2], path[1:], new)
            return mk('adt', *a)
        if v.k == 'ref':
            return new
    cur = getproj(v, p)
    nv = setproj(cur, path[1:], new)
    if v.k == 'obj':
        d = dict(v.a[1])
        base = v.a[0]
    else:
        d = {}
        base = v
    if p[0] == 'ix':
        # a write through an index invalidates the other indexed cells
        d = {q: x for q, x in d.items() if q[0] != 'ix'}
    d[p] = nv
    return mk('obj', base, tuple(sorted(d.items(), key=lambda kv: repr_proj(kv[0]))))

def repr_proj(p):
    if p[0] == 'ix':
        return ('ix', p[1].n, 0)
    return (p[0], str(p[1]), p[2] if len(p) > 2 else 0)

# ---------------------------------------------------------------- operators
_cmp = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b,
        'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}
_ari = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b,
        'AddUnchecked': lambda a, b: a + b, 'SubUnchecked': lambda a, b: a - b}
_flip = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}

def simp_op(op, *xs):
    if op == 'Not':
        x, = xs
        if x.k == 'b':
            return B(x is FALSE)
        if x.k == 'op' and x.a[0] == 'Not':
            return x.a[1]
        if x.k == 'op' and x.a[0] in _flip:
            return mk('op', _flip[x.a[0]], *x.a[1:])
        return mk('op', 'Not', x)
    if op in ('AddUnchecked', 'SubUnchecked'):
        op = op[:3]
    if len(xs) == 2:
        x, y = xs
        if x.k == 'i' and y.k == 'i':
            a, b = x.a[0], y.a[0]
            if op in _cmp:
                return B(_cmp[op](a, b))
            if op in _ari:
                return I(_ari[op](a, b))
            if op == 'Div' and b:
                return I(a // b)
            if op == 'Rem' and b:
                return I(a % b)
            if op == 'BitAnd':
                return I(a & b)
            if op == 'BitOr':
                return I(a | b)
            if op == 'max':
                return I(max(a, b))
            if op == 'min':
                return I(min(a, b))
        if x.k == 'b' and y.k == 'b':
            p, q = x is TRUE, y is TRUE
            if op == 'Eq':
                return B(p == q)
            if op in ('Ne', 'BitXor'):
                return B(p != q)
            if op == 'BitAnd':
                return B(p and q)
            if op == 'BitOr':
                return B(p or q)
        if op in ('BitAnd', 'BitOr') and (x.k == 'b' or y.k == 'b'):
            c, o = (x, y) if x.k == 'b' else (y, x)
            if op == 'BitAnd':
                return o if c is TRUE else FALSE
            return TRUE if c is TRUE else o
        if op in ('Eq', 'Ne') and x.k in ('ch', 's', 'by') and y.k == x.k:
            return B((x is y) == (op == 'Eq'))
        if op in ('Eq', 'Le', 'Ge') and x is y and x.k != 'old':
            return TRUE
        if op in ('Ne', 'Lt', 'Gt') and x is y and x.k != 'old':
            return FALSE
        if op == 'Add':
            if y.k == 'i' and y.a[0] == 0:
                return x
            if x.k == 'i' and x.a[0] == 0:
                return y
            if x.k == 'i':
                x, y = y, x
            if y.k == 'i' and x.k == 'op' and x.a[0] == 'Add' and x.a[2].k == 'i':
                return simp_op('Add', x.a[1], I(x.a[2].a[0] + y.a[0]))
        if op == 'Sub' and y.k == 'i':
            if y.a[0] == 0:
                return x
            return simp_op('Add', x, I(-y.a[0]))
        if op == 'Sub' and x is y:
            return I(0)
        if op in ('Gt', 'Ge'):
            # canonical direction
            return mk('op', 'Lt' if op == 'Gt' else 'Le', y, x)
        if op in ('Eq', 'Ne') and x.n > y.n:
            x, y = y, x
        if op in ('Eq', 'Ne'):
            for u, w in ((x, y), (y, x)):
                # a length plus something is larger than a smaller constant
                if u.k == 'i' and w.k == 'op' and w.a[0] == 'Add' and w.a[2].k == 'i' and w.a[1].k == 'call' and w.a[1].a[0] == 'len' and u.a[0] < w.a[2].a[0]:
                    return B(op == 'Ne')
        return mk('op', op, x, y)
    return mk('op', op, *xs)

def unsigned_cmp(op, a, b):
    """Comparisons of an unsigned value with 0 or 1 as (in)equalities with 0."""
    if a.k == 'i':
        a, b = b, a
        op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
    n = b.a[0]
    if (op, n) in (('Gt', 0), ('Ge', 1)):
        return 'Ne', a, I(0)
    if (op, n) in (('Lt', 1), ('Le', 0)):
        return 'Eq', a, I(0)
    return op, a, b

# ---------------------------------------------------------------- state
class St:
    __slots__ = ('store', 'facts', 'auto', 'hist')
    def __init__(self):
        self.store = {}
        self.facts = {}
        self.auto = None
        self.hist = None
    def copy(self):
        s = St()
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.auto = self.auto
        s.hist = self.hist
        return s
    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), self.auto)
    def note(self, msg):
        self.hist = (self.hist, msg)
    def trail(self):
        """The last decisions of the path that led here."""
        out = []
        h = self.hist
        while h and len(out) < 14:
            m = h[1]
            if isinstance(m, tuple):
                sp, t, v = m
                m = '%s: %s is %s' % (sp, str(t)[:120], v)
            if not out or out[-1] != m:
                out.append(m)
            h = h[0]
        return '  path: ' + '\n        '.join(out[::-1]) if out else '  path: (straight)'

class Budget(Exception):
    pass

class Call:
    """What a client sees of a call."""
    __slots__ = ('name', 'decl', 'fn', 'args', 'aty', 'site', 'fnkey', 'block', 'span', 'fid', 'dty', 'exp', 'env')
    def __repr__(self):
        return 'Call(%s, %s)' % (self.name, self.args)

class Client:
    """Override what you need."""
    keep_init = False      # keep what is known about the initial values of the parameters to the end?
    tracing = False        # are tracing events/spans enabled on the analysed runs?
    def init(self):
        return None
    def on_call(self, e, st, c):
        """Return a list of (state, value) to replace the call, or None."""
        return None
    def on_ret(self, e, st, c, val):
        """After a call (per resulting state). May mutate st.auto / st.facts."""
        return None
    def on_drop(self, e, st, val, ty, fnkey, block):
        return None
    def on_assert(self, e, st, t, ops, fnkey, block):
        return None
    def on_next(self, e, st, it, val, site):
        """An iterator of unknown provenance advanced; val is NONE or Some(elem)."""
        return None
    def on_write(self, e, st, loc, val, fnkey, block):
        return None
    def on_panic(self, e, st, c):
        return None
    def on_branch(self, e, st, term, val):
        return None
    def opaque(self, key):
        return False
    def elem_ok(self, st):
        return True
    def next_items(self, e, st, loc, v, site):
        """Outcomes of advancing the iterator v stored at loc: [(state, Option value)], or None."""
        return None
    def on_collect(self, e, st, x, site):
        """x becomes an element of a collection made by collect()."""
        return None
    def on_extend(self, e, st, loc, x, site):
        """x is appended to the collection at loc by extend()."""
        return None
    def on_binop(self, e, st, op, a, b):
        """A value for the arithmetic operation, or None."""
        return None
    def join_hint(self, a, b):
        """A value that covers both, or None."""
        return None

PURE_PREFIX = (
    'std::', 'str::', '[', 'url::', 'anyhow::', 'bytes::', 'usize::', 'u8::', 'u32::', 'u64::', 'i32::', 'f32::', 'f64::', 'char::', 'bool::',
    'sha2::', 'digest::', 'chrono::', 'regex::', 'itertools::', 'sprs::', 'fxhash::', 'html_builder::', 'D::', 'T::', 'i64::', 'u16::', 'u128::',
    'walkdir::DirEntry', 'reqwest::StatusCode', 'http::', 'reqwest::Url',
)
IMPURE_PREFIX = (
    'std::io::', 'std::fs::', 'std::env::', 'std::time::', 'std::thread::', 'std::sync::', 'std::process::', 'std::net::',
    'std::path::Path::exists', 'std::path::Path::is_file', 'std::path::Path::is_dir', 'std::path::Path::metadata', 'std::path::Path::try_exists',
    'std::path::Path::read_dir', 'std::path::Path::canonicalize', 'std::path::Path::is_symlink', 'std::path::Path::symlink_metadata',
    'chrono::Utc::now', 'chrono::Local::now', 'chrono::offset::Utc::now', 'chrono::offset::Local::now', 'std::hash::RandomState', 'std::collections::hash_map::RandomState',
    'std::cell::', 'std::rc::', 'std::alloc::', 'chrono::offset::utc::Utc::now',
)

# reference/owner conversions that keep the content
IDENT_REF = {
    'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow',
    'std::convert::AsMut::as_mut', 'std::borrow::BorrowMut::borrow_mut',
    'std::string::String::as_str', 'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::path::PathBuf::as_path', 'std::path::Path::new',
    'std::string::String::as_bytes', 'str::as_bytes', 'std::hint::must_use', 'std::hint::black_box', 'std::string::String::as_mut_str',
    'std::ffi::OsString::as_os_str', 'std::path::Path::as_os_str', 'std::ffi::OsStr::new', 'bytes::Bytes::as_ref', 'std::boxed::Box::as_ref',
    'std::pin::Pin::new', 'std::path::PathBuf::as_os_str', '[T]::as_ref', 'std::iter::Iterator::by_ref', 'std::io::Read::by_ref',
    'std::ffi::CString::as_c_str',
}
IDENT_VAL = {
    'std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::path::Path::to_path_buf', '[T]::to_vec', 'std::vec::Vec::into_boxed_slice',
    '[T]::into_vec', 'std::string::String::into_bytes', 'str::to_owned', 'std::path::Path::to_owned', 'std::path::PathBuf::into_os_string',
    'std::ffi::OsStr::to_os_string', 'str::to_string', 'std::string::String::into_boxed_str', 'std::path::Path::into_path_buf', 'str::into_string',
}
ADAPT1 = {  # Iterator adapters taking a closure
    'map', 'filter', 'filter_map', 'inspect', 'take_while', 'skip_while', 'map_while', 'flat_map',
}
ADAPT0 = {'enumerate', 'cloned', 'copied', 'peekable', 'rev', 'fuse', 'flatten', 'cycle'}
ADAPTN = {'take', 'skip', 'step_by', 'chain', 'zip', 'chunks', 'windows'}

class Engine:
    at = '?'
    def __init__(self, prog, client, budget=400000, maxdepth=60, maxstates=48, timeout=None, interest=None, small=24, cut=(), also=()):
        self.p = prog
        # interest: predicate on callee names.  Bodies from which no interesting call is reachable (and
        # which are not small loop-free helpers) are summarised instead of analysed in place.
        self.cut = cut
        self.relevant = prog.cg().reaching(interest, cut, also) if interest else None
        self.small = small
        self.c = client
        self.budget = budget
        self.steps = 0
        self.maxdepth = maxdepth
        self.maxstates = maxstates
        self.cfg = {}
        self.fids = {}
        self.fidrev = {}
        self.fidkey = {}
        self.stack = []
        self.visited = set()       # (fnkey, block) reached
        self.fn_visited = {}
        self.calls_seen = 0
        self.unmodelled = {}
        self.deadline = time.time() + timeout if timeout else None
        self.fnops = {}
        self.widenings = 0
        self.joins = 0

    # ---- naming
    newphi = ()
    def fid(self, parent, site):
        k = (parent, site)
        v = self.fids.get(k)
        if v is None:
            v = len(self.fids) + 1
            self.fids[k] = v
            self.fidrev[v] = k
        return v

    def concrete(self, c, ty):
        """A type named in the function of call c, with the type parameters replaced by what the frames on the stack gave."""
        fid, key = c.fid, c.fnkey
        for _ in range(20):
            names = self.p.fns[key].get('gen') or []
            hit = [n for n in names if re.search(r'(?<![\w:])%s(?![\w:])' % re.escape(n), ty)]
            if not hit or fid not in self.fidrev:
                return ty
            parent, site = self.fidrev[fid]
            if isinstance(parent, tuple):
                parent = parent[0]
            if parent not in self.fidkey:
                return ty
            pk = self.fidkey[parent]
            if isinstance(site, tuple) and len(site) == 2 and site[1] == 'call':
                fn = callee_of(self.p.fns[pk]['blocks'][site[0]]['t'])
                ta = fn['targs'] if fn else []
                if len(ta) != len(names):
                    return ty
                for n in hit:
                    ty = re.sub(r'(?<![\w:])%s(?![\w:])' % re.escape(n), lambda m: '\0' + ta[names.index(n)], ty)
                ty = ty.replace('\0', '')
            elif not (self.p.fns[pk].get('gen') == names and key.startswith(pk)):
                return ty
            fid, key = parent, pk
        return ty

    # ---- store access
    def root_val(self, st, r):
        v = st.store.get(r)
        if v is None:
            if r[0] == 'D':
                t = r[1]
                v = t if t.k == 'adt' and t.a[0] in ('tuple', 'array') else mk('deref', t)
            elif r[0] == 'L':
                v = UNDEF
            elif r[0] == 'G':
                f = self.p.fns.get(r[1])
                if f is not None and f['kind'] == 'static' and f['locals'][0][0].startswith(('&str', '&[&str', '&[(&str', '[&str', '[(&str', 'usize', 'f32')):
                    return self.eval_const_body(r[1], {'ty': f['locals'][0][0]})
                v = mk('init', r)
            else:
                v = mk('init', r)
        return v

    def read(self, st, loc):
        r, p = loc
        v = self.root_val(st, r)
        for e in p:
            v = getproj(v, e)
        return v

    def write(self, st, loc, val):
        r, p = loc
        if not p:
            st.store[r] = val
        else:
            st.store[r] = setproj(self.root_val(st, r), p, val)

    def content(self, st, v, depth=0):
        """The value behind any number of references (snapshot)."""
        n = 0
        while n < 8:
            if v.k == 'ref':
                v = self.read(st, v.a[0])
            elif v.k == 'adt' and v.a[0] == 'box':
                v = self.read(st, v.a[2].a[0])
            elif v.k == 'deref':
                v = v.a[0]
            elif v.k not in CONSTS and v.k != 'adt' and ('D', v) in st.store:
                w = st.store[('D', v)]
                if w.k == 'deref' and w.a[0] is v:
                    break
                v = w
            else:
                break
            n += 1
        return v

    def snap(self, st, v, depth=0):
        """A reference-free term for v (deep snapshot, bounded)."""
        if depth > 6:
            return v
        v = self.content(st, v)
        if v.k == 'adt':
            if len(v.a) == 2:
                return v
            fs = [self.snap(st, x, depth + 1) for x in v.a[2:]]
            return mk('adt', v.a[0], v.a[1], *fs)
        if v.k in ('call', 'cat', 'op', 'fld', 'at') and any(isinstance(x, T) and has_ref(x) for x in v.a):
            return mk(v.k, *[self.snap(st, x, depth + 1) if isinstance(x, T) else x for x in v.a])
        return v

    # ---- facts
    def known(self, st, t):
        """Constant value of t under the facts, or t."""
        if t.k in CONSTS:
            return t
        f = st.facts.get(t)
        if f is not None and f.k != 'notin':
            return f
        if t.k == 'op':
            op = t.a[0]
            if op == 'Not':
                x = self.known(st, t.a[1])
                if x is not t.a[1]:
                    return simp_op('Not', x)
            elif op in _flip:
                g = st.facts.get(mk('op', _flip[op], *t.a[1:]))
                if g is not None and g.k == 'b':
                    return simp_op('Not', g)
                x, y = self.known(st, t.a[1]), self.known(st, t.a[2])
                if x is not t.a[1] or y is not t.a[2]:
                    r = simp_op(op, x, y)
                    if r.k == 'b':
                        return r
                # excluded values
                if op in ('Eq', 'Ne'):
                    for u, w in ((t.a[1], y), (t.a[2], x)):
                        g = st.facts.get(u)
                        if g is not None and g.k == 'notin' and w in g.a:
                            return B(op == 'Ne')
                r = self.c_numeric(st, t)
                if r is not None:
                    return B(r)
        return t

    def c_numeric(self, st, t):
        return None

    def assume(self, st, t, val):
        """Add t == val (val constant). False if contradictory."""
        cur = self.known(st, t)
        if cur.k in CONSTS and cur.k != 'undef':
            return cur is val
        f = st.facts.get(t)
        if f is not None and f.k == 'notin' and val in f.a:
            return False
        if t.k == 'op' and val.k == 'b':
            op = t.a[0]
            if op == 'Not':
                return self.assume(st, t.a[1], simp_op('Not', val))
            if op == 'Ne':
                return self.assume(st, mk('op', 'Eq', *t.a[1:]), simp_op('Not', val))
            if op == 'Eq' and val is TRUE:
                x, y = t.a[1], t.a[2]
                if y.k in CONSTS and x.k not in CONSTS:
                    st.facts[x] = y
                elif x.k in CONSTS and y.k not in CONSTS:
                    st.facts[y] = x
            if op == 'Eq' and val is FALSE:
                x, y = t.a[1], t.a[2]
                if x.k in CONSTS:
                    x, y = y, x
                if y.k in CONSTS and x.k not in CONSTS:
                    g = st.facts.get(x)
                    if g is None or g.k == 'notin':
                        xs = set(g.a) if g is not None else set()
                        xs.add(y)
                        st.facts[x] = mk('notin', *sorted(xs, key=lambda z: z.n))
            if op == 'BitAnd' and val is TRUE:
                return self.assume(st, t.a[1], TRUE) and self.assume(st, t.a[2], TRUE)
            if op == 'BitOr' and val is FALSE:
                return self.assume(st, t.a[1], FALSE) and self.assume(st, t.a[2], FALSE)
        st.facts[t] = val
        return True

    def assume_not(self, st, t, vals):
        f = st.facts.get(t)
        if f is not None and f.k != 'notin':
            return f not in vals
        xs = set(vals)
        if f is not None:
            xs |= set(f.a)
        st.facts[t] = mk('notin', *sorted(xs, key=lambda z: z.n))
        return True

    # ---- fresh atoms
    def fresh(self, st, site, tag):
        a = mk('fresh', site, tag)
        self.retire(st, a)
        return a

    def retire(self, st, a):
        """An atom is about to be re-created (new iteration): older uses become 'old'."""
        hit = False
        for v in st.store.values():
            if a in leaves(v):
                hit = True
                break
        if not hit:
            for r in st.store:
                if r[0] == 'D' and a in leaves(r[1]):
                    hit = True
                    break
        fh = [k for k in st.facts if a in leaves(k)]
        if not hit and not fh:
            return
        m = {a: mk('old', a)}
        self.rename(st, m)

    def rename(self, st, m):
        memo = {}
        ks = m.keys()
        ns = {}
        for r, v in st.store.items():
            r2 = subst_root(r, m, memo)
            if r2[0] == 'D' and r2[1].k == 'ref':
                continue
            ns[r2] = subst(v, m, memo)
        st.store = ns
        nf = {}
        for k, v in st.facts.items():
            if leaves(k) & ks:
                k2 = subst(k, m, memo)
                if any(l.k == 'old' for l in leaves(k2)) and k2 in nf and nf[k2] is not v:
                    nf.pop(k2)
                    continue
                if k2.k in CONSTS:
                    continue
                nf[k2] = v
            else:
                nf[k] = v
        st.facts = nf
        if st.auto is not None:
            st.auto = self.subst_auto(st.auto, m)

    def subst_auto(self, a, m):
        if isinstance(a, T):
            return subst(a, m)
        if isinstance(a, tuple):
            return tuple(self.subst_auto(x, m) for x in a)
        if isinstance(a, frozenset):
            return frozenset(self.subst_auto(x, m) for x in a)
        return a

    def havoc(self, st, loc, site, tag='hv'):
        r, p = loc
        a = self.fresh(st, site + (show_loc(loc),) if isinstance(site, tuple) else (site, show_loc(loc)), tag)
        # retire may have renamed the root
        self.write(st, loc, a)

    # ---- CFG
    def cfg_of(self, key):
        c = self.cfg.get(key)
        if c is not None:
            return c
        f = self.p.fns[key]
        bl = f['blocks']
        n = len(bl)
        succ = []
        for b in bl:
            t = b['t']
            k = t['t']
            if k == 'goto':
                s = [t['to']]
            elif k == 'switch':
                s = [x[1] for x in t['tg']] + [t['else']]
            elif k in ('call', 'drop', 'assert'):
                s = [t['to']] if t.get('to') is not None else []
            else:
                s = []
            succ.append(list(dict.fromkeys(x for x in s if not bl[x]['c'])))
        order = []
        state = [0] * n
        heads = set()
        # iterative DFS
        stack = [(0, iter(succ[0]))]
        state[0] = 1
        while stack:
            u, it = stack[-1]
            adv = False
            for v in it:
                if state[v] == 0:
                    state[v] = 1
                    stack.append((v, iter(succ[v])))
                    adv = True
                    break
                elif state[v] == 1:
                    heads.add(v)
            if not adv:
                state[u] = 2
                order.append(u)
                stack.pop()
        rpo = {b: i for i, b in enumerate(reversed(order))}
        npred = [0] * n
        for u in range(n):
            if u in rpo:
                for v in succ[u]:
                    npred[v] += 1
        # liveness of locals that never have their address taken
        nl = len(f['locals'])
        addr = set()
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        def place_use(p, U, D, write=False):
            l = p['l']
            for e in p['p']:
                if isinstance(e, dict) and 'i' in e:
                    if e['i'] not in D:
                        U.add(e['i'])
            if write and not p['p']:
                return l
            if l not in D:
                U.add(l)
            return None
        def op_use(o, U, D):
            for k in ('cp', 'mv'):
                if k in o:
                    place_use(o[k], U, D)
        for i, b in enumerate(bl):
            U, D = use[i], deff[i]
            for s in b['s']:
                if s['s'] == '=':
                    r = s['r']
                    k = r['k']
                    for kk in ('o', 'a', 'b'):
                        if isinstance(r.get(kk), dict) and ('cp' in r[kk] or 'mv' in r[kk]):
                            op_use(r[kk], U, D)
                    for o in r.get('ops', []):
                        op_use(o, U, D)
                    if 'p' in r:
                        place_use(r['p'], U, D)
                        if k == 'ref' and not (r['p']['p'] and r['p']['p'][0] == '*'):
                            addr.add(r['p']['l'])
                    d = place_use(s['p'], U, D, True)
                    if d is not None:
                        D.add(d)
                elif s['s'] == 'sd':
                    place_use(s['p'], U, D)
            t = b['t']
            if t['t'] == 'switch':
                op_use(t['o'], U, D)
            elif t['t'] == 'call':
                op_use(t['f'], U, D)
                for o in t['a']:
                    op_use(o, U, D)
                d = place_use(t['d'], U, D, True)
                if d is not None:
                    D.add(d)
            elif t['t'] == 'assert':
                op_use(t['c'], U, D)
                for o in t['ops']:
                    op_use(o, U, D)
            elif t['t'] == 'drop':
                place_use(t['p'], U, D)
            elif t['t'] == 'return':
                if 0 not in D:
                    U.add(0)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for u in order:
                o = set()
                for v in succ[u]:
                    o |= live[v]
                ni = use[u] | (o - deff[u])
                if ni != live[u]:
                    live[u] = ni
                    changed = True
        c = dict(succ=succ, rpo=rpo, heads=heads, npred=npred, live=live, addr=addr)
        self.cfg[key] = c
        return c

    # ---- garbage collection
    def gc(self, st, drop_roots=()):
        for r in drop_roots:
            st.store.pop(r, None)
        # reachable D/H roots from the kept locals
        store = st.store
        keep = set()
        lv = set()
        work = [r for r in store if r[0] not in ('D', 'H', 'C')]
        seen = set(work)
        auto_terms = []
        collect_terms(st.auto, auto_terms)
        def visit(v):
            for r in refs_in(v):
                if r not in seen:
                    seen.add(r)
                    work.append(r)
        for t in auto_terms:
            lv |= leaves(t)
            visit(t)
        while True:
            while work:
                r = work.pop()
                v = store.get(r)
                if v is None:
                    if r[0] == 'D':
                        lv |= leaves(r[1])
                    continue
                lv |= leaves(v)
                if r[0] == 'D':
                    lv |= leaves(r[1])
                visit(v)
            more = False
            for r in store:
                if r not in seen and r[0] == 'D' and leaves(r[1]) <= lv:
                    seen.add(r)
                    work.append(r)
                    more = True
            if not more:
                break
        if len(seen) < len(store) or any(r not in seen for r in store):
            st.store = {r: v for r, v in store.items() if r in seen}
        if st.facts:
            if self.c.keep_init:
                st.facts = {k: v for k, v in st.facts.items() if self.keep_fact(k) and all(l in lv or l.k == 'init' for l in leaves(k))}
            else:
                st.facts = {k: v for k, v in st.facts.items() if leaves(k) <= lv and self.keep_fact(k)}

    def keep_fact(self, k):
        return not any(l.k == 'old' for l in leaves(k))

    # ---- joins
    def skel(self, v, d=0):
        if v.k == 'adt':
            if d > 3 or v.a[0] in ('array',):
                return 0
            return (v.a[0], v.a[1]) + tuple(self.skel(x, d + 1) for x in v.a[2:])
        if v.k == 'b':
            return v.a[0]
        if v.k == 'obj':
            return tuple((p, self.skel(x, d + 1)) for p, x in v.a[1]) if d < 3 else 0
        if v.k == 'ref':
            return 'r'
        return 0

    def skeleton(self, st):
        out = []
        skip = getattr(self.c, 'skel_skip', None)
        for r, v in st.store.items():
            if skip and v.k == 'obj':
                s = tuple((p, self.skel(x, 1)) for p, x in v.a[1] if not skip(r, p))
            else:
                s = self.skel(v)
            if s != 0 and s != 'r':
                out.append((r, s))
            if v.k == 'adt':
                # positions in short constant arrays: such loops are unrolled
                w = v
                while w.k == 'adt' and w.a[0].startswith('it:') and len(w.a) > 2:
                    if w.a[0] == 'it:seq':
                        if len(w.a) > 4 and w.a[4].k == 'i':
                            b = self.content(st, w.a[2])
                            if b.k == 'adt' and b.a[0] == 'array' and len(b.a) <= 14:
                                out.append((r, 'pos', w.a[4].a[0]))
                        break
                    w = w.a[2]
        fs = []
        for k, v in st.facts.items():
            if k.k == 'discr' and v.k == 'i' and k.a[0].k in ('deref', 'fld', 'init') and not (skip and k.a[0].k == 'fld' and k.a[0].a[0].k == 'deref' and skip(('D', k.a[0].a[0].a[0]), ('f',) + k.a[0].a[1:])):
                fs.append((k, v))
        x = getattr(self.c, 'skel_extra', None)
        return (frozenset(out), frozenset(fs), x(self, st) if x else None)

    def join_val(self, point, loc, a, b):
        if a is b:
            return a
        if a.k == 'empty' and b.k == 'coll' and getattr(self.c, 'templates', False):
            return b
        if b.k == 'empty' and a.k == 'coll' and getattr(self.c, 'templates', False):
            return a
        if a.k == 'coll' and b.k == 'coll' and a.a[0] == b.a[0] and getattr(self.c, 'templates', False):
            return self.join_coll(a, b)
        h = self.c.join_hint(a, b)
        if h is not None:
            return h
        r, p = loc
        if a.k == 'adt' and b.k == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a) and len(p) < 8:
            v = a.a[1] if a.a[0] not in ('tuple', 'array') else 0
            return mk('adt', a.a[0], a.a[1], *[
                self.join_val(point, (r, p + (('f', v, i),)), x, y) for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:]))])
        if a.k == 'obj' or b.k == 'obj':
            ab, ad = (a.a[0], dict(a.a[1])) if a.k == 'obj' else (a, {})
            bb, bd = (b.a[0], dict(b.a[1])) if b.k == 'obj' else (b, {})
            if ab is bb:
                out = {}
                for q in set(ad) | set(bd):
                    x = ad.get(q) or getproj(ab, q)
                    y = bd.get(q) or getproj(bb, q)
                    out[q] = self.join_val(point, (r, p + (q,)), x, y)
                return mk('obj', ab, tuple(sorted(out.items(), key=lambda kv: repr_proj(kv[0]))))
        ph = mk('phi', point, loc)
        if getattr(self.c, 'merge_rets', False):
            self.newphi.append((ph, a, b))
        return ph

    def join_preds(self, s, a, b):
        """Emptiness and variant of a joined value, where both sides agree."""
        for ph, x, y in self.newphi:
            if x is UNDEF or y is UNDEF:
                continue
            for pr in ('empty', 'opt'):
                if pr == 'empty':
                    f = lambda st, v: TRUE if v.k == 'empty' else FALSE if v.k == 'vpush' else self.known(st, simp_op('Eq', self.length(st, v), I(0)))
                    k = simp_op('Eq', self.length(s, ph), I(0))
                else:
                    f = lambda st, v: I(v.a[1]) if v.k == 'adt' and v.a[0] == OPT else self.known(st, mk('discr', v.a[0] if v.k == 'obj' else v, OPT))
                    k = mk('discr', ph, OPT)
                u = f(a, x)
                if u.k in CONSTS and f(b, y) is u:
                    s.facts[k] = u
        self.newphi = []

    def join_coll(self, a, b):
        """Join of two collections built at the same site, described by their elements."""
        if a is b:
            return a
        site = a.a[0]
        x = self.join_val(('tmpl', site), (('T', site), ()), a.a[1], b.a[1])
        m = {l: mk('tmpl', site, l) for l in leaves(x) if l.k == 'phi' and l.a[0] == ('tmpl', site)}
        return mk('coll', site, subst(x, m))

    def join(self, point, a, b):
        """Least-effort join of two states with equal automaton state."""
        s = St()
        self.newphi = []
        s.auto = a.auto
        s.hist = a.hist
        for r in set(a.store) | set(b.store):
            x = self.root_val(a, r)
            y = self.root_val(b, r)
            if x is UNDEF or y is UNDEF:
                # not initialised on one side: keep only if both
                if x is UNDEF and y is UNDEF:
                    continue
                s.store[r] = UNDEF
                continue
            s.store[r] = self.join_val(point, (r, ()), x, y)
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if w is v:
                s.facts[k] = v
            elif w is not None and w.k == 'notin' and v.k == 'notin':
                both = [x for x in v.a if x in w.a]
                if both:
                    s.facts[k] = mk('notin', *both)
        if getattr(self.c, 'merge_rets', False):
            for x, y in ((a, b), (b, a)):
                for k, v in x.facts.items():
                    if k not in s.facts and k not in y.facts and v.k in CONSTS and self.known(y, k) is v:
                        s.facts[k] = v
        self.congruent(s, point)
        self.vacuous(s, a, b)
        self.join_preds(s, a, b)
        self.joins += 1
        return s

    def congruent(self, s, point):
        """Places that hold equal values, or values with a constant difference, on both sides of a join do so after it:
        they are named after one of them."""
        if not getattr(self.c, 'congruence', False):
            return
        def split(x):
            if x.k == 'i':
                return None, x.a[0]
            if x.k == 'op' and x.a[0] == 'Add' and x.a[2].k == 'i':
                return x.a[1], x.a[2].a[0]
            return x, 0
        groups = {}
        for ph, a, b in self.newphi:
            if ph.a[0] == point and a is not UNDEF and b is not UNDEF:
                (x, m), (y, n) = split(a), split(b)
                groups.setdefault((x, y, m - n), {})[ph] = (a, m)
        m = {}
        for g in groups.values():
            if len(g) > 1:
                own = [ph for ph, (a, _) in g.items() if a is ph]
                rep = min(own or g, key=lambda x: repr(x.a[1]))
                for ph, (a, n) in g.items():
                    if ph is not rep:
                        m[ph] = simp_op('Add', rep, I(n - g[rep][1]))
        if m:
            self.rename(s, m)
            self.newphi = [(ph, a, b) for ph, a, b in self.newphi if ph not in m]

    def vacuous(self, s, a, b):
        """Facts about the elements of a collection hold where that collection is still empty."""
        if not getattr(self.c, 'templates', False):
            return
        for x, y in ((a, b), (b, a)):
            ks = [k for k in x.facts if any(l.k == 'tmpl' for l in leaves(k))]
            if ks:
                lv = set()
                for v in y.store.values():
                    lv |= leaves(v)
                for k in ks:
                    if not any(l in lv for l in leaves(k) if l.k == 'tmpl'):
                        s.facts[k] = x.facts[k]

    def widen(self, point, old, new):
        """old: head state; new: state arriving by a back edge (atoms phi(point) in it are last iteration's)."""
        phis = {}
        for v in list(new.store.values()) + list(new.facts.keys()) + [x for r in new.store if r[0] == 'D' for x in (r[1],)]:
            for l in leaves(v):
                if l.k == 'phi' and l.a[0] == point:
                    phis[l] = mk('old', l)
        orig = new
        if phis:
            # an unchanged root still holding its own phi stays
            keep = {}
            n2 = new.copy()
            self.rename(n2, phis)
            new = n2
        s = St()
        self.newphi = []
        s.auto = old.auto
        s.hist = old.hist
        back = {v: k for k, v in phis.items()}
        for r in set(old.store) | set(new.store):
            x = self.root_val(old, r)
            y = self.root_val(new, r)
            if x is UNDEF or y is UNDEF:
                if not (x is UNDEF and y is UNDEF):
                    s.store[r] = UNDEF
                continue
            s.store[r] = self.join_val(point, (r, ()), x, y)
        # facts: F over the head atoms holds for the new iteration if its instance holds
        inst = {}
        for k in old.facts:
            for l in leaves(k):
                if l.k == 'phi' and l.a[0] == point and l not in inst:
                    inst[l] = self.read(new, l.a[1])
        # atoms newly generalised in s: facts about previous concrete value are gone automatically
        for k, v in old.facts.items():
            k2 = subst(k, inst) if inst else k
            w = k2 if k2.k in CONSTS else self.known(new, k2)
            if w is v:
                s.facts[k] = v
            elif v.k == 'notin':
                if w.k in CONSTS and w.k != 'undef':
                    if w not in v.a:
                        s.facts[k] = v
                else:
                    g = new.facts.get(k2)
                    if g is not None and g.k == 'notin':
                        both = [x for x in v.a if x in g.a]
                        if both:
                            s.facts[k] = mk('notin', *both)
        self.vacuous(s, old, new)
        self.congruent(s, point)
        self.join_preds(s, old, new)
        self.widenings += 1
        return s

    # ---- driving
    def run(self, key, args=None, st=None, auto=None):
        st = st or St()
        if st.auto is None:
            st.auto = self.c.init() if auto is None else auto
        f = self.p.fns[key]
        if args is None:
            args = [self.arg(st, key, i) for i in range(f['argc'])]
        return self.exec_fn(key, args, st, self.fid(0, key))

    def arg(self, st, key, i):
        f = self.p.fns[key]
        ty = f['locals'][i + 1][0]
        a = mk('init', ('A', key.split('#')[0], i))
        return a

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Budget('step budget exceeded (%d)' % self.budget)
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exceeded')

    def exec_fn(self, key, args, st, fid):
        f = self.p.fns[key]
        cfg = self.cfg_of(key)
        self.stack.append(key)
        self.fidkey[fid] = key
        self.fn_visited[key] = self.fn_visited.get(key, 0) + 1
        try:
            st = st.copy()
            for i, a in enumerate(args):
                st.store[('L', fid, i + 1)] = a
            pending = {0: [st]}
            heads = {}
            seen = {}
            rets = []
            rkeys = set()
            mine = [('L', fid, i) for i in range(len(f['locals']))]
            while pending:
                b = min(pending, key=lambda x: cfg['rpo'].get(x, 1 << 30))
                states = pending.pop(b)
                if cfg['npred'][b] > 1 or b in cfg['heads'] or len(states) > 1:
                    states = self.merge(key, fid, b, states, cfg, heads, seen)
                for s in states:
                    self.visited.add((key, b))
                    for (nb, ns) in self.exec_block(key, fid, b, s, f):
                        if nb == 'ret':
                            rv = ns.store.get(('L', fid, 0), UNIT)
                            if f['kind'] in ('promoted', 'const', 'static'):
                                rv = self.snap(ns, rv)
                            for r in mine:
                                ns.store.pop(r, None)
                            # keep ret alive during gc
                            ns.store[('R', fid)] = rv
                            self.gc(ns)
                            k = ns.key()
                            if k in rkeys:
                                continue
                            rkeys.add(k)
                            rets.append(ns)
                        else:
                            pending.setdefault(nb, []).append(ns)
            out = []
            if len(rets) > 1 and getattr(self.c, 'merge_rets', False):
                rets = self.cap(rets, ('ret', key, fid), True)
            if len(rets) > self.maxstates:
                rets = self.cap(rets, ('ret', key, fid))
            for ns in rets:
                rv = ns.store.pop(('R', fid))
                out.append((ns, rv))
            return out
        finally:
            self.stack.pop()

    def cap(self, states, point, fine=False):
        groups = {}
        for s in states:
            r = s.store.get(point[2] and ('R', point[2])) if point[0] == 'ret' else None
            groups.setdefault((s.auto, self.skel(r) if r is not None else None, self.skeleton(s) if fine else None), []).append(s)
        out = []
        for g in groups.values():
            j = g[0]
            for s in g[1:]:
                j = self.join(point, j, s)
            out.append(j)
        return out

    def merge(self, key, fid, b, states, cfg, heads, seen):
        live = cfg['live'][b]
        addr = cfg['addr']
        n = len(self.p.fns[key]['locals'])
        drop = [('L', fid, i) for i in range(n) if i not in live and i not in addr]
        res = []
        if b in cfg['heads']:
            h = heads.setdefault(b, {})
            point = (key, fid, b)
            dirty = {}
            for s in states:
                self.gc(s, drop)
                k = (s.auto, self.skeleton(s))
                if k not in h and len(h) >= self.maxstates:
                    # too many partitions: fall back to one per automaton state
                    cand = [q for q in h if q[0] == s.auto]
                    if cand:
                        k = cand[0]
                o = h.get(k)
                if o is None:
                    h[k] = s
                    dirty[k] = s
                else:
                    j = self.widen(point, o, s)
                    self.gc(j)
                    if j.key() != o.key():
                        h[k] = j
                        dirty[k] = j
            return [s.copy() for s in dirty.values()]
        sn = seen.setdefault(b, set())
        for s in states:
            self.gc(s, drop)
            k = s.key()
            if k in sn:
                continue
            sn.add(k)
            res.append(s)
        if len(res) > 1 and getattr(self.c, 'merge_rets', False):
            res = self.cap(res, ('blk', key, None, fid, b), True)
        if len(res) > self.maxstates:
            res = self.cap(res, ('blk', key, None, fid, b))
        return res

    # ---- blocks
    def exec_block(self, key, fid, b, st, f):
        self.tick()
        blk = f['blocks'][b]
        for s in blk['s']:
            k = s['s']
            if k == '=':
                v = self.rvalue(st, fid, s['r'], (fid, b))
                loc = self.place(st, fid, s['p'])
                if s['p']['p']:
                    self.prev = self.read(st, loc)
                self.write(st, loc, v)
                if s['p']['p']:
                    self.c.on_write(self, st, loc, v, key, b)
            elif k == 'dead':
                pass
            elif k == 'sd':
                loc = self.place(st, fid, s['p'])
                v = self.read(st, loc)
                if v.k == 'adt':
                    self.write(st, loc, mk('adt', v.a[0], s['v'], *v.a[2:]))
        t = blk['t']
        k = t['t']
        if k == 'goto':
            return [(t['to'], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'switch':
            return self.switch(st, fid, t)
        if k == 'drop':
            loc = self.place(st, fid, t['p'])
            v = self.read(st, loc)
            self.c.on_drop(self, st, v, t['ty'], key, b)
            return [(t['to'], st)]
        if k == 'assert':
            ops = [self.operand(st, fid, o) for o in t['ops']]
            self.c.on_assert(self, st, t, ops, key, b)
            return [(t['to'], st)]
        if k == 'call':
            return self.do_call(key, fid, b, st, t)
        return []

    def switch(self, st, fid, t):
        self.at = t.get('sp') or '?'
        v = self.known(st, self.operand(st, fid, t['o']))
        return self.switch_on(st, v, [(x[0], x[1]) for x in t['tg']], t['else'], t['ty'])

    def const_for(self, v, n, ty):
        if ty == 'bool':
            return B(n != 0)
        if ty == 'char':
            return mk('ch', n)
        return I(n)

    def switch_on(self, st, v, tg, other, ty):
        if v.k == 'i' or v.k == 'b' or v.k == 'ch':
            n = v.a[0] if v.k != 'b' else (1 if v is TRUE else 0)
            for x, to in tg:
                if x == n:
                    return [(to, st)]
            return [(other, st)]
        out = []
        vals = []
        for x, to in tg:
            c = self.const_for(v, x, ty)
            vals.append(c)
            s = st.copy()
            if self.assume(s, v, c):
                s.hist = (s.hist, (self.at, v, c))
                self.c.on_branch(self, s, v, c)
                out.append((to, s))
        if ty == 'bool':
            if len(tg) == 1:
                s = st.copy()
                c = B(vals[0] is FALSE)
                if self.assume(s, v, c):
                    s.hist = (s.hist, (self.at, v, c))
                    self.c.on_branch(self, s, v, c)
                    out.append((other, s))
            return out
        if v.k == 'discr':
            # enum: otherwise = remaining variants
            adt = v.a[1] if len(v.a) > 1 else None
            A = self.p.adts.get(adt)
            if A and A['variants']:
                rest = [x['d'] for x in A['variants'] if x['d'] not in [y for y, _ in tg]]
                f = st.facts.get(v)
                if f is not None and f.k == 'notin':
                    rest = [d for d in rest if I(d) not in f.a]
                if not rest:
                    return out
                if len(rest) == 1:
                    s = st.copy()
                    if self.assume(s, v, I(rest[0])):
                        s.hist = (s.hist, (self.at, v, I(rest[0])))
                        self.c.on_branch(self, s, v, I(rest[0]))
                        out.append((other, s))
                    return out
        s = st.copy()
        if self.assume_not(s, v, vals):
            out.append((other, s))
        return out

    # ---- places and operands
    def place(self, st, fid, p):
        r = ('L', fid, p['l'])
        path = ()
        var = None
        for e in p['p']:
            if e == '*':
                v = self.read(st, (r, path))
                var = None
                n = 0
                while v.k == 'adt' and v.a[0] == 'box' and n < 3:
                    v = v.a[2]
                    n += 1
                if v.k == 'ref':
                    r, path = v.a[0]
                else:
                    r, path = ('D', v), ()
            elif e == '?':
                path = path + (('?', '?'),)
            elif 'f' in e:
                # projecting a field out of a Box/Unique wrapper is the pointer itself
                cur = self.read(st, (r, path)) if (e.get('o') or '').startswith(('alloc::boxed', 'core::ptr')) else None
                if cur is not None and (cur.k == 'ref' or (cur.k == 'adt' and cur.a[0] == 'box') or True):
                    pass
                else:
                    path = path + (('f', var, e['f']),)
                var = None
            elif 'd' in e:
                var = e['d']
            elif 'i' in e:
                path = path + (('ix', self.read(st, (('L', fid, e['i']), ()))),)
                var = None
            elif 'ci' in e:
                path = path + (('ci', e['ci'], e['fe']),)
                var = None
            else:
                path = path + (('ss', str(e.get('ss'))),)
                var = None
        return (r, path)

    def operand(self, st, fid, o):
        if 'c' in o:
            return self.const(st, o['c'])
        p = o.get('cp') or o.get('mv')
        if p is None:
            return mk('fresh', ('rt',), 'rt')
        return self.read(st, self.place(st, fid, p))

    def const(self, st, c):
        if 'fn' in c:
            return self.fnval(c['fn'])
        if 'closure' in c:
            return mk('adt', 'closure:' + c['closure'], 0)
        v = c.get('v')
        if v is not None:
            if v is True or v is False:
                return B(v)
            if isinstance(v, int):
                return I(v)
            if 'str' in v:
                return S(v['str'])
            if 'bytes' in v:
                return mk('by', bytes(v['bytes']))
        if 'char' in c:
            return mk('ch', c['char'])
        if 'float' in c:
            return mk('fl', c['float'])
        if 'enum' in c:
            return mk('adt', c['enum'][0], c['enum'][1])
        if 'static' in c:
            return mk('ref', (('G', c['static']), ()))
        if c['ty'] == '()':
            return UNIT
        if 'unit' in c:
            return mk('adt', c['unit'], 0)
        if 'promoted' in c:
            return self.eval_const_body('%s#promoted%d' % (c['def'], c['promoted']), c)
        if 'def' in c and c['def'] in self.p.fns:
            return self.eval_const_body(c['def'], c)
        return mk('zst', c['ty'], c.get('def'))

    def fnval(self, fn):
        k = (fn.get('body') or fn.get('key') or fn['dk'], tuple(fn['targs']))
        if k not in self.fnops:
            self.fnops[k] = fn
        return mk('fn', *k)

    _consts = {}
    def eval_const_body(self, key, c):
        f = self.p.fns.get(key)
        if f is None:
            return mk('zst', c['ty'], key)
        ck = (id(self.p), key)
        if ck in Engine._consts:
            return Engine._consts[ck]
        Engine._consts[ck] = mk('zst', c['ty'], key)
        e = Engine(self.p, Client(), budget=20000)
        e.fnops = self.fnops
        e.cfg = self.cfg
        try:
            rs = e.exec_fn(key, [], St(), self.fid(0, 'const:' + key))
        except Budget:
            rs = []
        v = mk('zst', c['ty'], key)
        if len(rs) == 1:
            s, rv = rs[0]
            v = rv
            # references into the const's frame: inline as pseudo-global roots
            v = e.snap_refs(s, rv, key)
        Engine._consts[ck] = v
        return v

    def snap_refs(self, st, v, key):
        # a promoted/const is `&value`: content() of a constant snapshot is the value itself
        return self.snap(st, v)

    # ---- rvalues
    def rvalue(self, st, fid, r, site):
        k = r['k']
        if k == 'use':
            return self.operand(st, fid, r['o'])
        if k == 'ref':
            loc = self.place(st, fid, r['p'])
            # re-borrow of an opaque pointer's pointee is the pointer itself
            if not loc[1] and loc[0][0] == 'D':
                return loc[0][1]
            return mk('ref', loc)
        if k == 'cast':
            v = self.operand(st, fid, r['o'])
            ck = r['ck']
            if ck.startswith(('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat')):
                if v.k == 'i':
                    return v
                if v.k == 'ch':
                    return I(v.a[0])
                if v.k == 'b':
                    return I(1 if v is TRUE else 0)
                return mk('cast', ck.split('(')[0], r['t'], v)
            return v
        if k == 'bin':
            a = self.known(st, self.operand(st, fid, r['a']))
            b = self.known(st, self.operand(st, fid, r['b']))
            op = r['op']
            h = self.c.on_binop(self, st, op[:-12] if op.endswith('WithOverflow') else op, a, b)
            if h is not None:
                return tup(h, FALSE) if op.endswith('WithOverflow') else h
            if op.endswith('WithOverflow'):
                return tup(simp_op(op[:-12], a, b), FALSE)
            if a.k == 'ch' and b.k == 'ch' and op in _cmp:
                return B(_cmp[op](a.a[0], b.a[0]))
            cty = (r['a'].get('c') or r['b'].get('c') or {}).get('ty', '')
            if op in _cmp and cty in ('usize', 'u64', 'u32', 'u16', 'u8') and (a.k == 'i') != (b.k == 'i'):
                op, a, b = unsigned_cmp(op, a, b)
            return self.known(st, simp_op(op, a, b))
        if k == 'un':
            a = self.operand(st, fid, r['a'])
            if r['op'] == 'PtrMetadata':
                return self.length(st, self.content(st, a))
            if r['op'] == 'Not':
                return self.known(st, simp_op('Not', self.known(st, a)))
            if r['op'] == 'Neg' and a.k == 'i':
                return I(-a.a[0])
            return mk('op', r['op'], a)
        if k == 'discr':
            loc = self.place(st, fid, r['p'])
            return self.discr(st, self.read(st, loc), r.get('adt'))
        if k == 'agg':
            ops = [self.operand(st, fid, o) for o in r['ops']]
            a = r['a']
            if a['t'] == 'tuple':
                return mk('adt', 'tuple', 0, *ops)
            if a['t'] == 'array':
                return mk('adt', 'array', 0, *ops)
            if a['t'] == 'adt':
                return mk('adt', a['adt'], a['v'], *ops)
            if a['t'] == 'closure':
                return mk('adt', 'closure:' + a['def'], 0, *ops)
            return mk('call', 'agg', *ops)
        if k == 'repeat':
            return mk('call', 'repeat', self.operand(st, fid, r['o']), S(r['n']))
        return self.fresh(st, site, 'rv')

    def discr(self, st, v, adt):
        while v.k == 'obj':
            v = v.a[0]
        if v.k == 'adt':
            A = self.p.adts.get(v.a[0])
            if A and v.a[1] < len(A['variants']):
                return I(A['variants'][v.a[1]]['d'])
            return I(v.a[1])
        return self.known(st, mk('discr', v, adt))

    def length(self, st, v):
        if v.k == 'empty':
            return I(0)
        if v.k == 'vpush':
            return simp_op('Add', self.length(st, v.a[0]), I(1))
        if v.k == 'adt' and v.a[0] == 'array':
            return I(len(v.a) - 2)
        if v.k == 's':
            return I(len(v.a[0].encode()))
        if v.k == 'by':
            return I(len(v.a[0]))
        if v.k == 'call' and v.a[0] == 'repeat' and v.a[2].k == 's':
            m = re.match(r'(\d+)', v.a[2].a[0])
            if m:
                return I(int(m.group(1)))
        if v.k == 'slice':
            return simp_op('Sub', v.a[2], v.a[1])
        if v.k == 'coll' and len(v.a) > 2:
            pass
        return self.known(st, mk('call', 'len', v))

    # ---- calls
    def mkcall(self, key, fid, b, st, t):
        c = Call()
        fn = callee_of(t)
        c.args = [self.operand(st, fid, o) for o in t['a']]
        c.aty = t['at']
        c.site = (fid, b)
        c.fnkey = key
        c.block = b
        c.span = t['sp']
        c.exp = t.get('exp')
        c.fid = fid
        c.env = None
        f = self.p.fns[key]
        c.dty = f['locals'][t['d']['l']][0] if not t['d']['p'] else ''
        if fn is None:
            fv = self.operand(st, fid, t['f'])
            c.fn = None
            c.name = c.decl = '<fnptr>'
            c.env = fv
        else:
            c.fn = fn
            c.name = norm(fn.get('path') or fn['decl'])
            c.decl = norm(fn['decl'])
        return c

    def do_call(self, key, fid, b, st, t):
        c = self.mkcall(key, fid, b, st, t)
        self.calls_seen += 1
        res = self.call(st, c)
        out = []
        if t['to'] is None:
            for s, v in res:
                self.c.on_panic(self, s, c)
            return out
        for s, v in res:
            self.c.on_ret(self, s, c, v)
            loc = self.place(s, fid, t['d'])
            if t['d']['p']:
                self.prev = self.read(s, loc)
            self.write(s, loc, v)
            if t['d']['p']:
                self.c.on_write(self, s, loc, v, key, b)
            out.append((t['to'], s))
        return out

    def call(self, st, c):
        """All (state, value) outcomes of a call."""
        r = self.c.on_call(self, st, c)
        if r is not None:
            return r
        if c.fn is None:
            return self.call_value(st, c.env, c.args, c.site, c)
        r = self.model(st, c)
        if r is not None:
            return r
        fn = c.fn
        body = fn.get('body')
        if fn['kind'] == 'ctor':
            return [(st, mk('adt', fn['adt'], fn['v'], *c.args))]
        if body is None:
            body = self.resolve_dynamic(st, c)
        if body is not None and body in self.p.fns and self.inlinable(body):
            return self.exec_fn(body, c.args, st, self.fid(c.fid, (c.block, 'call')))
        return self.opaque(st, c)

    def inlinable(self, body):
        if self.c.opaque(body):
            return False
        if body in self.stack or body in self.cut:
            return False
        if len(self.stack) > self.maxdepth:
            return False
        if self.relevant is not None and body not in self.relevant:
            f = self.p.fns[body]
            if f['ext']:
                return True
            if f.get('small') is None:
                nb = sum(1 for b in f['blocks'] if not b['c'])
                f['small'] = (nb, bool(self.cfg_of(body)['heads']))
            if f['small'][1] or f['small'][0] > self.small:
                return False
        return True

    def resolve_dynamic(self, st, c):
        """Unresolved/virtual trait calls: dispatch on the receiver's abstract value."""
        if not c.args:
            return None
        v = self.content(st, c.args[0])
        if v.k == 'adt':
            m = c.decl.rsplit('::', 1)
            if len(m) == 2:
                k = self.p.trait_impls.get((m[0], m[1], v.a[0]))
                if k:
                    return k
        return None

    def call_value(self, st, fv, args, site, c=None):
        """Call a closure / fn item value."""
        v = self.content(st, fv)
        if v.k == 'adt' and v.a[0].startswith('closure:'):
            key = v.a[0][8:]
            if key in self.p.fns and self.inlinable(key):
                f = self.p.fns[key]
                envty = f['locals'][1][0]
                if envty.startswith('&'):
                    if fv.k == 'ref':
                        # innermost reference to the closure value
                        e = fv
                        while True:
                            x = self.read(st, e.a[0])
                            if x.k == 'ref':
                                e = x
                            else:
                                break
                        env = e
                    else:
                        r = ('C', site, key)
                        st = st.copy()
                        st.store[r] = v
                        env = mk('ref', (r, ()))
                else:
                    env = v
                return self.exec_fn(key, [env] + list(args), st, self.fid(site, ('clo', key)))
            return self.opaque_vals(st, args, site, 'closure:' + key)
        if v.k == 'fn':
            fn = self.fnops.get(v.a)
            if fn is not None:
                c2 = Call()
                c2.fn = fn
                c2.name = norm(fn.get('path') or fn['decl'])
                c2.decl = norm(fn['decl'])
                c2.args = list(args)
                c2.aty = ['' for _ in args]
                c2.site = (self.fid(site, 'fv'), 0)
                c2.fid = self.fid(site, 'fv')
                c2.block = 0
                c2.fnkey = c.fnkey if c else '?'
                c2.span = c.span if c else ''
                c2.dty = ''
                c2.exp = False
                c2.env = None
                out = []
                for s, r in self.call(st, c2):
                    self.c.on_ret(self, s, c2, r)
                    out.append((s, r))
                return out
        return self.opaque_vals(st, args, site, 'fnptr')

    def opaque_vals(self, st, args, site, tag):
        st = st.copy()
        for a in args:
            if a.k == 'ref':
                self.havoc(st, a.a[0], site + (tag,))
        return [(st, self.fresh(st, site + (tag,), tag))]

    def is_pure(self, c):
        n = c.name
        d = c.decl
        b = c.fn.get('body') if c.fn else None
        if b in self.p.fns and not self.p.fns[b]['ext']:
            return self.p.pure_fn(b)
        if any(n.startswith(x) or d.startswith(x) for x in IMPURE_PREFIX):
            return False
        if any('&mut' in t for t in c.aty):
            return False
        return any(n.startswith(x) for x in PURE_PREFIX) or any(d.startswith(x) for x in PURE_PREFIX)

    def opaque(self, st, c):
        st = st.copy()
        self.unmodelled[c.name] = self.unmodelled.get(c.name, 0) + 1
        # closures handed to unknown code may run any number of times
        states = [st]
        clos = []
        for a in c.args:
            self.find_closures(st, a, clos, 0)
        for cl in clos:
            states = self.may_run(states, cl, c.site)
        out = []
        for s in states:
            if self.is_pure(c) and not clos:
                v = mk('call', c.name, *[self.snap(s, a) for a in c.args])
                v = self.known(s, v)
            else:
                for i, a in enumerate(c.args):
                    ty = c.aty[i] if i < len(c.aty) else ''
                    if '&mut' in ty or ty == '' or 'impl ' in ty:
                        self.havoc_reach(s, a, c.site + (i,), ty.startswith('&mut') or ty == '')
                v = self.fresh(s, c.site, c.name)
            out.append((s, v))
        return out

    def havoc_reach(self, st, a, site, direct, d=0):
        if d > 4:
            return
        if a.k == 'ref':
            if direct:
                self.havoc(st, a.a[0], site)
        elif a.k == 'adt' and not a.a[0].startswith('closure:'):
            for i, x in enumerate(a.a[2:]):
                if isinstance(x, T):
                    self.havoc_reach(st, x, site + (i,), True, d + 1)

    def find_closures(self, st, a, out, d):
        if d > 3:
            return
        v = self.content(st, a)
        if v.k == 'adt':
            if v.a[0].startswith('closure:'):
                out.append(a)
            else:
                for x in v.a[2:]:
                    self.find_closures(st, x, out, d + 1)
        elif v.k == 'fn':
            fn = self.fnops.get(v.a)
            if fn and fn.get('body') in self.p.fns and not self.p.fns[fn['body']]['ext']:
                out.append(a)

    def closure_argc(self, st, cl):
        v = self.content(st, cl)
        if v.k == 'adt':
            f = self.p.fns.get(v.a[0][8:])
            return f['argc'] - 1 if f else 0
        fn = self.fnops.get(v.a)
        f = self.p.fns.get(fn.get('body')) if fn else None
        return f['argc'] if f else 0

    def may_run(self, states, cl, site):
        """States after running the closure zero or more times with unknown arguments."""
        def body(st):
            n = self.closure_argc(st, cl)
            s = st.copy()
            args = [self.fresh(s, site + ('carg', i), 'carg%d' % i) for i in range(n)]
            return [(s2, None) for s2, _ in self.call_value(s, cl, args, site + ('may',))], []
        out = []
        for st in states:
            out.extend(self.abs_loop(st, site + ('may',), body)[0])
        return out

    def abs_loop(self, st, point, body):
        """Fixpoint of `body` from st. body(state) -> ([(state, _)] that go round again, [exits]).
        Returns (all states seen at the head, all exits)."""
        point = ('loop', point)
        heads = {}
        order = []
        exits = []
        ekeys = set()
        work = [st]
        rounds = 0
        while work:
            s = work.pop()
            self.gc(s)
            k = (s.auto, self.skeleton(s))
            if k not in heads and len(heads) >= self.maxstates:
                cand = [q for q in heads if q[0] == s.auto]
                if cand:
                    k = cand[0]
            o = heads.get(k)
            if o is None:
                heads[k] = s
                cur = s
            else:
                j = self.widen(point, o, s)
                self.gc(j)
                if j.key() == o.key():
                    continue
                heads[k] = j
                cur = j
            rounds += 1
            self.tick(5)
            again, ex = body(cur.copy())
            for e in ex:
                kk = (e[0].key(), e[1])
                if kk not in ekeys:
                    ekeys.add(kk)
                    exits.append(e)
            for s2, _ in again:
                work.append(s2)
        return [h.copy() for h in heads.values()], exits

import engine_ref
engine_ref.E = sys.modules[__name__]
import models
Engine.model = models.model
Engine.tmpref = models.tmpref
Engine.minmax = models.minmax
Engine.content1 = models.content1
Engine.deep = models.deep
Engine.hold = models.hold
Engine.split_bool = models.split_bool
Engine.split_variant = models.split_variant

# ---------------------------------------------------------------- helpers
def has_ref(t, d=0):
    if t.k == 'ref':
        return True
    if d > 8:
        return False
    return any(isinstance(x, T) and has_ref(x, d + 1) for x in t.a)

_refs = {}
def refs_in(t):
    r = _refs.get(t)
    if r is None:
        s = set()
        if t.k == 'ref':
            s.add(t.a[0][0])
        elif t.k == 'obj':
            s |= refs_in(t.a[0])
            for _, v in t.a[1]:
                s |= refs_in(v)
        else:
            for x in t.a:
                if isinstance(x, T):
                    s |= refs_in(x)
        r = frozenset(s)
        _refs[t] = r
    return r

def collect_terms(a, out):
    if isinstance(a, T):
        out.append(a)
    elif isinstance(a, (tuple, frozenset, list)):
        for x in a:
            collect_terms(x, out)

def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    if t.k == 'ref':
        r = t.a[0][0]
        if r[0] == 'D':
            subterms(r[1], seen)
    elif t.k == 'obj':
        subterms(t.a[0], seen)
        for _, v in t.a[1]:
            subterms(v, seen)
    else:
        for x in t.a:
            if isinstance(x, T):
                subterms(x, seen)
    return seen
