"""No path, url, listing, answer or log line makes the program panic."""
import re
from common import *
from mir import callee_of, cname, cdecl
import models

UNWRAP = rx(r'std::(option::Option|result::Result)::(unwrap|expect|unwrap_err|expect_err|unwrap_unchecked)$')
# errors that depend on data of the outside
ERRORS = rx(r'(^|::)Utf8Error$', r'(^|::)FromUtf8Error$', r'(^|::)OsString$', r'(^|::)ParseError$', r'(^|::)Parse(Int|Float|Bool|Char)Error$', r'(^|::)TryFromIntError$',
            r'(^|::)StripPrefixError$', r'^(std|core|alloc)?:{0,2}.*io::(error::)?Error$', r'walkdir(::\w+)*::Error$', r'reqwest(::\w+)*::Error$', r'serde_json(::\w+)*::Error$',
            r'bincode(::\w+)*::(Error|ErrorKind)$', r'Box<bincode.*ErrorKind>$', r'anyhow(::\w+)*::Error$', r'regex(::\w+)*::Error$', r'glob(::\w+)*::\w*Error$', r'(^|::)NulError$', r'(^|::)ToStrError$')
# pieces of a text, a path or a url: whether there is one depends on the data
PIECES = rx(r"^&(mut )?('\w+ )?(str|std::ffi::OsStr|std::path::Path|std::path::Component.*|\[u8\])$", r'^(char|u8|usize|u32|u64|i32|i64|f32|f64)$', r'^\(usize, char\)$', r"^\(&('\w+ )?str, &('\w+ )?str\)$", r'^regex::(\w+::)*(Match|Captures)', r'^std::borrow::Cow<', r"^std::str::(Split|Chars)", r'^(url|reqwest)::(\w+::)*(Host|Url)', r'^std::string::String$', r'^std::path::PathBuf$', r'^std::path::Component', r"^chrono::", r'^&?(serde_json::)(\w+::)*(Value|Map.*)$')
INDEX = rx(r'(^|::)(Vec|VecDeque|SmallVec)::index(_mut)?$', r'^\[T\]::index(_mut)?$')
CUT = rx(r'^str::(index|index_mut|split_at|split_at_mut)$', r'string::String::(index|index_mut|truncate|split_off|remove|insert|insert_str|drain|replace_range)$', r'^String::(index|index_mut|truncate|split_off|remove|insert|insert_str|drain|replace_range)$')
VIEW = ('as_str', 'as_ref', 'deref', 'borrow', 'to_string', 'to_owned', 'clone', 'into_string', 'into', 'from', 'as_bytes', 'to_string_lossy', 'into_owned', 'as_mut_str', 'deref_mut')
LOW = ('logreduce_iterator', 'logreduce_cache')

def leaf(n):
    return n.rsplit('::', 1)[-1]

def errty(c):
    """Type of the error of the Result that is unwrapped, None for an Option."""
    ts = c.fn.get('targs') or ()
    return ts[1] if 'Result' in c.name and len(ts) > 1 else None

def text(t):
    """The text behind views and copies of it."""
    while True:
        if t.k == 'call' and leaf(t.a[0]) in VIEW and len(t.a) == 2:
            t = t.a[1]
        elif t.k in ('deref', 'snap'):
            t = t.a[0]
        elif t.k == 'fld' and t.a[1:] in ((0, 0),) and t.a[0].k == 'call' and leaf(t.a[0].a[0]) in ('from_utf8',):
            t = t.a[0].a[1]
        else:
            return t

def litlen(t):
    """(bytes, ascii) of a constant pattern."""
    if t.k == 's':
        return len(t.a[0].encode()), t.a[0].isascii()
    if t.k == 'ch':
        return (1, True) if t.a[0] < 128 else (None, False)
    return None, False

# ---- linear forms
def lin(t, sign=1, out=None):
    if out is None:
        out = {None: 0}
    if t.k == 'i':
        out[None] += sign * t.a[0]
    elif t.k == 'op' and t.a[0] == 'Add':
        lin(t.a[1], sign, out); lin(t.a[2], sign, out)
    elif t.k == 'op' and t.a[0] == 'Sub':
        lin(t.a[1], sign, out); lin(t.a[2], -sign, out)
    elif t.k == 'op' and t.a[0] == 'cast':
        lin(t.a[-1], sign, out)
    elif t.k == 'call' and leaf(t.a[0]) == 'cast':
        lin(t.a[-1], sign, out)
    else:
        s = t.a[1] if t.k == 'call' and leaf(t.a[0]) == 'len' and len(t.a) == 2 else None
        if s is not None and s.k == 's':
            out[None] += sign * len(s.a[0].encode())
            return out
        key = ('len', text(s)) if s is not None else t
        out[key] = out.get(key, 0) + sign
    return out

def nonneg(d):
    return all(v >= 0 for v in d.values())

def minus(a, b):
    return {k: a.get(k, 0) - b.get(k, 0) for k in {*a, *b}}

def orders(st):
    """Linear forms known to be >= 0."""
    out = []
    for t, v in st.facts.items():
        if v.k == 'b' and t.k == 'op' and t.a[0] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq'):
            op, x, y = t.a
            yes = v is E.TRUE
            if op in ('Gt', 'Ge'):
                x, y, op = y, x, {'Gt': 'Lt', 'Ge': 'Le'}[op]
            if op == 'Eq':
                if yes:
                    d = minus(lin(x), lin(y))
                    out += [d, {k: -n for k, n in d.items()}]
                else:
                    # x != 0 of a length
                    for a, b in ((x, y), (y, x)):
                        if b.k == 'i' and b.a[0] == 0:
                            d = lin(a)
                            d[None] -= 1
                            out.append(d)
                continue
            if not yes:         # not x < y: y <= x
                x, y, op = y, x, {'Lt': 'Le', 'Le': 'Lt'}[op]
            d = minus(lin(y), lin(x))
            if op == 'Lt':
                d[None] -= 1
            out.append(d)
        elif v.k == 'b' and t.k == 'call' and leaf(t.a[0]) in ('starts_with', 'ends_with') and len(t.a) == 3:
            n, _ = litlen(t.a[2])
            s = ('len', text(t.a[1]))
            if v is E.TRUE:
                out.append({s: 1, None: -n} if n is not None else {s: 1, None: 0, ('len', text(t.a[2])): -1} if t.a[2].k not in ('ch',) else {s: 1, None: -1})
        elif v.k == 'i' and t.k in ('call', 'op', 'fld', 'fresh', 'init'):
            d = lin(t)
            d[None] -= v.a[0]
            out += [d, {k: -n for k, n in d.items()}]
        elif v.k == 'notin' and any(x.k == 'i' and x.a[0] == 0 for x in v.a) and t.k in ('call', 'op', 'fld', 'fresh', 'init'):
            d = lin(t)
            d[None] -= 1
            out.append(d)
        elif v.k == 'b' and t.k == 'call' and leaf(t.a[0]) == 'is_empty' and len(t.a) == 2 and v is E.FALSE:
            out.append({('len', text(t.a[1])): 1, None: -1})
        elif t.k == 'discr' and v.k == 'i' and v.a[0] == 1 and t.a[0].k == 'call' and leaf(t.a[0].a[0]) in ('strip_prefix', 'strip_suffix') and len(t.a[0].a) == 3:
            n, _ = litlen(t.a[0].a[2])
            s = ('len', text(t.a[0].a[1]))
            out.append({s: 1, None: -(n or 0)} if n is not None else {s: 1, None: 0, ('len', text(t.a[0].a[2])): -1})
        elif t.k == 'discr' and v.k == 'i' and v.a[0] == 1 and t.a[0].k == 'call' and leaf(t.a[0].a[0]) in ('find', 'rfind') and len(t.a[0].a) == 3:
            n, _ = litlen(t.a[0].a[2])
            s = ('len', text(t.a[0].a[1]))
            f = mk('fld', t.a[0], 1, 0)
            out.append({s: 1, f: -1, None: -(n or 0)})
    return out

def atleast(st, a, b, k=0):
    """a - b >= k follows from the facts (every atom is unsigned)."""
    d = minus(lin(a), lin(b))
    d[None] = d.get(None, 0) - k
    if nonneg(d):
        return True
    fs = orders(st)
    for f in fs:
        if nonneg(minus(d, f)):
            return True
    for f in fs:
        m = minus(d, f)
        for g in fs:
            if nonneg(minus(m, g)):
                return True
    return False

def scalars(t):
    """t is made of constants and by-value parameters of the function at the root only."""
    if t.k == 'i':
        return True
    if t.k == 'init':
        return True
    if t.k == 'op':
        return all(scalars(x) for x in t.a[1:] if hasattr(x, 'k'))
    if t.k == 'call' and leaf(t.a[0]) in ('len', 'cast'):
        return text(t.a[1]).k in ('init', 's')
    return False


def mandatory(pattern, n):
    """Group n of the pattern takes part in every match; None when the pattern is not understood."""
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                import re._parser as sp
            except ImportError:
                import sre_parse as sp
            tree = sp.parse(pattern)
    except Exception:
        return None
    def go(sub):
        for op, av in sub:
            o = str(op)
            if o == 'SUBPATTERN':
                if av[0] == n or go(av[-1]):
                    return True
            elif o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                if av[0] >= 1 and go(av[2]):
                    return True
            elif o == 'BRANCH':
                if all(go(x) for x in av[1]):
                    return True
            elif o == 'ATOMIC_GROUP':
                if go(av):
                    return True
        return False
    return n == 0 or go(tree)

class Panics(Client):
    def __init__(self, ctx, prog):
        self.ctx, self.p = ctx, prog
        self.bad = {}
        self.sites = set()
        self.regexes = set()
        self.ascii = set()
    def say(self, c, kind, msg, soft=False):
        self.bad[(c.fnkey, kind)] = (msg, soft)

    def on_call(self, e, st, c):
        n = c.name
        if n == 'std::str::from_utf8' or n == 'core::str::from_utf8':
            a = e.snap(st, c.args[0])
            if self.mine(c) and not raw(a):
                self.ctx.cov['kept'] = 1
                return [(st, ok(mk('call', 'text', a)))]
        if FIRST(n) and c.args:
            # the first part of a split text is always there
            a = e.snap(st, c.args[0])
            if a.k == 'call' and leaf(a.a[0]) in ('split', 'rsplit', 'splitn', 'rsplitn') and a not in (st.auto or ()):
                if n.endswith('::last'):
                    return [(st, some(mk('call', 'part', a)))]
                st = st.copy() if hasattr(st, 'copy') else st
                st.auto = frozenset(st.auto or ()) | {a}
                return [(st, some(mk('call', 'part', a)))]
        if n.endswith('Regex::new') and c.args:
            a = e.content(st, c.args[0])
            if a is not None and a.k == 's':
                self.regexes.add(a.a[0])
        if URLTEXT(n) and c.args:
            # the text of a url is ascii
            u = e.snap(st, c.args[0])
            m = leaf(n)
            self.ascii.add(text(u) if m in VIEW else mk('call', m, u))
        if UNWRAP(n) and self.mine(c):
            v = e.snap(st, c.args[0])
            self.unwrap(e, st, c, v)
            if v.k == 'adt' or n.endswith('_err'):
                return None
            return [(st, E.getproj(v, ('f', 0 if 'Result' in n else 1, 0)))]
        if CUT(n) and self.mine(c):
            self.cut(e, st, c)
        if INDEX(n) and self.mine(c) and indexes(c.fn):
            self.element(e, st, c)
        if KEEP(n) and self.mine(c) and len(c.args) > 1 and any(BYTES(t) for t in c.fn.get('targs') or ()):
            self.keep(e, st, c)
        return None
    def mine(self, c):
        f = self.p.fns[c.fnkey]
        return not f['ext'] and not f.get('derived')

    # -- rule 1
    def unwrap(self, e, st, c, v):
        res = 'Result' in c.name
        ts = c.fn.get('targs') or ()
        if res:
            if len(ts) < 2 or not ERRORS(ts[1]):
                return
        elif not ts or not PIECES(ts[0]):
            return
        self.sites.add((c.fnkey, c.block))
        bad = (0 if c.name.endswith('_err') else 1) if res else 0
        if v.k == 'adt':
            if v.a[1] != bad:
                return
        else:
            d = e.known(st, e.discr(st, v, 'core::result::Result' if res else 'core::option::Option')) if False else st.facts.get(mk('discr', v, 'core::result::Result' if res else 'core::option::Option'))
            if d is not None and d.k == 'i':
                if d.a[0] != bad:
                    return
            elif self.excused(e, st, c, v, ts):
                return
            elif v.k == 'init':
                self.say(c, 'unwrap', self.wording(c, ts), True)
                return
        self.say(c, 'unwrap', self.wording(c, ts))
    def wording(self, c, ts):
        if 'Result' in c.name:
            return 'a failure (%s) is unwrapped: the program panics' % leaf(ts[1]).rstrip('>')
        return 'a piece (%s) that may not be there is unwrapped: the program panics' % ts[0]
    def excused(self, e, st, c, v, ts):
        if static(c.fnkey):
            return True
        s = str(v)
        if v.k == 'call':
            n = leaf(v.a[0])
            if n in ('new', 'parse') and len(v.a) >= 2 and all(x.k in E.CONSTS for x in v.a[1:]):
                return True                     # of a constant
            if n == 'get' and len(v.a) == 3 and v.a[2].k == 'i' and 'Match' in ts[0]:
                g = v.a[2].a[0]
                # the group takes part in every match of the expressions of this path
                return g == 0 or bool(self.regexes) and all(mandatory(r, g) is not False for r in self.regexes)
        if 'Builder::build' in s or re.search(r'(^|::)(serialize|to_string|to_vec|to_string_pretty)@', s):
            return True
        return False

    # -- rule 2
    def cut(self, e, st, c):
        if len(c.args) < 2:
            return
        S = text(e.snap(st, c.args[0]))
        r = e.snap(st, c.args[1])
        self.sites.add((c.fnkey, c.block))
        one = E.I(1)
        if r.k == 'adt':
            n = leaf(r.a[0])
            if n == 'RangeFull':
                return
            if n == 'RangeFrom':
                ps = [(r.a[2], None)]
            elif n == 'RangeTo':
                ps = [(None, r.a[2])]
            elif n == 'Range':
                ps = [(r.a[2], r.a[3])]
            elif n == 'RangeToInclusive':
                ps = [(None, mk('op', 'Add', r.a[2], one))]
            elif n == 'RangeInclusive':
                ps = [(r.a[2], mk('op', 'Add', r.a[3], one))]
            else:
                ps = [(r, None)]
        elif r.k == 'call' and leaf(r.a[0]) == 'new' and len(r.a) == 3:
            ps = [(r.a[1], mk('op', 'Add', r.a[2], one))]
        else:
            ps = [(r, None)]
        for lo, hi in ps:
            for p in (lo, hi):
                if p is None or self.place(e, st, S, p):
                    continue
                if (S.k == 'init' or S in self.ascii and text(S).k == 'init') and scalars(p):
                    self.say(c, 'cut', CUTS % ('position', p), True)
                else:
                    self.say(c, 'cut', CUTS % ('position', p))
                return
            if lo is not None and hi is not None and not atleast(st, hi, lo):
                d = lin(hi)
                if d == {None: 0, ('len', S): 1}:
                    continue
                soft = scalars(lo) and scalars(hi)
                self.say(c, 'cut', 'a text is cut from a position which may be behind its end: the program panics', soft)
    def element(self, e, st, c):
        """An element at a fixed place of a list of pieces."""
        i = e.snap(st, c.args[1])
        self.sites.add((c.fnkey, c.block))
        if i.k != 'i':
            return
        n = e.length(st, e.content(st, c.args[0]) or e.snap(st, c.args[0]))
        if not atleast(st, n, i, 1):
            self.say(c, 'index', 'the piece number %s of a list of pieces of a text is taken, the list may be shorter: the program panics' % i)
    def place(self, e, st, S, p):
        """p is a position between two characters of S."""
        d = {k: n for k, n in lin(p).items() if n}
        if not d or d == {('len', S): 1}:
            return True
        if S in self.ascii:
            return atleast(st, mk('call', 'len', S), p)
        off = d.get(None, 0)
        rest = {k: n for k, n in d.items() if k is not None}
        if len(rest) == 1 and list(rest.values()) == [1]:
            a = next(iter(rest))
            if isinstance(a, E.T):
                x = a
                if x.k == 'fld' and x.a[1:] == (1, 0) and x.a[0].k == 'call' and leaf(x.a[0].a[0]) in ('find', 'rfind') and len(x.a[0].a) == 3 and text(x.a[0].a[1]) is S:
                    n, _ = litlen(x.a[0].a[2])
                    if off in (0, n):
                        return True
                if off == 0 and any(y.k == 'call' and leaf(y.a[0]) in ('start', 'end', 'char_indices', 'match_indices', 'rmatch_indices', 'find_iter', 'floor_char_boundary', 'ceil_char_boundary', 'len_utf8', 'valid_up_to') for y in terms(x)):
                    return True
                if off == 0 and any(y.k in ('el', 'at') or y.k == 'fresh' and 'char_indices' in str(y) for y in terms(x)):
                    return True
        # find in the rest of the text
        if len(rest) == 2 and set(rest.values()) == {1}:
            for a in rest:
                if isinstance(a, E.T) and a.k == 'fld' and a.a[0].k == 'call' and leaf(a.a[0].a[0]) in ('find', 'rfind') and len(a.a[0].a) == 3:
                    return True
        for t, v in st.facts.items():
            if v is E.TRUE and t.k == 'call' and len(t.a) == 3 and text(t.a[1]) is S:
                m = leaf(t.a[0])
                if m == 'is_char_boundary' and lin(t.a[2]) == lin(p):
                    return True
                if m in ('starts_with', 'ends_with') and self.edge(S, d, t.a[2], m == 'starts_with'):
                    return True
            elif t.k == 'discr' and v.k == 'i' and v.a[0] == 1 and t.a[0].k == 'call' and len(t.a[0].a) == 3 and text(t.a[0].a[1]) is S:
                m = leaf(t.a[0].a[0])
                if m in ('strip_prefix', 'strip_suffix') and self.edge(S, d, t.a[0].a[2], m == 'strip_prefix'):
                    return True
                if m == 'get' and t.a[0].a[2].k == 'adt' and any(lin(x) == lin(p) for x in t.a[0].a[2].a[2:]):
                    return True
        return False
    def edge(self, S, d, pat, front):
        n, ascii_ = litlen(pat)
        off = d.get(None, 0)
        rest = {k: x for k, x in d.items() if k is not None}
        if front:
            if not rest:
                return n is not None and (off == n or ascii_ and off <= n)
            return off == 0 and rest == {('len', text(pat)): 1}
        if rest == {('len', S): 1}:
            return n is not None and (-off == n or ascii_ and 0 <= -off <= n)
        return off == 0 and rest == {('len', S): 1, ('len', text(pat)): -1}

    # -- rule 3
    def on_assert(self, e, st, t, ops, fnkey, block):
        f = self.p.fns[fnkey]
        if f['ext'] or f.get('derived') or 'Sub' not in t['k'] or len(ops) != 2 or self.p.display(fnkey).split('::')[0] in LOW:
            return
        if not unsigned(f, t):
            return
        a, b = e.snap(st, ops[0]), e.snap(st, ops[1])
        self.sites.add((fnkey, block))
        if b.k == 'i' and b.a[0] == 1 and any(x.k in ('phi', 'old') for x in terms(a)):
            self.ctx.cov['counters'] = 1
            return
        if atleast(st, a, b):
            return
        self.bad[(fnkey, 'sub')] = ('%s is subtracted from %s, which may be smaller: the program panics or counts on from a huge number' % (b, a), scalars(a) and scalars(b))

    # -- kept lines
    def keep(self, e, st, c):
        v = e.snap(st, c.args[1])
        self.sites.add((c.fnkey, c.block))
        for t, x in st.facts.items():
            if t.k == 'discr' and x.k == 'i' and x.a[0] == 0 and t.a[0].k == 'call' and leaf(t.a[0].a[0]) == 'from_utf8' and within(t.a[0].a[1], v):
                return
        if not any(raw(x) for x in [v]):
            return
        self.say(c, 'keep', 'a line is kept which is not known to be text: it is unwrapped as text later')

def raw(t):
    """Bytes that come from the reader just now."""
    return any(x.k == 'fresh' and 'next' in str(x) or x.k == 'call' and leaf(x.a[0]) == 'next' for x in terms(t))

def terms(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        out.append(x)
        if x.k in E.CONSTS:
            continue
        todo += [y for y in x.a if isinstance(y, E.T)]
    return out

FIRST = rx(r'^(std|core)::str::(\w+::)*(Split|RSplit|SplitN|RSplitN)::(next|next_back|last)$')

def within(arg, v):
    """The bytes arg are part of v."""
    parts = terms(v)
    x = arg
    while True:
        if x in parts:
            return True
        if x.k in ('fld', 'deref') or x.k == 'call' and leaf(x.a[0]) in VIEW:
            x = x.a[1] if x.k == 'call' else x.a[0]
        else:
            return False

def indexes(fn):
    ts = fn.get('targs') or ()
    m = re.match(r'(?:.*::(?:Vec|VecDeque|SmallVec)<(.*)>|\[(.*)\]|(.*))$', ts[0]) if ts else None
    t = m and next(x for x in m.groups() if x is not None)
    return len(ts) > 1 and ts[1] == 'usize' and t.startswith(('&', 'std::string::String', 'std::path')) and PIECES(t)

def static(k):
    return 'static_ref_initialize' in k

def unsigned(f, t):
    c = t['c']
    pl = c.get('mv') or c.get('cp') or {}
    ty = str(f['locals'][pl['l']]) if 'l' in pl else ''
    return re.search(r'\bu(8|16|32|64|128|size)\b', ty) is not None

URLTEXT = rx(r'(^|::)Url::(as_str|path|to_string|query|fragment|scheme|host_str|as_ref|into_string)$')
CUTS = 'a text is cut at a %s (%s) which is not known to be in it and between two of its characters: the program panics'
BYTES = rx(r'(^|\W)bytes::(\w+::)*Bytes(\W|$)')
KEEP = rx(r'(^|::)(Vec|VecDeque|LinkedList)::(push|push_back|push_front|insert|append)$')

def run(ctx):
    ctx.rule('Rule (every function of the workspace with a site that can panic, callers included when it depends on parameters): at an unwrap or expect of a Result whose error is a failure of a conversion, a parser, a request, an operation on files or a deserialisation, and of an Option of a piece of text, a path, a number or a url, the failing variant is excluded by the facts of the path (constants, initialisers of statics, mandatory groups of constant expressions excepted); every cut of a text is at a position found in that text, at the edge of a prefix or suffix it was tested for, or tested to be a boundary; every unsigned subtraction follows from the comparisons made on the path (loop counters excepted); every line kept in a collection was found to be text.')
    prog = ctx.prog()
    sim = Sim(ctx, prog)
    parent = lambda k: k.split('::{closure')[0]
    cand, sites = set(), 0
    for k in prog.ws_fns():
        f = prog.fns[k]
        if f.get('derived') or f['kind'] == 'promoted' or static(k) or prog.display(k).split('::')[0] in OUT:
            continue
        for b in f['blocks']:
            if b['c']:
                continue
            t = b['t']
            if t['t'] == 'call':
                fn = callee_of(t)
                if fn is None:
                    continue
                n = cname(fn)
                ts = fn.get('targs') or ()
                if UNWRAP(n) and (('Result' in n and len(ts) > 1 and ERRORS(ts[1])) or ('Option' in n and ts and PIECES(ts[0]))) or CUT(n) or KEEP(n) and any(BYTES(x) for x in ts) or INDEX(n) and indexes(fn):
                    cand.add(k)
                    sites += 1
            elif t['t'] == 'assert' and 'Sub' in t['k'] and unsigned(f, t) and prog.display(k).split('::')[0] not in LOW:
                cand.add(k)
                sites += 1
    ctx.count('sites_that_can_panic', sites)
    ctx.need(prog.fns, 'functions of the workspace')
    done = {}
    def decide(key, of):
        # the sites of function `of`, looked at from `key`
        if (key, of) not in done:
            seen_, bad, sites_ = set(), {}, set()
            for logging in (False, True):
                cl = Panics(ctx, prog)
                cl.tracing = logging
                e, _ = sim.run(key, cl, interest=lambda n: False, also=frozenset(k for k in cand if parent(k) == parent(of)), timeout=30)
                seen_ |= set(e.fn_visited)
                sites_ |= cl.sites
                for x, (msg, soft_) in cl.bad.items():
                    bad[x] = (msg, soft_ and bad.get(x, (0, True))[1])
            if of not in seen_ and parent(of) != of:
                # the closure runs somewhere else
                bad[of, 'later'] = ('', True)
            cl.bad, cl.sites = bad, sites_
            ctx.count('roots_analysed')
            done[key, of] = cl
        return [(f, kind, msg, soft) for (f, kind), (msg, soft) in sorted(done[key, of].bad.items())]
    soft, seen, first = [], set(), {}
    def report(f, kind, msg, path=()):
        if (f, kind) in seen:
            return
        seen.add((f, kind))
        via = ', reached from %s' % prog.display(path[-1]) if len(path) > 1 else ''
        ctx.viol('%s:%s' % (kind, prog.display(f)), 'in %s: %s%s' % (prog.display(f), msg, via))
    roots = {parent(k) if parent(k) in prog.fns else k for k in cand}
    todo = sorted(roots)
    todo += [k for k in sorted(cand) if k not in roots]
    for k in todo:
        if k not in roots and k in sim.fns:
            continue                # decided where it is used
        for f, kind, msg, s in decide(k, k):
            if kind == 'later':
                continue
            if s:
                soft.append((k, f, kind))
                first[f, kind] = msg
            else:
                report(f, kind, msg)
    for k, f0, kind0 in soft:
        def again(key, clean):
            vs = decide(key, f0)
            return [v for v in vs if v[:2] in ((f0, kind0), (f0, 'later'))]
        for path, (f, kind, msg, s) in escalate(prog, [k], again):
            report(f, kind0, msg or first[f0, kind0], path)
    ctx.cov['sites_decided'] = len(set().union(*[cl.sites for cl in done.values()])) if done else 0
OUT = ('render',)
