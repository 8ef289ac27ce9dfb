"""What happens to every log line: training (ChunkTrainer) and inspection (ChunkProcessor).

The automaton state is a frozenset of facts about the line in hand and the pending work:
  ('line', L)             line L was read and is not accounted for yet
  ('failed', what)        the reader or the decoding of the line failed
  ('inc', path, kind)     the counter at path was increased once for this line (by one / by its length)
  ('seen',) ('unseen',)   outcome of the lookup of its tokens in the set of known lines
  ('pushed', path)        its tokens are in the vector at path
  ('dirty', path)         the vector at path has lines that were not handed to the index yet
  ('owed', v)             a vector taken out of the struct that was not handed to the index yet"""
from common import *
import models

TOK = rx(r'(^|::)ChunkIndex::tokenize$')
ADD = rx(r'(^|::)ChunkIndex::add$')
SEARCH = rx(r'(^|::)ChunkIndex::search$')
UTF8 = rx(r'^std::str::from_utf8$', r'^std::str::from_utf8_unchecked$', r'^std::string::String::from_utf8(_lossy|_unchecked)?$', r'^logreduce_iterator::clone_bytes_to_string$')
NEW = rx(r'^logreduce_iterator::BytesLines::new$')
SET = rx(r'^std::collections::(HashSet|BTreeSet)::(contains|insert|get|replace|take|remove|clear)$')
VEC = rx(r'^std::vec::Vec::(push|clear|truncate|pop|remove|swap_remove|drain|split_off|append|dedup|retain|insert|extend_from_slice)$', r'^std::mem::(take|replace|swap)$')
EVENTS = lambda n: TOK(n) or ADD(n) or SEARCH(n) or NEW(n) or SET(n) or VEC(n) or UTF8(n)

def proc_fns(p):
    return [k for k in p.ws_fns() if '::process::' in p.fns[k]['npath']]

class Lines(Client):
    keep_init = True
    def __init__(self, ctx, prog, root):
        self.ctx, self.p, self.root = ctx, prog, root
        self.bad = {}
        self.kinds = {}           # kind -> set of paths inside self
    def init(self):
        return frozenset()
    def say(self, key, msg, st=None):
        self.bad.setdefault(key, '%s: %s%s' % (self.p.display(self.root), msg, '\n' + st.trail() if st else ''))
    def get(self, st, kind):
        return [x for x in st.auto if x[0] == kind]
    def add(self, st, *x):
        st.auto = st.auto | {x}
    def rm(self, st, *kinds):
        st.auto = frozenset(x for x in st.auto if x[0] not in kinds)
    def line(self, st):
        xs = self.get(st, 'line')
        return xs[0][1] if xs else None
    def path(self, loc):
        """Path of a location inside self, or None."""
        r, p = loc
        if r[0] == 'D' and r[1] is param(self.root, 0):
            return tuple(('f', x[2]) if x[0] == 'f' else x for x in p)
        return None
    def at(self, path):
        return (('D', param(self.root, 0)), tuple(('f', None, x[1]) if x[0] == 'f' else x for x in path))
    def locof(self, e, st, v):
        if v.k == 'ref':
            return e.deep(st, v.a[0])
        return (('D', v), ())
    # ---- the reader
    def is_lines(self, e, v):
        return v.k == 'call' and v.a[0] == 'lines'
    def read_line(self, e, st, site, at=''):
        self.boundary(e, st, at)
        self.rm(st, 'line', 'failed', 'inc', 'seen', 'unseen', 'pushed')
        self.rm(st, *self.per_line)
        s1, s2, s3 = st.copy(), st.copy(), st.copy()
        L = e.fresh(s1, site + ('line',), 'line')
        self.add(s1, 'line', L)
        self.ctx.count('line_reads')
        ev = e.fresh(s2, site + ('rderr',), 'err')
        self.add(s2, 'failed', 'read')
        self.add(s3, 'end')
        return [(s3, NONE), (s1, some(ok(L))), (s2, some(err(ev)))]
    per_line = ()
    def boundary(self, e, st, at):
        raise NotImplementedError
    def next_items(self, e, st, loc, v, site):
        if self.is_lines(e, v):
            return self.read_line(e, st, site)
        return None
    # ---- calls
    def on_call(self, e, st, c):
        n, d = c.name, c.decl
        last = d.rsplit('::', 1)[-1]
        if NEW(n):
            return [(st, mk('call', 'lines', e.snap(st, c.args[0])))]
        if c.aty and 'BytesLines<' in c.aty[0].split('dyn')[0] and c.aty[0].replace('&mut ', '').startswith('logreduce_iterator::BytesLines'):
            if d == 'std::iter::IntoIterator::into_iter':
                return [(st, c.args[0])]
            if d == 'std::iter::Iterator::next':
                return self.read_line(e, st, c.site, where(self.p, c.fnkey, c.block))
        L = self.line(st)
        if UTF8(n):
            v = e.snap(st, c.args[0])
            if v.k == 'slice' and v.a[1] is E.I(0):
                v = v.a[0]
            t = mk('call', 'text', v)
            if n.endswith(('lossy', 'unchecked')):
                return [(st, t)]
            s2 = st.copy()
            if L is not None and L in leaves(v) and not c.name.endswith('clone_bytes_to_string'):
                self.add(s2, 'failed', 'utf8')
            if c.name.endswith('clone_bytes_to_string') and (c.dty or '').replace('core::', 'std::').startswith('std::option::Option'):
                return [(st, some(t)), (s2, NONE)]
            return [(st, ok(t)), (s2, err(e.fresh(s2, c.site, 'utf8')))]
        if TOK(n):
            t = e.snap(st, c.args[1])
            if L is not None and t is not mk('call', 'text', mk('fld', L, 0, 0)):
                self.say('tokenize', '%s tokenizes %s instead of the line that was read' % (where(self.p, c.fnkey, c.block), t), st)
            return [(st, mk('call', 'tokens', t))]
        if SET(n) and L is not None:
            key = e.snap(st, c.args[1]) if len(c.args) > 1 else None
            tok = mk('call', 'tokens', mk('call', 'text', mk('fld', L, 0, 0)))
            if last in ('contains', 'insert', 'get') and key is tok:
                self.ctx.count('lookups')
                if ('seen',) in st.auto:
                    return [(st, B(last == 'contains'))] if last != 'get' else None
                if ('unseen',) in st.auto:
                    if last == 'insert':
                        v = ('inserted',) not in st.auto
                        self.add(st, 'inserted')
                        return [(st, B(v))]
                    return [(st, B(('inserted',) in st.auto))] if last == 'contains' else None
                s2 = st.copy()
                self.add(st, 'seen')
                self.add(s2, 'unseen')
                if last == 'insert':
                    self.add(s2, 'inserted')
                    return [(st, FALSE), (s2, TRUE)]
                if last == 'contains':
                    return [(st, TRUE), (s2, FALSE)]
                return [(st, some(e.fresh(st, c.site, 'key'))), (s2, NONE)]
            if last in ('contains', 'insert', 'get'):
                self.say('key', '%s looks up or records %s in the set of known lines instead of the tokens of the line' % (where(self.p, c.fnkey, c.block), key), st)
        if VEC(n):
            r = self.vec(e, st, c, last)
            if r is not None:
                return r
        return self.more(e, st, c, n, d, last)
    def vec(self, e, st, c, last):
        return None
    def more(self, e, st, c, n, d, last):
        return None
    def on_write(self, e, st, loc, val, fnkey, block):
        p = self.path(loc)
        if p is None:
            return
        if val.k == 'op' and val.a[0] == 'Add' or val.k == 'i' and e.prev is not None and e.prev.k == 'i' and val.a[0] == e.prev.a[0] + 1:
            self.inc(e, st, p, val, e.prev, fnkey, block)
    def inc(self, e, st, p, val, prev, fnkey, block):
        L = self.line(st)
        if L is None:
            return
        kind = None
        if val is E.simp_op('Add', prev, E.I(1)):
            kind = 'one'
        elif val is E.simp_op('Add', prev, mk('call', 'len', mk('fld', L, 0, 0))):
            kind = 'bytes'
        if kind is None:
            return
        if any(x[0] == 'inc' and x[1] == p for x in st.auto):
            self.say('twice:%s' % (p,), '%s counts a line twice' % where(self.p, fnkey, block), st)
        self.add(st, 'inc', p, kind)

def fieldpath(prog, adt, name):
    for k, a in prog.adts.items():
        if k.endswith(adt):
            for i, x in enumerate(a['variants'][0]['f']):
                if x[0] == name:
                    return (('f', i),)
    return None
from engine import B
