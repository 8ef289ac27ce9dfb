"""The features of a line never contain its numbers, its identifiers or its secrets."""
from common import *

PUSH = rx(r'^std::string::String::(push|push_str|insert|insert_str|extend|extend_from_within)$', r'^std::fmt::Write::write_(str|char|fmt)$', r'^std::ops::AddAssign::add_assign$', r'^std::iter::Extend::extend$')
HARMLESS = rx(r'::(len|is_empty|reserve|capacity|as_str|deref|as_ref|borrow|borrow_mut|deref_mut|clone|to_string|trim\w*|ends_with|starts_with|by_ref|shrink_to_fit|as_mut|as_mut_str|truncate|pop|clear|drop)$')
TRIM = ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'strip_prefix', 'strip_suffix', 'trim_left_matches', 'trim_right_matches')
DIGIT = re.compile(r'[0-9]')

def words_of(pat):
    """The words an anchored alternation stands for, or None."""
    m = re.match(r'^\(\?[a-z-]+:(.*)\)$', pat)
    if m:
        pat = m.group(1)
    m = re.match(r'^\^\((.*)\)\$$', pat)
    if not m or not re.match(r'^[\w|\- ]+$', m.group(1)):
        return None
    return m.group(1).split('|')

def is_errors(pat):
    w = words_of(pat)
    return w is not None and 'traceback' in w and not DIGIT.search(pat)

def is_secrets(pat):
    m = re.match(r'^(?:\(\?i:)?\(?([\w|]+)\)?\)?$', pat)
    return m is not None and {'password', 'token', 'secret'} <= set(m.group(1).split('|'))

def all_digits(pat):
    """Does the expression match every run of digits, wherever it is?"""
    try:
        r = re.compile(pat)
    except re.error:
        return False
    return all(DIGIT.search(r.sub('', t)) is None for t in ('0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '1234567890', 'a1b22c', '1.2', '1.2.3', 'x-1.-2', '.5', '5.'))

def before(t):
    while t.k == 'deref' or t.k == 'call' and t.a[0] == 'trimmed':
        t = t.a[0] if t.k == 'deref' else t.a[1]
    return t.k == 'call' and t.a[0] == 'before'

CONST = mk('call', 'constant')

class Tok(Client):
    """auto: ('error?') the word was found not to be an error keyword; ('plain') it has no key;
    ('kv') it was split into a key and a value and the key was not judged yet; ('secret') the key names a secret;
    for process: ('word', w) a word not yet handed over, ('sep') a separator is due."""
    def __init__(self, ctx, p, rec, root):
        self.ctx, self.p, self.rec, self.root = ctx, p, rec, root
        self.bad = {}
        self.lazy = {}
        self.errs, self.secs = set(), set()
        self.n = 0
    def init(self):
        return frozenset()
    def join_hint(self, a, b):
        f = lambda t: t is CONST or t.k == 's'
        return CONST if f(a) and f(b) else None
    def say(self, k, m):
        self.bad.setdefault(k, m)
    def text(self, e, st, v):
        v = e.snap(st, v)
        while v.k == 'deref':
            v = v.a[0]
        return v
    def regex(self, e, st, v):
        t = e.snap(st, v)
        ps = {x.a[1].a[0] for x in subterms(t) if x.k == 'call' and x.a[0].endswith('new') and len(x.a) > 1 and x.a[1].k == 's'}
        return ps.pop() if len(ps) == 1 else None
    def at(self, c):
        return self.p.display(c.fnkey) + (' (%s)' % c.span if c.span else '')
    def touch(self, e, st, c, t, what):
        """The content of t is used: it must not be a value whose key was not judged, or is a secret."""
        if before(t):
            return
        for s, m in (('kv', 'before its key is compared with the names of secrets'), ('secret', 'although its key names a secret')):
            if (s,) in st.auto:
                self.say(s, '%s: the value of a key is %s %s' % (self.at(c), what, m))
    # ---- the output
    def push(self, e, st, c, x):
        t = self.text(e, st, x)
        self.ctx.count('tokens_written')
        parts = list(t.a) if t.k == 'cat' else [t]
        for y in parts:
            y = self.text(e, st, y)
            if y is CONST or y.k == 'call' and str(y.a[0]).endswith('repeat') and self.text(e, st, y.a[1]).k in ('s', 'ch'):
                continue
            if y.k in ('s', 'ch', 'empty'):
                continue
            self.touch(e, st, c, y, 'written')
            if y.k == 'call' and y.a[0].endswith('replace_all') and len(y.a) >= 4:
                pat = self.regex(e, st, y.a[1])
                rep = self.text(e, st, y.a[3])
                if pat is not None and all_digits(pat) and rep.k == 's' and not re.search(r'[0-9$]', rep.a[0]):
                    self.ctx.count('words_without_numbers')
                    continue
                self.say('numbers', '%s writes a word after replacing %r by %s, which leaves digits in it' % (self.at(c), pat, rep))
                continue
            if any(is_errors(pat) and y is w for pat, w in self.known(st)):
                self.ctx.count('error_keywords')
                st.auto = st.auto | {('kept',)}
                continue
            self.say('raw', '%s writes %s, which is neither a constant, an error keyword nor a word without its numbers' % (self.at(c), str(y)[:80]))
    def known(self, st):
        return [(x[1], x[2]) for x in st.auto if x[0] == 'is']
    # ---- the end of a word
    def leave(self, st, at, how):
        if ('error?',) not in st.auto and not self.known(st):
            self.say('error', '%s: a word is %s before it is compared with the error keywords' % (at, how))
    def fork(self, st, t, f):
        s2 = st.copy()
        st.auto = t(st.auto)
        s2.auto = f(s2.auto)
        return [(st, TRUE), (s2, FALSE)]
    def anew(self, auto):
        """Another text is looked at."""
        return frozenset(x for x in auto if x[0] not in ('is', 'error?', 'plain', 'out', 'kept'))
    def letters(self, e, st, f):
        """Does the predicate hold for every letter?"""
        for ch in 'azAZmM_':
            rs = e.call_value(st.copy(), f, [mk('ch', ord(ch))], ('letters', ch))
            if not rs or any(v is not TRUE for s, v in rs):
                return False
        return True
    def eq_sep(self, e, st, pat):
        """Does the pattern split at = and at :?"""
        if pat.k == 'ch':
            return False
        out = []
        for ch in '=:':
            t = e.snap(st, pat)
            if t.k == 'adt' and t.a[0] == 'array':
                out.append(any(x.k == 'ch' and x.a[0] == ord(ch) for x in t.a[2:]))
                continue
            rs = e.call_value(st.copy(), pat, [mk('ch', ord(ch))], ('sep', ch))
            out.append(bool(rs) and all(v is TRUE for s, v in rs))
        return all(out)
    def on_call(self, e, st, c):
        b = c.fn and c.fn.get('body')
        last = c.name.rsplit('::', 1)[-1]
        if b and b + '::__stability' in self.p.fns and b + '::__static_ref_initialize' in self.p.fns:
            if b not in self.lazy:
                from engine import Engine
                o = Engine(self.p, Client(), interest=lambda n: True).run(b + '::__static_ref_initialize')
                self.lazy[b] = e.snap(*o[0]) if len(o) == 1 else None
            v = self.lazy[b]
            return [(st, v)] if v is not None else None
        if b == self.rec:
            self.n += 1
            w = self.text(e, st, c.args[0])
            self.touch(e, st, c, w, 'processed')
            if ('word', w) in st.auto:
                if ('sep',) in st.auto:
                    self.say('sep', '%s: two words are written without a separator' % self.at(c))
                st.auto = st.auto - {('word', w), ('sep',)}
                self.ctx.count('words_handed_over')
                return self.fork(st, lambda a: a | {('sep',)}, lambda a: a)
            return self.fork(st, lambda a: a, lambda a: a)
        if last == 'is_match' and len(c.args) > 1:
            pat = self.regex(e, st, c.args[0])
            w = self.text(e, st, c.args[1])
            if pat is None:
                return None
            self.ctx.count('predicates')
            if is_errors(pat):
                self.errs.add(pat)
                self.touch(e, st, c, w, 'examined')
                return self.fork(st, lambda a: a | {('is', pat, w)}, lambda a: a | {('error?',)})
            if is_secrets(pat) and before(w):
                self.secs.add(pat)
                return self.fork(st, lambda a: (a - {('kv',)}) | {('secret',)}, lambda a: self.anew(a) - {('kv',)})
            self.touch(e, st, c, w, 'examined')
            return self.fork(st, lambda a: a, lambda a: a)
        if c.name.startswith('str::') and c.args:
            w = self.text(e, st, c.args[0])
            if w.k in ('s',):
                return None
            if last in TRIM:
                if not before(w):
                    self.touch(e, st, c, w, 'processed')
                t = mk('call', 'trimmed', w)
                if last.startswith('strip_'):
                    s2 = st.copy()
                    if not before(w):
                        s2.auto = self.anew(s2.auto)
                    return [(st, NONE), (s2, some(t))]
                return [(st, t)]
            if last == 'starts_with' and before(w) and len(c.args) > 1 and ('kv',) in st.auto:
                if self.letters(e, st, c.args[1]):
                    return self.fork(st, lambda a: a, lambda a: (a - {('kv',)}) | {('plain',)})
            if last in ('split_once', 'rsplit_once') and len(c.args) > 1:
                pat = c.args[1]
                s2 = st.copy()
                one, two = mk('call', 'before', w, e.snap(st, pat)), mk('call', 'after', w, e.snap(st, pat))
                pair = some(mk('adt', 'tuple', 0, one, two))
                self.touch(e, st, c, w, 'split')
                self.leave(st, self.at(c), 'split')
                if last == 'split_once' and self.eq_sep(e, st, pat):
                    st.auto = st.auto | {('plain',)}
                    s2.auto = (s2.auto - {('plain',)}) | {('kv',)}
                    self.ctx.count('key_splits')
                else:
                    if ('plain',) not in s2.auto:
                        self.say('order', '%s: a word is split before it is known not to be a key with its value' % self.at(c))
                    s2.auto = self.anew(s2.auto)
                return [(st, NONE), (s2, pair)]
            if 'bool' == c.dty:
                return self.fork(st, lambda a: a, lambda a: a)
            return None
        if PUSH(c.name) or PUSH(c.decl):
            if c.args and 'String' in (c.aty[0] if c.aty else ''):
                x = c.args[-1]
                t = self.text(e, st, x)
                if ('sep',) in st.auto and (t.k == 'ch' or t.k == 's' and t.a[0] and not t.a[0].strip()):
                    st.auto = st.auto - {('sep',)}
                self.push(e, st, c, x)
                st.auto = st.auto | {('out',)}
                return [(st, E.UNIT)]
        elif c.args and c.aty and c.aty[0].startswith('&mut') and 'String' in c.aty[0] and not (b and b in self.p.fns) and not HARMLESS(c.name):
            self.say('write:' + c.name, '%s writes the result through %s, which is not analysed' % (self.at(c), c.name))
        return None
    def on_next(self, e, st, it, val, site):
        if self.root == self.rec:
            return
        for x in list(st.auto):
            if x[0] == 'word':
                self.say('skipped', '%s: a word of the line is not processed' % self.p.display(self.root))
        st.auto = frozenset(x for x in st.auto if x[0] != 'word')
        if val.k == 'adt' and val.a[1] == 1:
            st.auto = st.auto | {('word', self.text(e, st, val.a[2]))}

def run(ctx):
    ctx.rule('Rule: rooted at logreduce_tokenizer::process and at the function it hands each word to: everything written in the result is a constant without digit, a word found to be an error keyword, or a word whose digits are replaced; '
             'a word which may be a key and its value is split there before any other separator, and the value is only used when the key was found not to name a secret; '
             'a word is compared with the error keywords before it is dropped or split; every word of the line is handed over, one at a time, and separated from the previous one (path-sensitive abstract interpretation of MIR; predicates are identified by their expression).')
    p = ctx.prog()
    root = p.one('logreduce_tokenizer::process')
    g = p.cg()
    comps = [k for comp in g.sccs(k for k in g.closure([root]) if not p.fns[k]['ext'] and '::deref' not in k) for k in comp]
    cands = [k for k in comps if p.fns[k]['argc'] >= 2]
    if not ctx.need(cands, 'the function which processes a word'):
        return
    sim = Sim(ctx, p)
    rec = cands[0]
    I = lambda n: n.endswith('::is_match') or PUSH(n) or n.startswith('str::')
    for k in (rec, root):
        cl = Tok(ctx, p, rec, k)
        e, outs = sim.run(k, cl, interest=I)
        for s, v in outs:
            A = {x[0] for x in s.auto}
            at = p.display(k)
            if k == rec:
                if 'is' in A and 'kept' not in A:
                    cl.say('kept', '%s: an error keyword is not written in the result' % at)
                if not A & {'error?', 'is', 'secret', 'out'}:
                    cl.say('error', '%s: a word is dropped before it is compared with the error keywords' % at)
            else:
                if 'word' in A:
                    cl.say('skipped', '%s: a word of the line is not processed' % at)
                for x in subterms(e.snap(s, v)):
                    if x is param(k, 0):
                        cl.say('raw:result', '%s returns text of the line as it is' % at)
        for x, m in sorted(cl.bad.items()):
            ctx.viol(x, m)
        if k == rec:
            ctx.need(cl.errs, 'the comparison of words with the error keywords')
            ctx.need(cl.secs, 'the comparison of keys with the names of secrets')
            for x in sorted(cl.errs | cl.secs):
                ctx.sample(x)
        else:
            ctx.need(cl.n, 'the call which processes a word')
    ctx.floor('key_splits', 1)
    ctx.floor('words_handed_over', 1)
    ctx.floor('words_without_numbers', 1)
    ctx.floor('error_keywords', 1)
