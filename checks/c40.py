"""The page of a Zuul build is resolved to that very build."""
from zuulapi import *

CLEAN = {'as_str', 'to_string', 'as_ref', 'into_string', 'into', 'from', 'to_owned', 'clone', 'borrow', 'deref', 'fmt:display', 'display', 'to_str', 'as_mut_str', 'into_boxed_str', 'must_use'}

class Page(Zuul):
    """The segments of the path of the page are numbered from its end; auto also has ('short', n): the path has n segments."""
    def __init__(self, url):
        self.u = url
        self.bad = {}
        self.taken = set()
    def say(self, k, m):
        self.bad.setdefault(k, m)
    def at(self, e, st, x):
        """(location, segments) behind a receiver."""
        loc = None
        for _ in range(4):
            if x.k == 'ref':
                loc = e.deep(st, x.a[0])
                x = e.read(st, loc)
            elif x.k == 'call' and x.a[0] in ('segs', 'segv'):
                return loc, x
            else:
                return None, None
        return None, None
    def seg(self, k):
        return mk('call', 'seg', E.I(k))
    def nth(self, t):
        """k if t is the k-th segment from the end."""
        while t.k in ('deref', 'ref') and isinstance(t.a[0], T):
            t = t.a[0]
        if t.k == 'call' and t.a[0] == 'seg':
            return t.a[1].a[0]
        if t.k == 'at' and t.a[0].k == 'call' and t.a[0].a[0] == 'segv' and t.a[0].a[1] is FALSE:
            i = str(t.a[1])
            if i.startswith('fromend('):
                return t.a[0].a[2].a[0] + int(i[8:-1]) - 1
        return None
    def equals(self, e, st, k, lit):
        """Is the k-th segment known to be (or not to be) lit?"""
        if self.fewer(e, st, k + 1):
            return False
        for t, v in st.facts.items():
            if self.nth(t) == k:
                if v.k == 's':
                    return v.a[0] == lit
                if v.k == 'notin' and E.S(lit) in v.a:
                    return False
            if t.k == 'op' and t.a[0] in ('Eq', 'Ne') and v.k == 'b':
                x, y = t.a[1], t.a[2]
                while x.k == 'adt' and y.k == 'adt' and len(x.a) == 3 and x.a[:2] == y.a[:2]:
                    x, y = x.a[2], y.a[2]
                for a, b in ((x, y), (y, x)):
                    if self.nth(a) == k and b is E.S(lit):
                        return (v is TRUE) == (t.a[0] == 'Eq')
        return None
    def fewer(self, e, st, n):
        """Are there known to be less than n segments?"""
        m = next((v[1] for v in st.auto if v[0] == 'short'), None)
        if m is not None:
            return m < n
        for t, v in st.facts.items():
            if t.k == 'op' and v.k == 'b' and len(t.a) == 3:
                op, x, y = t.a
                if v is FALSE:
                    op = {'Le': 'Gt', 'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le'}.get(op)
                if str(x).startswith('len(segv(') and y.k == 'i':
                    x, y, op = y, x, {'Le': 'Ge', 'Lt': 'Gt', 'Ge': 'Le', 'Gt': 'Lt'}.get(op, op)
                if str(y).startswith('len(segv(') and x.k == 'i':
                    # x op len
                    if (op == 'Gt' and x.a[0] <= n) or (op == 'Ge' and x.a[0] < n) or (op == 'Eq' and x.a[0] < n):
                        return True
        return False
    def take(self, e, st, loc, x, k, step):
        """The k-th segment from the end, and how many are then used up."""
        done = x.a[2].a[0] + k
        n = next((v[1] for v in st.auto if v[0] == 'short'), None)
        least = max([v[1] for v in st.auto if v[0] == 'long'], default=1)
        out = []
        if n is None or done < n:
            s = st.copy()
            if n is None and done + 1 > least:
                self.ev(s, 'long', done + 1)
            if step:
                e.write(s, loc, mk('call', x.a[0], x.a[1], E.I(done + 1)))
            out.append((s, some(self.seg(done))))
        if (n is not None and done >= n) or (n is None and done >= least):
            for m in ([n] if n is not None else range(least, done + 1)):
                s = st.copy()
                if n is None:
                    self.ev(s, 'short', m)
                out.append((s, NONE))
        return out
    def on_call(self, e, st, c):
        n, last = c.name, c.name.rsplit('::', 1)[-1]
        if n == 'url::Url::path_segments':
            s2 = st.copy()
            self.ev(s2, 'nopath')
            return [(st, some(mk('call', 'segs', FALSE, E.I(0)))), (s2, NONE)]
        if n in ('str::rsplit',) and self.text(e, st, c.args[0]) == ['PATH'] and e.snap(st, c.args[1]) in (E.S('/'), E.I(47)):
            return [(st, mk('call', 'segs', TRUE, E.I(0)))]
        if not c.args:
            return None
        if last in ('contains', 'is_match') and any(self.text(e, st, x) == [('seg', 0)] for x in c.args):
            how = str(c.args[-1].a[1:2] if c.args[-1].k == 'adt' else c.args[-1])
            seen = [x[2] for x in st.auto if x[:2] == ('chars', how)]
            if seen:
                return [(st, TRUE if seen[0] else FALSE)]
            s2 = st.copy()
            self.ev(st, 'chars', how, True)
            self.ev(s2, 'chars', how, False)
            return [(st, TRUE), (s2, FALSE)]
        loc, x = self.at(e, st, c.args[0])
        if x is None:
            return None
        rev = x.a[1] is TRUE
        if x.a[0] == 'segs':
            if last == 'rev':
                return [(st, mk('call', 'segs', FALSE if rev else TRUE, x.a[2]))]
            if last in ('into_iter', 'by_ref', 'fuse'):
                return [(st, c.args[0])]
            if last == 'collect' or last == 'from_iter':
                if 'Vec' in str(c.fn.get('targs')) + str(c.fn.get('ret', '')):
                    return [(st, mk('call', 'segv', x.a[1], x.a[2]))]
            if loc is not None and last == ('next' if rev else 'next_back'):
                return self.take(e, st, loc, x, 0, True)
            if last == 'last' and not rev:
                return self.take(e, st, loc, x, 0, False)
            if loc is not None and last == ('nth' if rev else 'nth_back'):
                k = e.snap(st, c.args[1])
                if k.k == 'i':
                    e.write(st, loc, mk('call', 'segs', x.a[1], E.I(x.a[2].a[0] + k.a[0])))
                    _, x = self.at(e, st, c.args[0])
                    return self.take(e, st, loc, x, 0, True)
            return None
        if last in ('as_slice', 'deref', 'as_ref', 'borrow'):
            return [(st, c.args[0])]
        if last in ('iter', 'into_iter'):
            return [(st, mk('call', 'segs', x.a[1], x.a[2]))]
        if last in ('last', 'first') and rev == (last == 'first'):
            return self.take(e, st, loc, x, 0, False)
        if last == 'pop' and not rev and loc is not None:
            return self.take(e, st, loc, x, 0, True)
        if last == 'get' and rev:
            k = e.snap(st, c.args[1])
            if k.k == 'i':
                return self.take(e, st, loc, x, k.a[0], False)
        return None

    def text(self, e, st, t):
        """What a text is made of: literals and pieces of the page."""
        out = []
        def go(t):
            while t.k in ('ref', 'deref'):
                t = e.snap(st, t) if t.k == 'ref' else t.a[0]
            if t is self.u:
                out.append('PAGE')
            elif t.k == 's':
                out.append(('lit', t.a[0]))
            elif t.k == 'cat':
                for x in t.a:
                    go(x)
            elif self.nth(t) is not None:
                out.append(('seg', self.nth(t)))
            elif t.k == 'call' and t.a[0].endswith('url::Url::path') and self.page(t.a[1]):
                out.append('PATH')
            elif t.k == 'call' and t.a[0].rsplit('::', 1)[-1] in CLEAN and len(t.a) == 2:
                go(t.a[1])
            elif t.k == 'slice' and self.page(t.a[0]) and t.a[1] is E.I(0) and t.a[2].k == 'adt' and t.a[2].a[0].endswith('Position') and self.before(e, t.a[2]):
                out.append('ORIGIN')
            elif t.k == 'fld' and t.a[1:] == (1, 0) and t.a[0].k == 'call' and t.a[0].a[0] == 'str::strip_suffix':
                sub = self.text(e, st, t.a[0].a[1])
                cut = self.text(e, st, t.a[0].a[2])
                out.append(('cut', tuple(sub), tuple(cut)))
            elif t.k == 'fld' and t.a[1:] == (0, 0) and t.a[0].k == 'call' and t.a[0].a[0].rsplit('::', 1)[-1] in ('parse', 'from_str', 'try_from') and len(t.a[0].a) == 2:
                go(t.a[0].a[1])
            elif t.k == 'fld' and t.a[1:] == (0, 0) and t.a[0].k == 'call' and t.a[0].a[0].endswith('url::Url::join'):
                base = self.text(e, st, t.a[0].a[1])
                rel = self.text(e, st, t.a[0].a[2])
                lit = base[-1][1] if base and isinstance(base[-1], tuple) and base[-1][0] == 'lit' else ''
                ok_ = lit.endswith('/') and rel and isinstance(rel[0], tuple) and (rel[0][0] == 'seg' or (rel[0][0] == 'lit' and rel[0][1][:1] not in ('/', '?', '#', '.', '') and ':' not in rel[0][1]))
                if ok_:
                    out.extend(base + rel)
                else:
                    out.append(('?', str(t)))
            else:
                out.append(('?', str(t)))
        go(t)
        r = []
        for x in out:
            if isinstance(x, tuple) and x[0] == 'lit' and r and isinstance(r[-1], tuple) and r[-1][0] == 'lit':
                r[-1] = ('lit', r[-1][1] + x[1])
            else:
                r.append(x)
        return r
    def page(self, t):
        while t.k in ('ref', 'deref') or (t.k == 'call' and t.a[0].rsplit('::', 1)[-1] in CLEAN and len(t.a) == 2):
            t = t.a[-1] if t.k == 'call' else t.a[0]
            if not isinstance(t, T):
                return False
        return t is self.u
    def before(self, e, pos):
        a = e.p.adts.get('url::slicing::Position') or next((v for k, v in e.p.adts.items() if k.endswith('slicing::Position')), None)
        names = [v['n'] if 'n' in v else v.get('name') for v in a['variants']] if a else []
        return pos.a[1] < len(names) and names[pos.a[1]] == 'BeforePath' if names else pos.a[1] == 10

SEG = lambda k: ('seg', k)
L = lambda s: ('lit', s)
CUT = {'tenant': (L('/t/'), SEG(2), L('/build/'), SEG(0)), 'white': (L('/build/'), SEG(0))}
END = {'tenant': [L('/api/tenant/'), SEG(2), L('/')], 'white': [L('/api/')]}

def show(ps):
    return ' '.join(x if isinstance(x, str) else x[1] if x[0] in ('lit', '?') else 'segment[-%d]' % (x[1] + 1) if x[0] == 'seg' else '(%s without %s)' % (show(x[1]), show(x[2])) for x in ps)

def run(ctx):
    ctx.rule('Rule: the segments of the page are numbered from the end of its path (typestate of the segment iterator). A request is only made when the last segment is known to be 32 bytes long and the '
             'path to end with /build/ and that segment; its text is decomposed into literals and pieces of the page and has to be: the page up to its path, the path without its '
             '/t/<tenant>/build/<uid> (or /build/<uid>) ending, /api/tenant/<tenant>/ (or /api/), build/, and the last segment; the tenant form exactly when the fourth segment from the end is t. '
             'A url of that form is never dropped: nothing is only returned for a url that is established not to be of that form.')
    p = ctx.prog()
    sim = Sim(ctx, p)
    keys = [x for x in p.find('from_zuul_url') if p.fns[x]['kind'] != 'closure']
    if not ctx.need(len(keys) == 1, 'Content::from_zuul_url'):
        return
    key = keys[0]
    u = param(key, 0)
    class C(Page):
        def on_call(self, e, st, c):
            if FROM(c.name):
                ctx.count('requests')
                at = where(p, c.fnkey, c.block)
                api, req = self.text(e, st, e.snap(st, c.args[0])), self.text(e, st, e.snap(st, c.args[1]))
                ctx.sample('%s: %s' % (at, show(req)))
                form = None
                for f in CUT:
                    if api == ['ORIGIN', ('cut', ('PATH',), CUT[f])] + END[f]:
                        form = f
                if form is None:
                    self.say('api', '%s: the api of the page is taken to be %s\n%s' % (at, show(api), st.trail()))
                else:
                    want = api[:-1] + [L(api[-1][1] + 'build/'), SEG(0)]
                    if req != want:
                        self.say('request', '%s: the build is requested at %s, expected %s\n%s' % (at, show(req), show(want), st.trail()))
                if not self.len32(e, st):
                    self.say('uid', '%s: the last segment is used as an identifier without being 32 bytes long\n%s' % (at, st.trail()))
                self.taken |= {x[1:] for x in st.auto if x[0] == 'chars'}
                t = self.equals(e, st, 3, 't')
                if form == 'white' and t is not False:
                    self.say('tenant', '%s: the page of a tenant may be requested as if there was no tenant\n%s' % (at, st.trail()))
            return super().on_call(e, st, c)
        def len32(self, e, st):
            return any(v is E.I(32) and str(k).startswith('len(') and self.nth(k.a[-1]) == 0 for k, v in st.facts.items() if k.a and isinstance(k.a[-1], T))
    cl = C(u)
    e, outs = sim.run(key, cl, interest=EVENTS, also=zuul_fns(p))
    for st, v in outs:
        ctx.count('paths')
        r = e.snap(st, v)
        if r is NONE:
            ev = {x[0]: x[1:] for x in st.auto}
            ctx.count('paths_not_a_page')
            no = 'nopath' in ev or cl.equals(e, st, 1, 'build') is False or not cl.len32(e, st)
            if not no:
                no = not any(ev.get('chars') == x for x in cl.taken)
            if not no:
                ctx.viol('refused', '%s: a url is not taken for the page of a build although nothing says it is not\n%s' % (p.display(key), st.trail()))
        elif r.k == 'adt':
            ctx.count('paths_a_page')
            if cl.equals(e, st, 1, 'build') is not True or not cl.len32(e, st):
                ctx.viol('accepted', '%s: a url is taken for the page of a build without ending with build/ and 32 bytes\n%s' % (p.display(key), st.trail()))
    for k, m in cl.bad.items():
        ctx.viol(k, m)
    ctx.floor('requests', 2)
    ctx.floor('paths_not_a_page', 1)
    ctx.floor('paths_a_page', 1)
