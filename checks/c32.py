"""A source is opened as what it is: the right kind of content, the right file or url, decompressed when it has to be."""
from c35 import *
import c36
from net import Net

KINDS = ('dir', 'file', 'none')

class Kind(Client):
    """auto: what the path given is on disk, once asked."""
    def __init__(self, root):
        self.root = root
        self.bad = {}
    def init(self):
        return None
    def asked(self, st):
        if st.auto is not None:
            return [(st, st.auto)]
        out = []
        for k in KINDS:
            s = st.copy()
            s.auto = k
            out.append((s, k))
        return out
    def on_call(self, e, st, c):
        n, last = c.name, c.name.rsplit('::', 1)[-1]
        if n.endswith('::from_zuul_url'):
            s2 = st.copy()
            z = mk('call', 'zuul', E.I(0))
            s2.facts[z] = TRUE
            return [(st, NONE), (s2, some(z))]
        if n.startswith(('std::path::Path::', 'std::fs::')) and last in ('is_dir', 'is_file', 'exists', 'metadata', 'try_exists') and c.args:
            x = e.snap(st, c.args[0])
            if x.k == 'call' and x.a[0] == 'meta':
                return [(s, B(k == last[3:])) for s, k in self.asked(st)] if last in ('is_dir', 'is_file') else None
            out = []
            for s, k in self.asked(st):
                if last == 'metadata':
                    out.append((s, ok(mk('call', 'meta', E.I(0))) if k != 'none' else err(e.fresh(s, c.site, 'io'))))
                elif last == 'try_exists':
                    out.append((s, ok(B(k != 'none'))))
                else:
                    out.append((s, B(k == last[3:] if last != 'exists' else k != 'none')))
            return out
        return None

def payload(x):
    return x.a[2] if x.k == 'adt' and len(x.a) == 3 else None

def given(t, who):
    """t is (a part of) who, or the url parsed from it, and nothing else was done to it."""
    while True:
        t = subject(t)
        if t.k == 'fld':
            t = t.a[0]
        elif t.k == 'call' and t.a[0].rsplit('::', 1)[-1] in ('parse', 'from_str', 'try_from') and len(t.a) == 2:
            t = t.a[1]
        else:
            return t is who

def kinds(ctx, sim, p, key):
    cl = Kind(key)
    e, outs = sim.run(key, cl, interest=rx('::from_zuul_url$', '^std::path::Path::(is_dir|is_file|exists|metadata|try_exists)$', '^std::fs::'))
    seen = set()
    for st, v in outs:
        v = e.snap(st, v)
        ctx.count('contents_decided')
        if E.is_err(v):
            seen.add('err')
            continue
        if not E.is_ok(v):
            if v.k == 'call' and v.a[0] == 'zuul':
                seen.add('zuul')
            else:
                ctx.viol('kind:other', 'a content of unknown kind is made: %s\n%s' % (v, st.trail()))
            continue
        x = v.a[2]
        if not (x.k == 'adt' and x.a[0].endswith('::Content') and x.a[1] in (0, 1) and len(x.a) == 3 and x.a[2].k == 'adt' and x.a[2].a[0].endswith('::Source')):
            if x.k == 'fld' and any(t.k == 'call' and t.a[0] == 'zuul' for t in subterms(x)):
                seen.add('zuul')
                continue
            ctx.viol('kind:other', 'a content of unknown kind is made: %s\n%s' % (x, st.trail()))
            continue
        dir_, src = x.a[1] == 1, x.a[2]
        local = src.a[1] == 0
        seen.add(('local' if local else 'remote') + (' directory' if dir_ else ' file'))
        if local:
            want = 'dir' if dir_ else 'file'
            if st.auto != want:
                ctx.viol('kind:local', 'a path that is %s becomes a %s content' % ({'dir': 'a directory', 'file': 'a regular file', 'none': 'neither a file nor a directory', None: 'not looked at'}[st.auto], 'directory' if dir_ else 'file'))
        else:
            t = [val for f, val in st.facts.items() if f.k == 'call' and f.a[0].rsplit('::', 1)[-1] == 'ends_with' and subject(f.a[1]) is subject(src.a[3]) and (f.a[2].k == 'ch' and f.a[2].a[0] == 47 or f.a[2].k == 's' and f.a[2].a[0] == '/')]
            if t != [B(dir_)]:
                ctx.viol('kind:remote', 'a url that %s becomes a %s content' % ('is not known to end with a slash' if dir_ else 'may end with a slash', 'directory' if dir_ else 'file'))
            if not any(f.k == 'call' and f.a[0].rsplit('::', 1)[-1] == 'has_authority' and val is TRUE for f, val in st.facts.items()):
                ctx.viol('kind:host', 'a url without a host is accepted')
        if not given(src.a[3], param(key, 0)):
            ctx.viol('kind:target', 'the content is made of %s instead of the path or url that was given' % src.a[3])
    for w in ('err', 'zuul', 'local directory', 'local file', 'remote directory', 'remote file'):
        ctx.need(w in seen, 'outcome of Content::from_input: ' + w)

GZ = rx(r'^flate2::(read|bufread)::(Multi)?GzDecoder::new$')

def gz_known(st, path, want):
    for t, v in st.facts.items():
        if v is not want:
            continue
        if t.k == 'op' and t.a[0] == 'Eq' and any(x.k == 's' and x.a[0] == 'gz' for x in t.a[1:]):
            y = [x for x in t.a[1:] if not (x.k == 's' and x.a[0] == 'gz')]
            if y and any(z.k == 'call' and z.a[0].rsplit('::', 1)[-1] == 'extension' and subject(z.a[-1]) is path for z in subterms(y[0])):
                return True
        if t.k == 'call' and t.a[0].rsplit('::', 1)[-1] == 'ends_with' and t.a[2].k == 's' and t.a[2].a[0] == '.gz' and subject(t.a[1]) is path:
            return True
    if want is FALSE:
        for t, v in st.facts.items():
            if t.k == 'discr' and v.k == 'i' and v.a[0] == 0 and t.a[0].k == 'call' and t.a[0].a[0].rsplit('::', 1)[-1] in ('extension', 'to_str'):
                return True
    return False

class File(Client):
    """auto: which files were opened."""
    def __init__(self, ctx, root):
        self.ctx, self.path, self.p = ctx, param(root, 0), ctx.prog()
        self.bad = {}
    def init(self):
        return ()
    def on_call(self, e, st, c):
        n = c.name
        if n in ('std::fs::File::open', 'std::fs::OpenOptions::open'):
            x = subject(e.snap(st, c.args[-1]))
            if x is not self.path:
                self.bad['path'] = '%s opens %s instead of the path it was given' % (where(self.p, c.fnkey, c.block), x)
            s2 = st.copy()
            s2.auto = ('failed',)
            f = mk('call', 'file', x)
            st.auto = ('open',)
            self.ctx.count('files_opened')
            return [(st, ok(f)), (s2, err(e.fresh(s2, c.site, 'io')))]
        if n == 'std::path::Path::extension':
            # the two cases are kept apart
            x = mk('call', 'extension', e.snap(st, c.args[0]))
            s2 = st.copy()
            if e.assume(st, mk('discr', x, OPT), E.I(1)) and e.assume(s2, mk('discr', x, OPT), E.I(0)):
                st.auto += ('ext',)
                s2.auto += ('noext',)
                return [(st, some(mk('fld', x, 1, 0))), (s2, NONE)]
            return None
        if GZ(n):
            return [(st, mk('call', 'gz', e.snap(st, c.args[0])))]
        return None
    def on_branch(self, e, st, term, val):
        for t in subterms(term):
            if t.k == 's' and t.a[0] in ('gz', '.gz') and ('gz', str(term)) not in st.auto:
                st.auto += ('is-gz' if val is TRUE else 'not-gz',)

def local(ctx, sim, p, key):
    cl = File(ctx, key)
    e, outs = sim.run(key, cl, interest=lambda n: n in ('std::fs::File::open', 'std::path::Path::extension') or GZ(n))
    seen = set()
    for st, v in outs:
        v = e.snap(st, v)
        ctx.count('open_outcomes')
        if E.is_err(v):
            seen.add('err')
            continue
        if 'failed' in st.auto:
            cl.bad['failure'] = 'a file that cannot be opened is reported as open'
            continue
        x = payload(v) if E.is_ok(v) else None
        f = mk('call', 'file', cl.path)
        r = payload(x) if x is not None else None
        if x is None or not x.a[0].endswith('::DecompressReader') or r is None:
            cl.bad['reader'] = 'gives %s instead of a reader of the file' % v
        elif r is f:
            seen.add('flat')
            if not gz_known(st, cl.path, FALSE) and 'noext' not in st.auto:
                cl.bad['flat'] = 'a file may be read as it is although its extension is gz'
        elif r.k == 'call' and r.a[0] == 'gz' and r.a[1] is f:
            seen.add('gz')
            if not gz_known(st, cl.path, TRUE):
                cl.bad['gz'] = 'a file may be decompressed although its extension is not gz'
        else:
            cl.bad['reader'] = 'gives %s instead of a reader of the file' % r
    for w in ('err', 'flat', 'gz'):
        ctx.need(w in seen, 'outcome of Source::file_open: ' + w)
    for k, m in cl.bad.items():
        ctx.viol('file:' + k, 'Source::file_open: ' + m)

class Remote(c36.Cached):
    def __init__(self, cached):
        self.cached = cached
    def on_call(self, e, st, c):
        if not self.cached:
            r = env_call(e, st, c, unset=(c36.VAR,))
            if r is not None:
                return r
        return c36.Cached.on_call(self, e, st, c)
    def sent(self, e, st, c, method, url):
        self.ev(st, 'sent', method, url)

def prefix_of(t, url):
    """t is the url that is the prefix of url's text: the parsed slice of it from 0 to the prefix length."""
    def flat(t):
        return subject(t)
    if flat(t) is url:
        return 'whole'
    for x in subterms(t):
        if x.k == 'call' and x.a[0].rsplit('::', 1)[-1] == 'parse':
            y = x.a[-1]
            if y.k == 'slice' and subject(y.a[0]) is url and y.a[1] is ZERO:
                return y.a[2]
            if subject(y) is url:
                return 'whole'
    return None

def remote(ctx, sim, p, key):
    prefix, url = param(key, 0), param(key, 1)
    bad = {}
    seen = set()
    ev = lambda n: c36.NET(n) or c36.CACHE(n)
    runs = []
    for cached in (True, False):
        e, outs = sim.run(key, Remote(cached), interest=ev, also=p.cg().with_str(c36.VAR))
        runs += [(e, st, v) for st, v in outs]
    for e, st, v in runs:
        v = e.snap(st, v)
        ctx.count('open_outcomes')
        for x in st.auto:
            if x[0] == 'sent':
                ctx.count('requests')
                if x[1] is not E.S('get') or subject(x[2]) is not url:
                    bad['request'] = 'asks the network for %s with %s instead of getting the url' % (x[2], x[1])
            else:
                a = x[1] if x[0] in ('remote_add',) else x[2] if len(x) > 2 else ()
                if x[0] not in ('hit', 'miss', 'remote_add') or x[0] != 'remote_add' and x[1] != 'remote_get':
                    bad['cache:' + x[0]] = 'opening a url does %s on the cache' % (x[:2],)
                    continue
                ctx.count('cache_keys')
                if subject(a[1]) is not url:
                    bad['url'] = 'the cache is asked for %s instead of the url' % a[1]
                b = prefix_of(a[0], url)
                if b is None or b != 'whole' and b is not prefix:
                    bad['base'] = 'the base of the cache key is %s: neither the url nor its prefix' % a[0]
        if E.is_err(v):
            seen.add('err')
            continue
        r = payload(v.a[2]) if E.is_ok(v) else None
        hit = [x for x in st.auto if x[0] == 'hit']
        if hit and not E.is_ok(v):
            # the result of the cache is mapped: only Gz may be around it
            seen.add('hit')
            continue
        if r is None:
            bad['reader'] = 'gives %s instead of a reader' % v
            continue
        if hit:
            k = hit[0][3]
            if not any(t is k for t in subterms(r)) or 'GzDecoder' not in str(r) and v.a[2].a[1] != 1:
                bad['hit'] = 'a cached answer is read as %s' % v.a[2]
            seen.add('hit')
        elif any(t.k == 'adt' and t.a[0] == 'cached' for t in subterms(r)):
            seen.add('stored')
        elif any(t.k == 'call' and t.a[0] == 'resp' and subject(t.a[2]) is url for t in subterms(r)):
            seen.add('remote')
        else:
            bad['reader'] = 'gives %s instead of the content of the url' % r
        if any(x[0] == 'sent' for x in st.auto) and not any(t.k == 'call' and t.a[0] == 'resp' for t in subterms(r)):
            bad['answer'] = 'the answer of the network is not what is read'
    ctx.cov['kinds_of_url_readers'] = sorted(seen)
    for w in ('err', 'hit', 'stored', 'remote'):
        ctx.need(w in seen, 'outcome of Source::url_open: ' + w)
    for k, m in bad.items():
        ctx.viol('url:' + k, 'Source::url_open: ' + m)

OPEN = rx(r'(^|::)Source::(file|url)_open$')
LINES = rx(r'(^|::)ChunkProcessor::new$')

def callers_ok(ctx, sim, p):
    """Whoever opens a source hands its own path, or its own base and url."""
    starts = direct_callers(p, OPEN)
    ctx.cov['opening_functions'] = len(starts)
    def analyse(key, clean):
        bad = {}
        class O(Client):
            def on_call(self, e, st, c):
                a = [e.snap(st, x) for x in c.args]
                if OPEN(c.name):
                    ctx.count('opens')
                    w = where(p, c.fnkey, c.block)
                    x = subject(a[-1])
                    src = x.a[0] if x.k == 'fld' else None
                    var = 1 if c.name.endswith('url_open') else 0
                    if src is None or x.a[1:] != (var, 1):
                        bad[(c.fnkey, 'what')] = '%s opens %s, which is not the place of a source' % (w, x)
                    elif var and a[0] is not mk('fld', src, 1, 0):
                        bad[(c.fnkey, 'base')] = '%s opens a url with %s as base offset instead of that of the source' % (w, a[0])
                    return None
                return None
        sim.run(key, O(), interest=OPEN, cut=clean)
        return list(bad.items())
    for path, (k, msg) in escalate(p, starts, analyse):
        ctx.viol('open:%s:%s' % (p.display(k[0]), k[1]), msg + '\n  reached from ' + ' <- '.join(p.display(x) for x in path))
    ctx.floor('opens', 4)

def run(ctx):
    ctx.rule('Rule 1 (rooted at Content::from_input): a path becomes a Directory only when it is a directory, a File only when it is a regular file, and an error otherwise; a url without a host is an error, a Zuul url becomes what the Zuul resolver gives, any other url becomes a Directory exactly when it ends with a slash. '
             'Rule 2 (rooted at Source::file_open): the file opened is the path itself; it is decompressed exactly when its extension is gz; a failing open is an error. '
             'Rule 3 (rooted at Source::url_open): the url requested and looked up is the whole url, with as base the url itself or the part of it before the base offset; with the cache on and off, a cached copy is decompressed, an answer of the network is read through the cache or as it is. '
             'Rule 4 (at every call of the two openers): the path, or both the base offset and the url, are those of one source.')
    p = ctx.prog()
    sim = Sim(ctx, p)
    for nm, f in (('Content::from_input', kinds), ('Source::file_open', local), ('Source::url_open', remote)):
        ks = [k for k in p.find(nm) if p.fns[k]['kind'] != 'closure']
        if ctx.need(len(ks) == 1, nm):
            f(ctx, sim, p, ks[0])
    callers_ok(ctx, sim, p)
