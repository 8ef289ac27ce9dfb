"""Loading and indexing of the facts emitted by the mirfacts driver."""
import json, glob, os, re, functools

def _bal(s, i):
    # s[i] == '<' ; index just after the matching '>'
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i-1] != '-':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return n

@functools.lru_cache(maxsize=None)
def norm(p):
    """Normalise a printed path: no generic arguments, core/alloc spelled std,
    `<X as Trait>::m` spelled `X::m`."""
    if p is None:
        return ''
    s = p
    if s.startswith('<'):
        j = _bal(s, 0)
        inner, rest = s[1:j-1], s[j:]
        # split on top level ' as '
        d = 0
        cut = None
        for i, c in enumerate(inner):
            if c == '<':
                d += 1
            elif c == '>' and inner[i-1] != '-':
                d -= 1
            elif d == 0 and inner.startswith(' as ', i):
                cut = i
                break
        if cut is not None:
            inner = inner[:cut]
        inner = inner.strip()
        s = (norm(inner) if not inner.startswith('<') else norm(inner)) + rest
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            j = _bal(s, i)
            seg = s[i:j]
            if seg.startswith('<impl '):
                # <impl Trait for X>::m  ->  X
                body = seg[6:-1]
                if ' for ' in body:
                    body = body.split(' for ', 1)[1]
                # keep the module prefix out
                out = [norm(body)]
            else:
                if len(out) >= 2 and out[-1] == ':' and out[-2] == ':':
                    out = out[:-2]
            i = j
            continue
        out.append(c)
        i += 1
    s = ''.join(out)
    s = re.sub(r"&('\w+ )?(mut )?", '', s)
    if s.startswith('core::') or s.startswith('alloc::'):
        s = 'std::' + s.split('::', 1)[1]
    return s

def strip_ty(t):
    return norm(t)

class Prog:
    def __init__(self, dirs):
        self.fns = {}
        self._cg = None
        self._pure = {}
        self.adts = {}
        self.crates = {}
        for d in ([dirs] if isinstance(dirs, str) else dirs):
            for f in sorted(glob.glob(os.path.join(d, '*.json'))):
                j = json.load(open(f))
                self.crates.setdefault(j['crate'], []).append(os.path.basename(f))
                for k, v in j['fns'].items():
                    v['crate'] = j['crate']
                    v['npath'] = norm(v['path'])
                    if k in self.fns and not v['ext'] and self.fns[k]['kind'] != v['kind']:
                        pass
                    if k not in self.fns or not v['ext']:
                        self.fns[k] = v
                for k, v in j['adts'].items():
                    if k not in self.adts:
                        v['npath'] = norm(v['path'])
                        self.adts[k] = v
        # discriminant -> variant
        for a in self.adts.values():
            a['d2v'] = {v['d']: i for i, v in enumerate(a['variants'])}
        # name closures after their parent
        for k, v in self.fns.items():
            if v['kind'] in ('closure', 'promoted') or '::{' in k.split('#')[0].rsplit('::', 1)[-1]:
                pass
        # canonical names of the workspace functions: <path of the type>::<method>, whatever the module of the impl
        self._by_cpath = {}
        for k, v in self.fns.items():
            if not v['ext'] and v['kind'] in ('fn', 'method'):
                a = v.get('implself_adt')
                v['npath'] = (a + '::' + v['path'].rsplit('::', 1)[-1]) if a and v['kind'] == 'method' else re.sub(r'::\{impl#\d+\}', '', k)
                segs = v['npath'].split('::')
                for i in range(len(segs)):
                    self._by_cpath.setdefault('::'.join(segs[i:]), []).append(k)
        seen = set()
        for v in self.fns.values():
            for b in v['blocks']:
                t = b['t']
                if t['t'] == 'call':
                    self._canon(callee_of(t))
                    for o in t['a']:
                        self._canon((o.get('c') or {}).get('fn'))
                for st in b['s']:
                    if st['s'] == '=':
                        r = st['r']
                        for o in [r.get('o'), r.get('a'), r.get('b')] + r.get('ops', []):
                            if isinstance(o, dict) and 'c' in o:
                                self._canon(o['c'].get('fn'))
        self.iter_impls = {}   # adt key -> fn key of Iterator::next
        self.read_impls = {}
        self.trait_impls = {}  # (trait, method, adt) -> key
        for k, v in self.fns.items():
            if v['ext'] or v['kind'] != 'method':
                continue
            tr = norm(v.get('impltrait') or '')
            m = v['path'].rsplit('::', 1)[-1]
            a = v.get('implself_adt')
            if tr and a:
                self.trait_impls[(tr, m, a)] = k
                if tr == 'std::iter::Iterator' and m == 'next':
                    self.iter_impls[a] = k

    def _canon(self, fn):
        if fn:
            f = self.fns.get(fn.get('body') or fn.get('key') or '')
            if f is not None and not f['ext'] and f['kind'] in ('fn', 'method'):
                fn['path'] = f['npath']

    def cg(self):
        if self._cg is None:
            from graph import CG
            self._cg = CG(self)
        return self._cg

    def pure_fn(self, key):
        """No I/O, environment, time, randomness or shared state is reachable and no argument is mutable."""
        r = self._pure.get(key)
        if r is None:
            from engine import IMPURE_PREFIX
            f = self.fns[key]
            r = not any('&mut' in f['locals'][i + 1][0] for i in range(f['argc']))
            if r:
                g = self.cg()
                for k in g.closure([key]):
                    if any(n.startswith(IMPURE_PREFIX) or n.startswith(('reqwest::', 'rand', 'xdg::', 'walkdir::WalkDir', 'tracing', 'threadpool')) for n in g.names[k]):
                        if all(n.startswith('tracing') for n in g.names[k] if n.startswith(IMPURE_PREFIX) or n.startswith(('reqwest::', 'rand', 'xdg::', 'walkdir::WalkDir', 'tracing', 'threadpool'))):
                            continue
                        r = False
                        break
            self._pure[key] = r
        return r

    def find(self, npath):
        """Keys of the workspace functions whose canonical path is, or ends with, npath."""
        return self._by_cpath.get(npath, [])

    def one(self, name):
        """The function with that (suffix of a) canonical path; None if there is none or more than one."""
        ks = self.find(name)
        return ks[0] if len(ks) == 1 else None

    def display(self, key):
        """Human-readable, line-free name of a function (closures after their parent)."""
        base = key.split('#')[0]
        f = self.fns.get(key) or self.fns.get(base)
        if f is None:
            return base
        if f['kind'] == 'closure' or base not in self.fns:
            m = re.match(r'(.*?)::\{closure#(\d+)\}(.*)', base)
            if m and m.group(1) in self.fns:
                return self.fns[m.group(1)]['npath'] + '::{closure}'
        return f['npath']

    def ws_fns(self):
        return [k for k, v in self.fns.items() if not v['ext'] and v['kind'] in ('fn', 'method', 'closure')]

    def calls(self, key):
        """(block index, terminator, callee operand dict or None) of a body's reachable calls."""
        f = self.fns[key]
        for i, b in enumerate(f['blocks']):
            if b['c']:
                continue
            t = b['t']
            if t['t'] == 'call':
                yield i, t, callee_of(t)

def callee_of(t):
    c = t['f'].get('c')
    return c.get('fn') if c else None

def cname(fn):
    """Resolved normalised name."""
    return norm(fn.get('path') or fn['decl'])

def cdecl(fn):
    return norm(fn['decl'])
