"""Call graph over the extracted MIR: direct calls, function items used as values, closures built in a
body, and (for unresolved or dynamic calls) every workspace implementation of the called trait method."""
from mir import norm, callee_of, cname, cdecl

import re
_word = re.compile(r'\w+')
_none = frozenset()

class CG:
    def __init__(self, prog):
        self.p = prog
        self.succ = {}
        self.names = {}
        self.sites = {}          # callee name -> [(fnkey, block)]
        impls = {}
        for (tr, m, adt), k in prog.trait_impls.items():
            impls.setdefault(tr + '::' + m, []).append(k)
        self.impls = impls
        self.byadt = {}
        for (tr, m, adt), k in prog.trait_impls.items():
            if tr.startswith(('std::io::', 'std::iter::', 'std::fmt::Display', 'std::ops::')):
                self.byadt.setdefault(adt.rsplit('::', 1)[-1], set()).add(k)
        for k, f in prog.fns.items():
            s, n = set(), set()
            for b in f['blocks']:
                if b['c']:
                    continue
                for st in b['s']:
                    if st['s'] == '=':
                        self._rv(st['r'], s, n)
                t = b['t']
                if t['t'] == 'call':
                    fn = callee_of(t)
                    for o in t['a']:
                        self._op(o, s, n)
                    if fn is None:
                        self._op(t['f'], s, n)
                    else:
                        self._fn(fn, s, n)
                elif t['t'] == 'drop':
                    pass
            self.succ[k] = s
            self.names[k] = n
        self._reach = {}

    def _fn(self, fn, s, n):
        n.add(cname(fn))
        d = cdecl(fn)
        n.add(d)
        b = fn.get('body')
        if b and b in self.p.fns:
            s.add(b)
        elif fn.get('kind') in ('ext', 'shim'):
            # resolved library code without a body: it can call back into the trait implementations of the
            # workspace types it is instantiated with, or, through a trait object, into any implementation
            ta = ' '.join(fn.get('targs') or ())
            if 'dyn ' in ta:
                for k in self.impls.get(d, ()):
                    s.add(k)
            if ta:
                for w in set(_word.findall(ta)):
                    s |= self.byadt.get(w, _none)
        elif fn.get('kind') not in ('ctor', 'intrinsic'):
            for k in self.impls.get(d, ()):
                s.add(k)

    def _op(self, o, s, n):
        c = o.get('c')
        if c:
            if 'fn' in c:
                self._fn(c['fn'], s, n)
            if 'closure' in c and c['closure'] in self.p.fns:
                s.add(c['closure'])
            if 'promoted' in c:
                k = '%s#promoted%d' % (c['def'], c['promoted'])
                if k in self.p.fns:
                    s.add(k)
            elif 'def' in c and c['def'] in self.p.fns:
                s.add(c['def'])

    def _rv(self, r, s, n):
        for kk in ('o', 'a', 'b'):
            x = r.get(kk)
            if isinstance(x, dict) and 'c' in x:
                self._op(x, s, n)
        for o in r.get('ops', []):
            self._op(o, s, n)
        if r['k'] == 'agg' and r['a']['t'] == 'closure' and r['a']['def'] in self.p.fns:
            s.add(r['a']['def'])

    def closure(self, roots):
        seen = set(roots)
        work = list(roots)
        while work:
            k = work.pop()
            for x in self.succ.get(k, ()):
                if x not in seen:
                    seen.add(x)
                    work.append(x)
        return seen

    def with_str(self, text):
        """Bodies that mention the string constant text."""
        import json
        t = json.dumps(text)
        out = set()
        for k, f in self.p.fns.items():
            if not f['ext']:
                j = f.get('_js')
                if j is None:
                    j = f['_js'] = json.dumps(f['blocks'])
                if t in j:
                    out.add(k)
        return out

    def reaching(self, pred, cut=(), also=()):
        """Functions from which a callee whose name satisfies pred is reachable (themselves included),
        not counting what is only reachable through the functions in cut."""
        hit = {k for k, ns in self.names.items() if k not in cut and any(pred(x) for x in ns)} | {k for k in also if k not in cut}
        rev = {}
        for k, ss in self.succ.items():
            for x in ss:
                rev.setdefault(x, set()).add(k)
        seen = set(hit)
        work = list(hit)
        while work:
            k = work.pop()
            for x in rev.get(k, ()):
                if x not in seen and x not in cut:
                    seen.add(x)
                    work.append(x)
        return seen

    def callers_of(self, pred, ws_only=True):
        """[(fnkey, block, terminator, fn)] of call sites whose callee name satisfies pred."""
        out = []
        for k, f in self.p.fns.items():
            if ws_only and f['ext']:
                continue
            for i, t, fn in self.p.calls(k):
                if fn and (pred(cname(fn)) or pred(cdecl(fn))):
                    out.append((k, i, t, fn))
        return out

    def sccs(self, keys):
        """Strongly connected components with a cycle among keys."""
        import sys
        idx, low, on, st, out = {}, {}, set(), [], []
        cnt = [0]
        keys = set(keys)
        for root in sorted(keys):
            if root in idx:
                continue
            work = [(root, iter(sorted(x for x in self.succ.get(root, ()) if x in keys)))]
            idx[root] = low[root] = cnt[0]; cnt[0] += 1
            st.append(root); on.add(root)
            while work:
                u, it = work[-1]
                adv = False
                for v in it:
                    if v not in idx:
                        idx[v] = low[v] = cnt[0]; cnt[0] += 1
                        st.append(v); on.add(v)
                        work.append((v, iter(sorted(x for x in self.succ.get(v, ()) if x in keys))))
                        adv = True
                        break
                    elif v in on:
                        low[u] = min(low[u], idx[v])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    if len(comp) > 1 or u in self.succ.get(u, ()):
                        out.append(sorted(comp))
        return out
