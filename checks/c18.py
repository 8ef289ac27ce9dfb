"""The depth of the stack does not depend on the input."""
from common import *
from graph import CG
from mir import callee_of, cname, cdecl

DEPTH = 3
THREAD = rx(r'(^|::)(ThreadPool|Builder|Scope|Runtime|Handle)::(execute|spawn|spawn_blocking)$', r'^std::thread::spawn$', r'^(rayon|tokio)(::\w+)*::spawn\w*$')
SPLIT = ('split_once', 'rsplit_once')
SUBS = ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left_matches', 'trim_right_matches', 'as_ref', 'deref', 'borrow')
OSUBS = ('strip_prefix', 'strip_suffix', 'get')

class Calls(CG):
    """Calls between functions of the workspace that use the same stack: resolved calls, closures built and
    function items named in a body, implementations library code calls back by type. A call on a type
    parameter is left out: it goes to a component of the type of the caller, and types are finite."""
    def __init__(self, prog):
        self.p = prog
        g = prog.cg()
        self.impls = g.impls
        self.byadt = {}
        for (tr, m, adt), k in prog.trait_impls.items():
            if tr.startswith(('std::io::', 'std::iter::', 'std::fmt::Display', 'std::fmt::Debug', 'std::convert::', 'std::cmp::')):
                self.byadt.setdefault(adt.rsplit('::', 1)[-1], set()).add(k)
        self.succ = {}
        self.threads = 0
        for k in prog.ws_fns():
            f = prog.fns[k]
            s, n = set(), set()
            away = self.away(f)
            for b in f['blocks']:
                if b['c']:
                    continue
                for st in b['s']:
                    if st['s'] == '=':
                        r = st['r']
                        if r['k'] == 'agg' and r['a']['t'] == 'closure' and r['a']['def'] in away:
                            continue
                        self._rv(r, s, n)
                t = b['t']
                if t['t'] == 'call':
                    fn = callee_of(t)
                    if fn is not None and (THREAD(cname(fn)) or THREAD(cdecl(fn))):
                        self.threads += 1
                        continue
                    for o in t['a']:
                        self._op(o, s, n)
                    if fn is not None:
                        self._fn(fn, s, n)
                    else:
                        self._op(t['f'], s, n)
            self.succ[k] = {x for x in s if x in prog.fns and not prog.fns[x]['ext']}
    def _fn(self, fn, s, n):
        if fn.get('kind') == 'unresolved':
            if 'dyn ' in ' '.join(fn.get('targs') or ()):
                s.update(self.impls.get(cdecl(fn), ()))
            return
        CG._fn(self, fn, s, n)
    def away(self, f):
        """Closures that are only given to another thread."""
        at, use, mv = {}, {}, {}
        for b in f['blocks']:
            if b['c']:
                continue
            for st in b['s']:
                if st['s'] != '=':
                    continue
                r = st['r']
                if r['k'] == 'agg' and r['a']['t'] == 'closure':
                    at.setdefault(st['p']['l'], set()).add(r['a']['def'])
                elif r['k'] == 'use' and not st['p']['p']:
                    for l in locals_of(r):
                        mv.setdefault(l, set()).add(st['p']['l'])
                else:
                    for l in locals_of(r):
                        use.setdefault(l, set()).add('stmt')
            t = b['t']
            if t['t'] == 'call':
                fn = callee_of(t)
                thr = fn is not None and (THREAD(cname(fn)) or THREAD(cdecl(fn)))
                for o in t['a']:
                    for l in locals_of(o):
                        use.setdefault(l, set()).add('thread' if thr else 'call')
        out = set()
        for l, ds in at.items():
            seen, work = {l}, [l]
            while work:
                for y in mv.get(work.pop(), ()):
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            if set().union(*(use.get(x, set()) for x in seen)) == {'thread'}:
                out |= ds
        return out

def locals_of(x, out=None):
    out = [] if out is None else out
    if isinstance(x, dict):
        if isinstance(x.get('l'), int):
            out.append(x['l'])
        for v in x.values():
            if isinstance(v, (dict, list)):
                locals_of(v, out)
    elif isinstance(x, list):
        for v in x:
            locals_of(v, out)
    return out

class Nest(Client):
    """How deep does root come back to itself? auto: nothing; the nesting is that of the analysis."""
    merge_rets = True
    def __init__(self, root, comp):
        self.root, self.comp = root, comp
        self.depth = 1
        self.deep = 1
    def opaque(self, key):
        return False
    def on_call(self, e, st, c):
        b = c.fn and c.fn.get('body')
        if b != self.root:
            if c.name.rsplit('::', 1)[-1] in ('pop_front', 'pop_back', 'pop') and 'Option<' in c.dty and c.args:
                # what is known not to be empty gives an element
                a = c.args[0]
                loc = e.deep(st, a.a[0]) if a.k == 'ref' else (('D', a), ())
                empty = e.known(st, E.simp_op('Eq', e.length(st, e.snap(st, e.read(st, loc))), E.I(0)))
                out = []
                s2 = st.copy()
                if empty is not FALSE:
                    out.append((st, NONE))
                if empty is not TRUE:
                    e.write(s2, loc, e.fresh(s2, c.site, 'rest'))
                    out.append((s2, some(e.fresh(s2, c.site, 'front'))))
                return out
            return None
        self.depth += 1
        self.deep = max(self.deep, self.depth)
        old = e.stack
        try:
            if self.depth > DEPTH:
                return None
            e.stack = []
            return e.exec_fn(b, c.args, st, e.fid(c.fid, (c.block, 'nest', self.depth)))
        finally:
            e.stack = old
            self.depth -= 1

SUB = lambda base: mk('call', 'part_of', base)
BEFORE = lambda base, pat: mk('call', 'part_before', base, pat)
def base(t):
    """The base a text is known to be a part of."""
    while t.k == 'deref':
        t = t.a[0]
    return t.a[1] if t.k == 'call' and t.a[0] == 'part_of' else t

class Parts(Client):
    """Texts are only known as parts of the parameters, or as the part of one before a separator: a text
    without the separator. Whether they satisfy a predicate is unknown."""
    merge_rets = True
    def __init__(self, ctx, p, root):
        self.ctx, self.p, self.root = ctx, p, root
        self.bad = []
        self.n = 0
    def join_hint(self, a, b):
        x, y = base(a), base(b)
        return SUB(x) if x is y else None
    def text(self, e, st, v):
        v = e.snap(st, v)
        while v.k == 'deref':
            v = v.a[0]
        return v
    def pattern(self, e, st, v):
        """A pattern of the program text: there is a bounded number of them."""
        t = e.snap(st, v)
        for x in subterms(t):
            if x.k not in ('s', 'ch', 'i', 'adt', 'fn', 'ref', 'by'):
                return None
        return t
    def on_call(self, e, st, c):
        if c.fn and c.fn.get('body') == self.root:
            self.n += 1
            ok_ = []
            for i, a in enumerate(c.args):
                t = base(self.text(e, st, a))
                ok_.append(t.k == 'call' and t.a[0] == 'part_before' and t.a[1] is param(self.root, i))
            if not any(ok_):
                self.bad.append((c.fnkey, c.span if hasattr(c, 'span') else '', [str(self.text(e, st, a))[:60] for a in c.args]))
            else:
                self.ctx.count('nested_calls_on_a_part_before_a_separator')
            for a in c.args:
                if a.k == 'ref':
                    st = e.clobber(st, a) if hasattr(e, 'clobber') else st
            s2 = st.copy()
            return [(st, e.fresh(st, c.site, 'nested'))]
        last = c.name.rsplit('::', 1)[-1]
        if c.decl == 'std::ops::Index::index' and c.args and len(c.args) > 1 and 'str' in (c.aty[0] if c.aty else ''):
            w = base(self.text(e, st, c.args[0]))
            r = e.snap(st, c.args[1])
            i = r.a[2] if r.k == 'adt' and r.a[0].endswith('RangeTo') and len(r.a) > 2 else None
            return [(st, BEFORE(w, i.a[2]) if i is not None and i.k == 'call' and i.a[0] == 'first_of' and i.a[1] is w else SUB(w))]
        if c.name.startswith('str::') or c.decl.startswith('str::'):
            w = base(self.text(e, st, c.args[0])) if c.args else None
            if w is None:
                return None
            if last in SUBS:
                return [(st, SUB(w))]
            if last in OSUBS:
                return [(st, NONE), (st.copy(), some(SUB(w)))]
            if last in ('find', 'rfind') and len(c.args) > 1:
                pat = self.pattern(e, st, c.args[1])
                return [(st, NONE), (st.copy(), some(mk('call', 'first_of', w, pat) if last == 'find' and pat is not None else e.fresh(st, c.site, last)))]
            if last in SPLIT and len(c.args) > 1:
                pat = self.pattern(e, st, c.args[1])
                if pat is None:
                    return [(st, NONE), (st.copy(), some(mk('adt', 'tuple', 0, SUB(w), SUB(w))))]
                return [(st, NONE), (st.copy(), some(mk('adt', 'tuple', 0, BEFORE(w, pat) if last == 'split_once' else SUB(w), SUB(w))))]
            if last in ('len', 'is_empty') or 'bool' in c.dty or c.dty == 'usize':
                return [(st, e.fresh(st, c.site, last))]
        elif c.name.endswith('::is_match'):
            return [(st, TRUE), (st.copy(), FALSE)]
        return None

def recursive_types(p):
    """Types of the workspace which contain themselves (through a box, a vector, ...)."""
    import types
    ws = {}
    for k, a in p.adts.items():
        ws.setdefault(a.get('npath', k).rsplit('::', 1)[-1], set()).add(k)
    g = types.SimpleNamespace(succ={})
    for k, a in p.adts.items():
        out = set()
        for v in a['variants']:
            for f in v['f']:
                ty = re.sub(r"&('\w+ )?", '&', f[1])
                for m in re.finditer(r'(&?(?:mut )?)((?:\w+::)*)(\w+)', ty):
                    if not m.group(1).startswith('&'):
                        path = m.group(2) + m.group(3)
                        out |= {x for x in ws.get(m.group(3), ()) if x == path or x.endswith('::' + path) or not m.group(2)}
        g.succ[k] = out
    return CG.sccs(g, set(g.succ)), len(g.succ)

def run(ctx):
    ctx.rule('Rule: in the graph of the calls which use the same stack (resolved calls, closures, function items, implementations called back by library code; not closures handed to another thread), '
             'every cycle is bounded: either the function is shown to come back to itself at most a constant number of times (abstract interpretation through 3 nested activations), '
             'or every nested call is on the part of its text before a separator, which therefore cannot be split by the same separator again, so that the nesting is bounded by the number of separators. '
             'No type of the workspace contains itself, so that dropping, cloning or (de)serialising a value does not recurse.')
    p = ctx.prog()
    g = Calls(p)
    ctx.cov['functions'] = len(g.succ)
    ctx.cov['calls'] = sum(len(x) for x in g.succ.values())
    ctx.cov['closures_given_to_threads'] = g.threads
    rec, n = recursive_types(p)
    ctx.cov['types'] = n
    for comp in rec:
        ctx.viol('type:' + comp[0], 'values of %s contain values of the same type: dropping one uses a stack frame per level' % ' -> '.join(comp))
    sim = Sim(ctx, p)
    for comp in g.sccs(set(g.succ)):
        ctx.count('cycles')
        inside = set(comp)
        names = ' -> '.join(p.display(k) for k in comp)
        why = []
        for root in comp:
            if '{closure' in root.rsplit('::', 1)[-1]:
                continue
            rest = inside - {root}
            if any(set(c2) <= rest for c2 in g.sccs(rest)):
                continue
            n = Nest(root, inside)
            try:
                e, _ = sim.run(root, n, interest=lambda x: False, also=tuple(inside))
                left = [k for k in rest if not e.fn_visited.get(k)]
                if n.deep <= DEPTH and n.deep > 1 and not left:
                    ctx.sample('%s: nested at most %d times' % (p.display(root), n.deep - 1))
                    why = None
                    break
                why.append('%s comes back to itself without bound' % p.display(root))
            except E.Budget:
                pass
            q = Parts(ctx, p, root)
            e, _ = sim.run(root, q, interest=lambda x: False, also=tuple(inside))
            left = [k for k in rest if not e.fn_visited.get(k)]
            if q.n and not q.bad and not left:
                ctx.sample('%s: nested only on the part of a text before a separator (%d calls)' % (p.display(root), q.n))
                why = None
                break
            for k, sp, args in q.bad:
                why.append('%s calls it on %s' % (p.display(k), ', '.join(args)))
        if why is not None:
            ctx.viol('cycle:' + min(p.display(k) for k in comp), 'unbounded recursion %s: the stack grows with the input\n  %s' % (names, '\n  '.join(sorted(set(why)))))
    ctx.assumptions += ['Library code uses a bounded stack itself, and calls back workspace code only through the closures, function items and types it is given.']
    ctx.floor('functions', 250)
    ctx.floor('calls', 400)
