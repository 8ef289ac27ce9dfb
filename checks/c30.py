"""A python capsule is only used as the type it was created with."""
from common import *

NEW = rx(r'(^|::)PyCapsule::new(_with_destructor)?$')
REF = rx(r'(^|::)PyCapsule::reference$')
NAME = rx(r'(^|::)PyCapsule::name$')
RAW = rx(r'(^|::)PyCapsule::(pointer|import|context|set_context)$', r'(^|::)ffi::PyCapsule_(GetPointer|Import|SetPointer|SetName)$')
SAME = rx(r'^pyo3::.*::(as_ref|into_ref|clone|clone_ref|deref|borrow|get|bind|downcast_unchecked)$', r'^std::(clone::Clone::clone|convert::AsRef::as_ref|ops::Deref::deref)$')
TEXT = ('to_bytes', 'to_bytes_with_nul', 'to_str', 'to_string_lossy', 'as_bytes', 'as_bytes_with_nul', 'as_ref', 'deref', 'to_string', 'into_owned', 'as_str', 'to_owned', 'as_c_str', 'unwrap')

GEN = lambda ty: re.search(r'(?<![\w:])[A-Z]\w*(?![\w:])', ty) is not None

def obj(t):
    """The python object behind references to it."""
    while True:
        if t.k == 'deref':
            t = t.a[0]
        elif t.k == 'call' and t.a[0] == 'pyobj':
            t = t.a[1]
        else:
            return t

def consts(t):
    out = set()
    for x in subterms(t):
        if x.k in ('s', 'by'):
            v = x.a[0]
            v = v.decode('utf-8', 'replace') if isinstance(v, bytes) else str(v)
            out.add(v.rstrip('\0'))
    return out

def capname(t):
    """The capsules whose names a term is the text of."""
    return {x.a[1] for x in subterms(t) if x.k == 'call' and x.a[0] == 'capname'}

class Caps(Client):
    """auto: set of (object, name it is known to have)."""
    def __init__(self, ctx, p, made):
        self.ctx, self.p, self.made = ctx, p, made
        self.bad = {}
        self.used = []
    def init(self):
        return frozenset()
    def on_branch(self, e, st, term, val):
        if term.k == 'op' and term.a[0] in ('Eq', 'Ne') and (val is TRUE) == (term.a[0] == 'Eq'):
            o, s = capname(term), consts(term)
            if len(o) == 1 and len(s) == 1:
                st.auto = st.auto | {(list(o)[0], list(s)[0])}
    def on_call(self, e, st, c):
        n = c.name
        last = n.rsplit('::', 1)[-1]
        if NEW(n):
            a = [e.snap(st, x) for x in c.args]
            s = consts(a[2])
            ty = e.concrete(c, c.fn['targs'][0]) if c.fn['targs'] else '?'
            self.made(where(self.p, c.fnkey, c.block), c.fnkey, list(s)[0] if len(s) == 1 else None, ty, a[2])
            return None
        if NAME(n):
            return [(st, mk('call', 'capname', obj(e.snap(st, c.args[0]))))]
        if REF(n):
            o = obj(e.snap(st, c.args[0]))
            self.used.append((where(self.p, c.fnkey, c.block), c.fnkey, e.concrete(c, c.fn['targs'][0]) if c.fn['targs'] else '?', {s for x, s in st.auto if x is o}))
            return None
        if c.args and SAME(n):
            return [(st, mk('call', 'pyobj', obj(e.snap(st, c.args[0]))))] if obj(e.snap(st, c.args[0])).k in ('init', 'fld', 'fresh') else None
        if c.args and last in TEXT:
            t = e.snap(st, c.args[0])
            if t.k == 'call' and t.a[0] in ('capname', 'captext'):
                x = mk('call', 'captext', t)
                if last == 'to_str':
                    s2 = st.copy()
                    return [(st, ok(x)), (s2, err(e.fresh(s2, c.site, 'utf8')))]
                return [(st, x)]
        return None

def run(ctx):
    ctx.rule('Rule: in the python bindings, the content of a capsule is referenced as a type T only on paths where the name of that very capsule was found equal to a constant N, and every capsule created under the name N holds a T; '
             'each name stands for one type; no capsule is read through raw pointers (path-sensitive typestate over the MIR of the bindings, rooted at each function that uses a capsule and escalated to its callers).')
    ctx.assumptions.append('Capsules with the names of this module are only created by this module.')
    p = ctx.prog('python')
    sim = Sim(ctx, p)
    CAP = lambda n: NEW(n) or REF(n) or NAME(n)
    table = {}
    def made(w, key, name, ty, term):
        if (w, name, ty) in seen:
            return
        seen.add((w, name, ty))
        ctx.count('capsules_created')
        if name is None:
            ctx.viol('new:name:' + p.display(key), '%s creates a capsule under the name %s, which is not one constant, or with a content of unknown type (%s)' % (w, term, ty))
        else:
            table.setdefault(name, {}).setdefault(ty, w)
    seen = set()
    news = direct_callers(p, NEW)
    def mk_new(key, clean):
        out = []
        def m(w, k, name, ty, term):
            if name is None or GEN(ty):
                out.append((k, w, ty, term))
            else:
                made(w, k, name, ty, term)
        sim.run(key, Caps(ctx, p, m), interest=lambda n: NEW(n), cut=clean)
        return out
    for path, (k, w, ty, term) in escalate(p, news, mk_new):
        made(w, k, None, ty, term)
    for name, tys in sorted(table.items()):
        ctx.sample('%s: %s' % (name, ', '.join(sorted(tys))))
        if len(tys) > 1:
            ctx.viol('types:' + name, 'capsules named %r are created with different types: %s' % (name, '; '.join('%s in %s' % x for x in sorted(tys.items()))))
    starts = direct_callers(p, REF)
    ctx.cov['functions_using_capsules'] = len(starts)
    def analyse(key, clean):
        cl = Caps(ctx, p, lambda *a: None)
        sim.run(key, cl, interest=CAP, cut=clean)
        bad = {}
        for w, k, ty, names in cl.used:
            ctx.count('capsule_uses')
            if not names:
                bad[(k, 'unchecked')] = '%s uses a capsule as %s without knowing its name' % (w, ty)
            elif not any(set(table.get(s, ())) == {ty} for s in names):
                bad[(k, 'type')] = '%s uses a capsule named %s as %s; capsules of that name hold %s' % (w, ' and '.join(sorted(names)), ty, ', '.join(sorted(x for s in names for x in table.get(s, ()))) or 'something unknown')
        return list(bad.items())
    for path, (k, msg) in escalate(p, starts, analyse):
        ctx.viol('use:%s:%s' % (p.display(k[0]), k[1]), msg + '\n  reached from ' + ' <- '.join(p.display(x) for x in path))
    g = p.cg()
    for k in p.ws_fns():
        for n in g.names.get(k, ()):
            ctx.count('calls_scanned')
            if RAW(n):
                ctx.viol('raw:' + p.display(k), '%s reads a capsule through %s' % (p.display(k), n))
    ctx.floor('capsules_created', 3)
    ctx.floor('capsule_uses', 3)
