"""Discovered baselines: successful builds of the same job, not the target itself, with available logs."""
from zuulapi import *

def run(ctx):
    ctx.rule('Rule: in Build::discover_baselines, a zuul::Build is created only from an element of the decoded answer to a builds query of the own api restricted to the own job name and to result=SUCCESS; '
             'on the path, the facts uuid != self.uuid and availability (head_url answered true for that very element\'s log_url) hold for that element, and every field '
             'is taken from the field of the same name of that element (path-sensitive value provenance, element-wise facts carried through filters and sorts).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    src = next((a for k, a in p.adts.items() if k.endswith('zuul_build::Build') or k == 'zuul_build::Build'), None)
    dst = next((a for k, a in p.adts.items() if k.endswith('logreduce_model::zuul::Build')), None)
    if not ctx.need(src and dst, 'types zuul_build::Build and zuul::Build'):
        return
    sf = [x[0] for x in src['variants'][0]['f']]
    df = [x[0] for x in dst['variants'][0]['f']]
    opts = {x[0] for x in src['variants'][0]['f'] if 'Option<' in x[1]}
    keys = [x for x in p.find('zuul::Build::discover_baselines') if p.fns[x]['kind'] != 'closure']
    keyz = [x for x in p.find('from_zuul_url') if p.fns[x]['kind'] != 'closure']
    if not ctx.need(len(keys) == 1 and len(keyz) == 1, 'discover_baselines and from_zuul_url'):
        return

    def bases(st, t):
        """The collection an element was taken from."""
        out = []
        for l in subterms(t):
            b = st.facts.get(mk('elemof', l))
            if b is not None:
                out.append(b)
        return out

    def fields(e, st, c, v):
        """The element of the answer all the fields come from, or None."""
        base = None
        for i, n in enumerate(df):
            if n == 'api':
                continue
            t = v.a[2 + i]
            j = sf.index(n) if n in sf else None
            if n in opts:
                ok_ = t.k == 'fld' and t.a[1:] == (1, 0) and t.a[0].k == 'fld' and t.a[0].a[2] == j
                b = t.a[0].a[0] if ok_ else None
            else:
                ok_ = t.k == 'fld' and t.a[2] == j
                b = t.a[0] if ok_ else None
            if not ok_ or (base is not None and b is not base):
                ctx.viol('field:' + n, '%s: the %s of the build is %s, not the %s of the decoded build\n%s' % (where(p, c.fnkey, c.block), n, t, n, st.trail()))
                return None
            base = b
            ctx.count('fields')
        return base

    # discovery
    key = keys[0]
    me = mk('deref', param(key, 0))
    def own(n):
        return mk('fld', me, 0, df.index(n))
    class C(Zuul):
        def made(self, e, st, c, v):
            ctx.count('baselines_created')
            at = where(p, c.fnkey, c.block)
            if v.k != 'adt' or len(v.a) != len(df) + 2:
                ctx.viol('shape', '%s: cannot decompose the build %s' % (at, v))
                return
            if v.a[2 + df.index('api')] is not own('api'):
                ctx.viol('api', '%s: the api of the baseline is %s' % (at, v.a[2 + df.index('api')]))
            x = fields(e, st, c, v)
            if x is None:
                return
            ctx.sample('%s: baseline from %s' % (at, x))
            ux = mk('fld', x, 0, sf.index('uuid'))
            if not any(e.known(st, E.simp_op('Eq', a, b)) is FALSE for a, b in ((own('uuid'), ux), (ux, own('uuid')))):
                ctx.viol('self', '%s: the target build itself may become its own baseline (uuid != self.uuid is not established for this element)\n%s' % (at, st.trail()))
            lx = mk('fld', mk('fld', x, 0, sf.index('log_url')), 1, 0)
            if ('available', lx) not in st.auto:
                ctx.viol('avail', '%s: a build is used as baseline without a positive answer for its own log_url\n%s' % (at, st.trail()))
            ds = [d for b in bases(st, x) + [x] for d in subterms(b) if d.k == 'call' and d.a[0] == 'decoded']
            if not ds:
                ctx.viol('origin', '%s: the build %s does not come from the answer of the api' % (at, x))
            for d in ds:
                a = d.a[1]
                if a.a[1] is not own('api'):
                    ctx.viol('base', '%s: the query is cached under %s' % (at, a.a[1]))
                pairs = {(t.a[2], t.a[3]) for t in subterms(a.a[2]) if t.k == 'adt' and t.a[0] == 'tuple' and len(t.a) == 4}
                flat = [t for t in subterms(a.a[2]) if t.k == 'cat']
                for k_, v_ in (('job_name', own('job_name')), ('result', E.S('SUCCESS'))):
                    got = {b for q, b in pairs if q is E.S(k_)}
                    if got != {v_}:
                        ctx.viol('query:' + k_, '%s: the query %s is not restricted to %s=%s' % (at, a.a[2], k_, v_))
                if own('api') not in subterms(a.a[2]):
                    ctx.viol('query:api', '%s: the query %s is not made to the own api' % (at, a.a[2]))
    e, outs = sim.run(key, C(), interest=EVENTS, also=zuul_fns(p))
    ctx.count('paths', len(outs))
    ctx.floor('baselines_created', 1)
    for st, v in outs:
        r = e.snap(st, v)
        if E.is_err(r) and not any(x[0] in ('failed', 'undecodable') for x in st.auto) and any(x[0] == 'decoded' for x in st.auto):
            ctx.viol('fails', '%s fails with %s after a proper answer of the api: an unusable build in the answer must be skipped\n%s' % (p.display(key), r.a[2], st.trail()))

    # the target
    key = keyz[0]
    class D(Zuul):
        def made(self, e, st, c, v):
            ctx.count('targets_created')
            at = where(p, c.fnkey, c.block)
            if v.k != 'adt' or len(v.a) != len(df) + 2:
                ctx.viol('shape-target', '%s: cannot decompose the build %s' % (at, v))
                return
            x = fields(e, st, c, v)
            if x is None:
                return
            ds = [d for d in subterms(x) if d.k == 'call' and d.a[0] == 'decoded']
            if not ds or ds[0].a[1].a[1] is not v.a[2 + df.index('api')]:
                ctx.viol('origin-target', '%s: the build %s does not come from the answer of its api %s' % (at, x, v.a[2 + df.index('api')]))
    e, outs = sim.run(key, D(), interest=EVENTS, also=zuul_fns(p))
    ctx.count('paths', len(outs))
    ctx.floor('targets_created', 1)
