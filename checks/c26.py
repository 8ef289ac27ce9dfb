"""External scripts and styles of the report are pinned by their digest."""
from c25 import *

EXT = re.compile(r'''^\s*(src|href)\s*=\s*["']?\s*(https?:)?//''')
INT = re.compile(r'''^\s*integrity\s*=\s*(["'])(sha256-[A-Za-z0-9+/]{43}=|sha384-[A-Za-z0-9+/]{64}|sha512-[A-Za-z0-9+/]{86}==)\1\s*$''')
CO = re.compile(r'''^\s*crossorigin\s*=\s*(["'])anonymous\1\s*$''')

class Sri(Sinks):
    def __init__(self, ctx, prog):
        super().__init__(ctx, prog)
        self.ext = set()
    def judge(self, c, v, ctxt):
        pass
    def on_call(self, e, st, c):
        r = super().on_call(e, st, c)
        if r is not None and len(r) == 1 and c.name.startswith('html_builder::') and c.name.endswith('::attr'):
            v = e.content(st, c.args[0])
            return [(st, mk('call', 'node', *v.a[1:], e.snap(st, c.args[1])))] if v.k == 'call' and v.a[0] == 'node' else r
        return r
    def join_hint(self, a, b):
        if a.k == 'call' and b.k == 'call' and a.a[0] == 'node' == b.a[0] and a.a[1] is b.a[1]:
            # attributes that are certainly there, and addresses that may be
            keep = [x for x in a.a[2:] if x in b.a[2:]]
            url = [x for x in a.a[2:] + b.a[2:] if x not in keep and ''.join(t for k, t in self.parts(x) if k == 'text').lstrip().startswith(('src', 'href'))]
            return mk('call', 'node', a.a[1], *keep, *dict.fromkeys(url))
        return None
    def on_drop(self, e, st, v, ty, fnkey, block):
        v = e.content(st, v)
        if not (v.k == 'call' and v.a[0] == 'node'):
            return
        tag = v.a[1].a[0]
        if tag not in ('script', 'link'):
            return
        at = [''.join(x if k == 'text' else '\0' for k, x in self.parts(a)) for a in v.a[2:]]
        full = [''.join(str(x) for _, x in self.parts(a)) for a in v.a[2:]]
        self.ctx.count('elements_judged')
        w = where(self.p, fnkey, block)
        urls = [a for a in at if a.lstrip().startswith(('src', 'href'))]
        if not urls:
            return
        for a in urls:
            if '\0' in a:
                self.bad.setdefault('computed:' + tag, '%s: the address of a %s is not a constant' % (w, tag))
        if any(EXT.match(a) for a in urls):
            u = urls[0]
            self.ext.add(u)
            if not any(INT.match(a) for a in at):
                self.bad.setdefault('integrity:' + u, '%s: the external resource %s is not pinned by an integrity digest' % (w, u))
            if not any(CO.match(a) for a in at):
                self.bad.setdefault('crossorigin:' + u, '%s: the external resource %s is requested without crossorigin="anonymous"; browsers do not check its digest' % (w, u))

def run(ctx):
    ctx.rule('Rule: every script or link element with an external address, at the point where it is closed (dropped), carries an integrity attribute with a complete SHA-2 digest and '
             'crossorigin="anonymous"; its address is a constant (typestate of elements with constant propagation over the MIR).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    k = p.one('logreduce_report::render')
    if not ctx.need(k, 'logreduce_report::render'):
        return
    cl = Sri(ctx, p)
    rd = [q for q in p.ws_fns() if p.fns[q]['crate'] == 'logreduce_report']
    e, out = sim.run(k, cl, interest=lambda n: n.startswith('html_builder::') or 'fmt::Write::' in n, also=[q for q in rd if 'main' not in q])
    for kk, m in cl.bad.items():
        ctx.viol(kk, m)
    ctx.cov['external_resources'] = len(cl.ext)
    for x in sorted(cl.ext):
        ctx.sample(x)
    # raw markup in constants would escape the element builder
    import json
    for q in rd:
        j = json.dumps(p.fns[q]['blocks'])
        if re.search(r'<(script|link)\b', j):
            ctx.viol('raw-markup', '%s builds a script or link element by hand' % p.display(q))
    ctx.floor('external_resources', 1)
