"""An HTTP error answer is never taken for content."""
from net import *

def run(ctx):
    ctx.rule('Rule: on every path from a request to a use of the response body (reading, decoding, wrapping in a reader, storing in the cache), the status was found to be a success '
             '(error_for_status returned Ok, or a branch on the status established it); rooted at each function sending a request and escalated to its callers when the '
             'response is returned unchecked; an availability probe answers exactly the success of the status.')
    p = ctx.prog()
    sim = Sim(ctx, p)
    sends = rx(r'^reqwest::blocking::(RequestBuilder::send|Client::execute|get)$')
    starts = direct_callers(p, sends)
    sites = p.cg().callers_of(sends)
    ctx.cov['request_sites'] = len(sites)
    seen = set()
    uses = set()

    def analyse(key, clean):
        bad = {}
        class C(Net):
            def sent(self, e, st, c, method, url):
                seen.add((c.fnkey, c.block))
            def body_use(self, e, st, c, resp):
                uses.add((c.fnkey, c.name))
                if raw(resp) and not checked(e, st, resp):
                    bad[(c.fnkey, c.name)] = '%s uses the body of a response whose status was not checked' % where(p, c.fnkey, c.block)
            def on_call(self, e, st, c):
                if c.name.endswith('Cache::remote_add'):
                    v = e.content(st, c.args[3])
                    for r in raws(e.snap(st, v)):
                        if not checked(e, st, r):
                            bad[(c.fnkey, c.name)] = '%s stores a response whose status was not checked' % where(p, c.fnkey, c.block)
                    s2 = st.copy()
                    return [(st, ok(mk('adt', 'cached', 0, v))), (s2, err(e.fresh(s2, c.site, 'cache')))]
                return self.net_call(e, st, c)
        e, out = sim.run(key, C(), interest=NET, cut=clean)
        for s, v in out:
            ctx.count('outcomes')
            v = e.snap(s, v)
            for r in raws(v):
                if r.a[1] is S('head'):
                    continue
                if not checked(e, s, r):
                    bad[(key, 'return')] = '%s hands out a response whose status was not checked' % p.display(key)
            # probes
            for x in subterms(v):
                if raw(x) and x.a[1] is S('head'):
                    good = {mk('call', 'is_success', mk('call', 'status', x)), }
                    b = v.a[2] if v.k == 'adt' and v.a[0] == RES and v.a[1] == 0 else v
                    if b not in good:
                        bad[(key, 'probe')] = '%s answers %s instead of the success of the status' % (p.display(key), b)
        return list(bad.items())
    for path, (k, msg) in escalate(p, starts, analyse):
        ctx.viol('status:%s:%s' % (p.display(k[0]), k[1]), msg + '\n  reached from ' + ' <- '.join(p.display(x) for x in path))
    # the probe: rooted where the HEAD request is built
    heads = direct_callers(p, rx(r'^reqwest::blocking::Client::head$'))
    for key in heads:
        class H(Net):
            keep = ()
            def on_call(self, e, st, c):
                return self.net_call(e, st, c)
            def sent(self, e, st, c, method, url):
                pass
            def send(self, e, st, c, req):
                r = Net.send(self, e, st, c, req)
                for s, v in r:
                    if v.a[1] == 0:
                        s.auto = s.auto + (v.a[2],)
                return r
        e, out = sim.run(key, H(), interest=NET)
        for s, v in out:
            v = e.snap(s, v)
            if not (v.k == 'adt' and v.a[0] == RES and v.a[1] == 0):
                continue
            b = v.a[2]
            ctx.count('probe_outcomes')
            for r in s.auto:
                t = mk('call', 'is_success', mk('call', 'status', r))
                if not (b is t or b is TRUE and checked(e, s, r) or b is FALSE and e.known(s, t) is FALSE):
                    ctx.viol('probe:' + p.display(key), '%s can answer %s whatever the status of the response' % (p.display(key), b))
            if not s.auto:
                ctx.viol('probe:' + p.display(key), '%s can answer %s without a response' % (p.display(key), b))
    for key, b, t, fn in sites:
        if (key, b) not in seen:
            ctx.viol('undecided:' + p.display(key), 'the request in %s was not reached by the analysis' % where(p, key, b))
        else:
            ctx.sample('%s: body only used after the status is known to be a success' % where(p, key, b))
    ctx.cov['body_uses'] = len(uses)
    ctx.floor('request_sites', 3)
    ctx.floor('probe_outcomes', 1)
