"""TLS verification is only disabled by LOGREDUCE_SSL_NO_VERIFY."""
from common import *

VAR = 'LOGREDUCE_SSL_NO_VERIFY'
DANGER = rx(r'::danger', r'tls_built_in_root_certs$', r'use_preconfigured_tls$', r'::dangerous$', r'tls_sni$')
CLIENTS = rx(r'^reqwest::(blocking::)?(client::)?Client(Builder)?::(new|builder|default|build)$', r'^reqwest::(blocking::)?get$')

def run(ctx):
    ctx.rule('Rule: with %s unset, the argument of every certificate/hostname verification switch evaluates to "verify" on every path '
             '(constant/branch-fact dataflow from each function that contains a switch, escalated to its callers when it depends on a parameter); '
             'the variable is never set by the program itself.' % VAR)
    p = ctx.prog()
    sim = Sim(ctx, p)
    pred = DANGER
    starts = direct_callers(p, pred)
    ctx.cov['switch_sites'] = len(p.cg().callers_of(pred))
    ctx.cov['client_constructions'] = len(p.cg().callers_of(CLIENTS))
    hits = set()

    def analyse(key, clean):
        bad = {}
        class C(Client):
            def on_call(self, e, st, c):
                r = env_call(e, st, c, unset=(VAR,))
                if r is not None:
                    return r
                if pred(c.name) or pred(c.decl):
                    hits.add((c.fnkey, c.block))
                    m = c.name.rsplit('::', 1)[-1]
                    want = TRUE if m in ('tls_built_in_root_certs', 'tls_sni') else FALSE
                    v = e.known(st, e.content(st, c.args[1])) if len(c.args) > 1 else None
                    if v is not want:
                        bad[(c.fnkey, m)] = '%s calls %s with %s although %s is unset' % (
                            where(p, c.fnkey, c.block), m, v, VAR)
                return None
        sim.run(key, C(), interest=lambda n: pred(n) or n.startswith('std::env::'), cut=clean)
        return list(bad.items())

    for path, (k, msg) in escalate(p, starts, analyse):
        ctx.viol('tls:%s:%s' % (p.display(k[0]), k[1]), msg + '\n  reached from ' + ' <- '.join(p.display(x) for x in path))
    # every switch must have been decided
    for key, b, t, fn in p.cg().callers_of(pred):
        if (key, b) not in hits:
            ctx.viol('tls-undecided:%s' % p.display(key), 'the verification switch in %s was not reached by the analysis' % where(p, key, b))
        else:
            ctx.sample('%s: %s is off when %s is unset' % (where(p, key, b), cname(fn), VAR))
    for key, b, t, fn in p.cg().callers_of(rx(r'^std::env::set_var$')):
        ctx.viol('set_var:%s' % p.display(key), '%s modifies the environment: the opt-in of the user can be forged' % where(p, key, b))
    ctx.floor('client_constructions', 2)
