"""Abstract model of the conversation with the Zuul API (reader + decoder)."""
from common import *

FROM = rx(r'(^|::)reader::from_url$')
DROP = rx(r'(^|::)reader::drop_url$')
HEAD = rx(r'(^|::)reader::head_url$')
DECODE = rx(r'^zuul_build::decode_builds?$', r'^serde_json::(de::)?from_(reader|str|slice)$')
BOX = rx(r'^std::boxed::Box::new$')
EVENTS = lambda n: FROM(n) or DROP(n) or HEAD(n) or DECODE(n) or BOX(n)

class Zuul(Client):
    """auto = frozenset of events."""
    templates = True
    def init(self):
        return frozenset()
    def ev(self, st, *x):
        st.auto = st.auto | {x}
    def made(self, e, st, c, v):
        """A zuul::Build content is created."""
    def on_call(self, e, st, c):
        n = c.name
        if FROM(n):
            b, u = e.snap(st, c.args[0]), e.snap(st, c.args[1])
            s2 = st.copy()
            self.ev(s2, 'failed')
            return [(st, ok(mk('call', 'answer', b, u))), (s2, err(e.fresh(s2, c.site, 'net')))]
        if DECODE(n):
            v = e.snap(st, c.args[0])
            a = next((t for t in subterms(v) if t.k == 'call' and t.a[0] == 'answer'), None)
            if a is None:
                return None
            s2 = st.copy()
            self.ev(st, 'decoded', a)
            self.ev(s2, 'undecodable', a.a[1], a.a[2])
            return [(st, ok(mk('call', 'decoded', a))), (s2, err(e.fresh(s2, c.site, 'json')))]
        if DROP(n):
            b, u = e.snap(st, c.args[0]), e.snap(st, c.args[1])
            s2 = st.copy()
            self.ev(st, 'dropped', b, u)
            self.ev(s2, 'dropped', b, u)
            return [(st, ok(E.UNIT)), (s2, err(e.fresh(s2, c.site, 'io')))]
        if HEAD(n):
            u = e.snap(st, c.args[1])
            s2, s3 = st.copy(), st.copy()
            self.ev(st, 'available', u)
            return [(st, ok(TRUE)), (s2, ok(FALSE)), (s3, err(e.fresh(s3, c.site, 'net')))]
        if BOX(n) and any('zuul::Build' in x for x in c.fn['targs']):
            self.made(e, st, c, e.snap(st, c.args[0]))
        return None

def zuul_fns(p):
    return [k for k in p.ws_fns() if p.fns[k]['npath'].startswith('logreduce_model::zuul::') or p.fns[k]['npath'].startswith('logreduce_model::Content::from_zuul')]

def payload(t):
    """The value inside an Option field."""
    return getproj(t, ('f', 1, 0))
