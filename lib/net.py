"""Abstract model of the HTTP client API (reqwest::blocking)."""
from common import *

NET = rx(r'^reqwest::')
METHODS = ('get', 'head', 'post', 'put', 'delete', 'patch', 'request')
SAFE = ('status', 'headers', 'url', 'error_for_status', 'error_for_status_ref', 'content_length', 'version', 'remote_addr', 'cookies', 'extensions')

class Net(Client):
    def init(self):
        return ()

    def sent(self, e, st, c, method, url):
        """A request leaves for the network."""

    def body_use(self, e, st, c, resp):
        """The body of a response is used."""

    def net_call(self, e, st, c):
        n = c.name
        m = n.rsplit('::', 1)[-1]
        if n.startswith('reqwest::'):
            if '::Client::' in n or n == 'reqwest::blocking::get':
                if m in METHODS:
                    i = 0 if n == 'reqwest::blocking::get' else 1
                    method, url = (S(m), e.snap(st, c.args[i])) if m != 'request' else (e.snap(st, c.args[1]), e.snap(st, c.args[2]))
                    req = mk('adt', 'req', 0, method, url)
                    if n == 'reqwest::blocking::get':
                        return self.send(e, st, c, req)
                    return [(st, req)]
                if m == 'execute':
                    return self.send(e, st, c, e.content(st, c.args[1]))
            if '::RequestBuilder::' in n:
                req = e.content(st, c.args[0])
                if m == 'send':
                    return self.send(e, st, c, req)
                if m == 'build':
                    s2 = st.copy()
                    return [(st, ok(req)), (s2, err(e.fresh(s2, c.site, 'reqwest')))]
                return [(st, req)]
            if '::Response::' in n:
                v = e.content(st, c.args[0])
                if m == 'error_for_status':
                    s2 = st.copy()
                    return [(st, ok(mk('call', 'okresp', v))), (s2, err(e.fresh(s2, c.site, 'status')))]
                if m == 'error_for_status_ref':
                    s2 = st.copy()
                    st.facts[mk('call', 'checked', v)] = TRUE
                    return [(st, ok(c.args[0])), (s2, err(e.fresh(s2, c.site, 'status')))]
                if m == 'status':
                    return [(st, mk('call', 'status', v))]
                if m not in SAFE:
                    self.body_use(e, st, c, v)
        if m.startswith('is_') and 'StatusCode' in n:
            v = e.snap(st, c.args[0])
            return [(st, e.known(st, mk('call', m, v)))]
        if c.decl.startswith('std::io::Read::') or n == 'std::io::copy' or n.startswith('serde_json::from_reader'):
            v = e.content(st, c.args[0])
            if raw(v):
                self.body_use(e, st, c, v)
        return None

    def send(self, e, st, c, req):
        if req.k == 'adt' and req.a[0] == 'req':
            method, url = req.a[2], req.a[3]
        else:
            method, url = S('?'), req
        self.sent(e, st, c, method, url)
        s2 = st.copy()
        r = mk('call', 'resp', method, url, e.fresh(st, c.site, 'conn'))
        return [(st, ok(r)), (s2, err(e.fresh(s2, c.site, 'send')))]

def raw(v):
    return v.k == 'call' and v.a[0] == 'resp'

def raws(v, out=None):
    """Response terms in v that did not go through error_for_status."""
    out = set() if out is None else out
    if v.k == 'call' and v.a[0] == 'okresp':
        return out
    if raw(v):
        out.add(v)
        return out
    if v.k == 'call' and v.a[0] in ('status',) or v.k == 'call' and v.a[0].startswith('is_'):
        return out
    if v.k == 'obj':
        raws(v.a[0], out)
        for _, x in v.a[1]:
            raws(x, out)
        return out
    for x in v.a:
        if isinstance(x, T):
            raws(x, out)
    return out

def checked(e, st, resp):
    """The status of the response is known to be a success on this path."""
    if resp.k == 'call' and resp.a[0] == 'okresp':
        return True
    status = mk('call', 'status', resp)
    k = lambda t: e.known(st, t)
    if k(mk('call', 'checked', resp)) is TRUE or k(mk('call', 'is_success', status)) is TRUE:
        return True
    if k(mk('call', 'is_client_error', status)) is FALSE and k(mk('call', 'is_server_error', status)) is FALSE:
        return True
    for t, v in st.facts.items():
        if v is TRUE and t.k == 'op' and t.a[0] == 'Eq' and status in t.a[1:] and any('OK' in repr(x) or repr(x) in ('200',) for x in t.a[1:] if x is not status):
            return True
    return False

from engine import S
