"""The crawler of http listings: what a task does with every link, and what becomes of the messages.

Automaton facts of a task
  ('got', u)         a page was requested from u        ('unchecked',)  its status was not looked at yet
  ('failed', w)      something failed                   ('reported',)   an error was sent
  ('item', x)        link x in hand                     ('done', how)   it was listed, sent, descended, skipped
  ('pend',)          links were collected that were not gone through yet
  ('end',)           all the links were gone through"""
from common import *
import models

URL = r'(^|::)Url::'
IS_EXEC = rx(r'^threadpool::ThreadPool::execute$', r'^std::thread::(spawn|Builder::spawn|Scope::spawn)$')
SEND = rx(r'^std::sync::mpsc::(Sync)?Sender::send$')
EVENTS = lambda n: n.startswith(('threadpool::', 'std::sync::mpsc::', 'reqwest::', 'regex::')) or '::Url::' in n or n.startswith('url::')

def pathlen(u):
    return mk('call', 'len', mk('call', 'urlpath', u))

class Crawl(Client):
    templates = True
    keep_init = True
    def __init__(self, ctx, prog, root):
        self.ctx, self.p, self.root = ctx, prog, root
        self.bad = {}
        self.tasks = []
        self.task = None
    def init(self):
        return frozenset()
    def say(self, key, msg, st=None):
        self.bad.setdefault(key, '%s: %s%s' % (self.p.display(self.root), msg, '\n' + st.trail() if st else ''))
    def get(self, st, k):
        return [x for x in st.auto if x[0] == k]
    def add(self, st, *x):
        st.auto = st.auto | {x}
    def rm(self, st, *ks):
        st.auto = frozenset(x for x in st.auto if x[0] not in ks)
    def cur(self, st, k):
        xs = self.get(st, k)
        return xs[0][1] if xs else None
    def fail(self, e, st, c, what):
        s = st.copy()
        self.add(s, 'failed', what)
        return s, err(e.fresh(s, c.site + (what,), what))
    # ---- items
    def boundary(self, e, st):
        x = self.cur(st, 'item')
        if x is not None:
            self.ctx.count('links_judged')
            if not self.get(st, 'done') and not self.get(st, 'failed'):
                self.say('link', '%s' % ('a file that was found is not in the list' if x.a[0] == 'file' else 'a link of a listing is neither sent as a file nor visited'), st)
        self.rm(st, 'item', 'done')
    def excused(self, e, st, x):
        for k, v in st.facts.items():
            if not any(y is x for y in subterms(k)):
                continue
            if v is TRUE and k.k == 'call' and k.a[0].split('::')[-1] in ('ends_with', 'contains') and any(y.k == 's' and y.a[0].rstrip('/').endswith('/etc') for y in subterms(k)):
                return True
            if v is FALSE and self.deeper(k, x) or v is TRUE and self.not_deeper(k, x):
                return True
        return False
    def on_branch(self, e, st, term, val):
        x = self.cur(st, 'item')
        if x is not None and not self.get(st, 'done') and self.excused(e, st, x):
            self.add(st, 'done', 'skipped')
            self.ctx.count('links_skipped')
    def lens(self, k):
        """(shorter, longer) when k says that the path of one url is shorter than that of another."""
        if k.k == 'op' and k.a[0] in ('Lt', 'Le'):
            return k.a[0], self.stripd(k.a[1]), self.stripd(k.a[2])
        return None
    def stripd(self, t):
        while t.k == 'deref':
            t = t.a[0]
        return t
    def is_parent_len(self, t):
        return self.task is not None and t is pathlen(self.task)
    def is_len_of(self, t, x):
        return t.k == 'call' and t.a[0] == 'len' and t.a[1].k == 'call' and t.a[1].a[0] == 'urlpath' and any(y is x for y in subterms(t))
    def deeper(self, k, x):
        l = self.lens(k)
        return l is not None and l[0] == 'Lt' and self.is_parent_len(l[1]) and self.is_len_of(l[2], x)
    def not_deeper(self, k, x):
        l = self.lens(k)
        return l is not None and l[0] == 'Le' and self.is_len_of(l[1], x) and self.is_parent_len(l[2])
    def link_of(self, t):
        for y in subterms(t):
            if y.k == 'call' and y.a[0] == 'joined':
                return y
        return None
    def kept(self, e, st, x, how):
        """x went into a collection."""
        x = e.snap(st, x)
        if E.is_err(x):
            return
        if E.is_ok(x):
            x = x.a[2]
        i = self.cur(st, 'item')
        if i is None:
            return
        if any(y is i for y in subterms(x)):
            self.add(st, 'done', how)
            self.add(st, 'pend')
    def on_collect(self, e, st, x, site):
        self.kept(e, st, x, 'listed')
    def on_extend(self, e, st, loc, x, site):
        self.kept(e, st, x, 'listed')
    def next_items(self, e, st, loc, v, site):
        w = e.snap(st, v.a[2]) if v.k == 'adt' and v.a[0] == 'it:seq' else v
        while w.k == 'deref':
            w = w.a[0]
        if w.k == 'coll' and self.link_of(w.a[1]) is not None:
            self.boundary(e, st)
            self.rm(st, 'pend', 'end')
            s1, s2 = st.copy(), st.copy()
            x = models.inst(e, s1, w.a[1], site + ('again',))
            self.add(s1, 'item', self.link_of(x))
            self.add(s2, 'end')
            self.ctx.count('link_visits')
            return [(s2, NONE), (s1, some(x))]
        if w.k == 'call' and w.a[0] == 'msgs':
            self.boundary(e, st)
            s1, s2, s3, s4 = st.copy(), st.copy(), st.copy(), st.copy()
            x = mk('call', 'file', e.fresh(s1, site + ('msg',), 'msg'))
            self.add(s1, 'item', x)
            self.add(s2, 'failed', 'message')
            self.add(s3, 'end')
            self.ctx.count('message_visits')
            return [(s3, NONE), (s4, some(NONE)), (s1, some(some(ok(x)))), (s2, some(some(err(e.fresh(s2, site + ('msgerr',), 'msgerr')))))]
        if w.k == 'call' and w.a[0] == 'caps':
            self.boundary(e, st)
            self.rm(st, 'end')
            s1, s2 = st.copy(), st.copy()
            x = mk('call', 'cap', e.fresh(s1, site + ('cap',), 'cap'))
            self.add(s1, 'item', x)
            self.add(s2, 'end')
            self.ctx.count('link_visits')
            return [(s2, NONE), (s1, some(x))]
        return None
    # ---- calls
    def on_call(self, e, st, c):
        n, d = c.name, c.decl
        last = n.rsplit('::', 1)[-1]
        if IS_EXEC(n):
            return self.execute(e, st, c)
        if SEND(n):
            return self.send(e, st, c)
        if n.startswith('std::sync::mpsc::') or n.startswith('threadpool::'):
            r = self.pool(e, st, c, n, last)
            if r is not None:
                return r
        if n.startswith('reqwest::') and not re.search(URL, n):
            return self.http(e, st, c, n, last)
        if re.search(URL, n):
            return self.url(e, st, c, n, last)
        if n.startswith('regex::'):
            return self.regex(e, st, c, n, last)
        if n in ('std::vec::Vec::push', 'std::vec::Vec::insert'):
            self.kept(e, st, c.args[-1], 'listed')
        return None
    def pool(self, e, st, c, n, last):
        if n.startswith('threadpool::ThreadPool::'):
            if last == 'join':
                self.add(st, 'joined')
                return [(st, E.UNIT)]
            if last == 'panic_count':
                return [(st, mk('call', 'panics'))]
        if n.startswith('std::sync::mpsc::Receiver::') and last in ('try_iter', 'iter', 'into_iter'):
            if not self.get(st, 'joined'):
                self.say('early', 'the messages are looked at before the tasks are over', st)
            return [(st, mk('call', 'msgs'))]
        return None
    def http(self, e, st, c, n, last):
        if '::Client::' in n or n == 'reqwest::blocking::get':
            if last in ('get', 'head', 'post', 'put', 'delete', 'patch', 'request'):
                u = e.snap(st, c.args[-1])
                self.ctx.count('requests')
                if last != 'get':
                    self.say('method', 'a listing is requested with %s' % last, st)
                if self.task is not None and u is not self.task:
                    self.say('url', 'requests %s instead of the url to list' % u, st)
                self.add(st, 'got')
                req = mk('call', 'rq', u)
                return self.sent(e, st, c, req) if n.endswith('blocking::get') else [(st, req)]
            return None
        if '::RequestBuilder::' in n:
            r = e.content(st, c.args[0])
            return self.sent(e, st, c, r) if last == 'send' else [(st, r)]
        if '::Response::' in n:
            r = e.content(st, c.args[0])
            if last == 'error_for_status':
                s2, x = self.fail(e, st, c, 'status')
                self.rm(st, 'unchecked')
                return [(st, ok(r)), (s2, x)]
            if last == 'error_for_status_ref':
                s2, x = self.fail(e, st, c, 'status')
                self.rm(st, 'unchecked')
                return [(st, ok(c.args[0])), (s2, x)]
            if last == 'status':
                return [(st, mk('call', 'status', r))]
            if last == 'url':
                return [(st, models.tmpref(e, st, mk('call', 'respurl', r.a[1]), c.site + ('u',)))]
            if last in ('text', 'text_with_charset', 'bytes'):
                if self.get(st, 'unchecked'):
                    self.say('status', 'the body of a failed response is taken for a listing', st)
                s2, x = self.fail(e, st, c, 'body')
                return [(st, ok(mk('call', 'page', r.a[1]))), (s2, x)]
            return None
        if 'StatusCode::is_' in n:
            s2 = st.copy()
            self.add(s2, 'failed', 'status')
            good = last == 'is_success'
            bad = last in ('is_client_error', 'is_server_error')
            if good:
                self.rm(st, 'unchecked')
                return [(st, TRUE), (s2, FALSE)]
        return None
    def sent(self, e, st, c, r):
        s2, x = self.fail(e, st, c, 'request')
        self.add(st, 'unchecked')
        return [(st, ok(mk('call', 'resp', r.a[1]))), (s2, x)]
    def url(self, e, st, c, n, last):
        if last == 'path':
            return [(st, mk('call', 'urlpath', e.snap(st, c.args[0])))]
        if last == 'join':
            b, l = e.snap(st, c.args[0]), e.snap(st, c.args[1])
            caps = [y for y in subterms(l) if y.k == 'call' and y.a[0] == 'cap']
            if not caps:
                return None
            if not (b.k == 'call' and b.a[0] == 'respurl' or b is self.task):
                self.say('base', 'a link is resolved against %s instead of the url of the listing' % b, st)
            if not (l.k == 'call' and l.a[0] == 'link'):
                self.say('text', 'a link is changed before it is resolved: %s' % l, st)
            s2, x = self.fail(e, st, c, 'link')
            j = mk('call', 'joined', caps[0])
            return [(st, ok(j)), (s2, x)]
        if last == 'set_path':
            u = e.snap(st, c.args[0])
            loc = e.deep(st, c.args[0].a[0])
            e.write(st, loc, mk('call', 'withpath', u, e.snap(st, c.args[1])))
            return [(st, E.UNIT)]
        return None
    def regex(self, e, st, c, n, last):
        if last in ('captures_iter', 'find_iter'):
            t = e.snap(st, c.args[1])
            if not any(y.k == 'call' and y.a[0] == 'page' for y in subterms(t)):
                return None
            if not (t.k == 'call' and t.a[0] == 'page'):
                self.say('page', 'only a part of the page is searched for links: %s' % t, st)
            return [(st, mk('call', 'caps', t))]
        if c.args:
            x = e.content(st, c.args[0])
            if x.k == 'call' and x.a[0] == 'cap':
                if last in ('get', 'name'):
                    return [(st, some(mk('call', 'link', x)))]
                if last in ('index', 'as_str', 'extract'):
                    return [(st, mk('call', 'link', x))] if last != 'extract' else None
            if x.k == 'call' and x.a[0] == 'link':
                return [(st, x)]
        return None
    def execute(self, e, st, c):
        v = e.snap(st, c.args[-1])
        self.ctx.count('tasks_started')
        if not self.ctx.need(v.k == 'adt' and v.a[0].startswith('closure:'), 'the task given to the pool at %s' % where(self.p, c.fnkey, c.block)):
            return [(st, E.UNIT)]
        i = self.cur(st, 'item')
        self.tasks.append((st, v))
        if self.task is not None:
            self.nested(e, st, v, i)
        self.add(st, 'done', 'visited')
        self.add(st, 'started')
        return [(st, E.UNIT)]
    def urls_of(self, v):
        """The urls a task takes along."""
        t = self.p.fns.get(v.a[0][8:])
        return [x for x in v.a[2:]]
    def nested(self, e, st, v, i):
        if i is None or not any(y is i for x in v.a[2:] for y in subterms(x)):
            self.say('visit', 'a page is visited that is not the link in hand', st)
            return
        dirs = [x for x in v.a[2:] if x is i or x.k == 'call' and x.a[0] == 'withpath' and x.a[1] is i]
        if not dirs:
            self.say('visit', 'the page that is visited is not the link in hand: %s' % v, st)
            return
        x = dirs[0]
        if any(self.deeper(k, i) and f is TRUE or self.not_deeper(k, i) and f is FALSE for k, f in st.facts.items() if any(y is i for y in subterms(k)) and pathlen(x) in k.a):
            return
        self.say('deeper', 'a page is visited although its path is not known to be longer than that of the page that links to it', st)
    def send(self, e, st, c):
        m = e.snap(st, c.args[1])
        v = m
        if m.k == 'adt' and m.a[0].endswith('Option'):
            v = m.a[2] if m.a[1] == 1 else None
        if v is not None and E.is_err(v):
            self.add(st, 'reported')
        elif v is not None:
            u = v.a[2] if E.is_ok(v) else v
            i = self.cur(st, 'item')
            self.ctx.count('files_sent')
            if i is None or u is not i:
                self.say('sent', 'sends %s, which is not the link in hand' % u, st)
            else:
                if not any(k.k == 'call' and k.a[0].split('::')[-1] == 'ends_with' and k.a[2] in (mk('ch', 47), E.S('/')) and k.a[1] is mk('call', 'urlpath', i) and f is FALSE for k, f in st.facts.items()):
                    self.say('dir', 'a link is sent as a file although it may be a directory', st)
                if self.get(st, 'done'):
                    self.say('twice', 'a link is sent twice, or both sent and visited', st)
                self.add(st, 'done', 'sent')
        return [(st, ok(E.UNIT))]


def subst(t, old, new, memo=None):
    memo = {} if memo is None else memo
    if t is old:
        return new
    if not isinstance(t, T) or not any(isinstance(x, T) for x in t.a):
        return t
    if t not in memo:
        memo[t] = mk(t.k, *[subst(x, old, new, memo) if isinstance(x, T) else x for x in t.a])
    return memo[t]

TASK = mk('init', ('A', 'the url of the task', 0))

def tasks(ctx, found):
    """Interpret every kind of task the tasks in found lead to. Yields (client, outcomes)."""
    p = ctx.prog()
    sim = Sim(ctx, p)
    seen = set()
    work = list(found)
    while work:
        v, url = work.pop()
        w = subst(v, url, TASK)
        if w in seen or len(seen) > 8:
            continue
        seen.add(w)
        key = w.a[0][8:]
        cl = Crawl(ctx, p, key)
        cl.task = TASK
        e, outs = sim.run(key, cl, interest=EVENTS, args={0: w})
        ctx.count('kinds_of_task')
        for st, x in cl.tasks:
            us = [y for y in x.a[2:] if cl.link_of(y) is not None and y.k == 'call' and y.a[0] in ('joined', 'withpath')]
            if us:
                work.append((x, us[0]))
        yield cl, e, outs

def listing(ctx):
    """Crawler::list. Returns (client, engine, outcomes) and the tasks it starts."""
    p = ctx.prog()
    k = p.one('httpdir::Crawler::list')
    cl = Crawl(ctx, p, k)
    e, outs = Sim(ctx, p).run(k, cl, interest=EVENTS)
    url = param(k, 1)
    return cl, e, outs, [(v, url) for st, v in cl.tasks if url in v.a[2:]], url
