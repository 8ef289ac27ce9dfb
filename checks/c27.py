"""The crawler: every link is sent or visited, every failure is reported, and list() returns all of it."""
from crawl import *

def run(ctx):
    ctx.rule('Rule: a task of the crawler requests its url once; every link of the page is resolved against the url of the page and then sent as a file (only when it is known not to be a directory), visited, or skipped because it ends with /etc/ or its path is not longer; '
             'a failed request, status, body or link makes the task send an error. Crawler::list starts the task of its url, waits for all tasks before it looks at the messages, returns every file sent and fails on an error message or a panic.')
    cl, e, outs, found, url = listing(ctx)
    p = ctx.prog()
    good = 0
    for st, v in outs:
        r = e.snap(st, v)
        if not ctx.need(E.is_ok(r) or E.is_err(r), 'what Crawler::list returns: %s' % r):
            continue
        if E.is_err(r):
            continue
        good += 1
        cl.boundary(e, st)
        if not cl.get(st, 'started') and not any(k.k == 'op' and k.a[0] == 'Lt' and k.a[1] is E.I(0) and f is FALSE or k.k == 'op' and k.a[0] in ('Eq', 'Le') and f is TRUE for k, f in st.facts.items() if pathlen(url) in k.a):
            cl.say('start', 'returns a list although the url was not visited', st)
        if cl.get(st, 'failed'):
            cl.say('error', 'returns a list although a task reported an error', st)
        if not cl.get(st, 'end'):
            cl.say('all', 'returns a list before it went through all the messages', st)
        if e.known(st, E.simp_op('Lt', E.I(0), mk('call', 'panics'))) is not FALSE and e.known(st, E.simp_op('Eq', mk('call', 'panics'), E.I(0))) is not TRUE:
            cl.say('panic', 'returns a list although a task may have panicked', st)
    ctx.need(good, 'a path of Crawler::list that returns a list')
    ctx.need(found, 'the task that Crawler::list starts for its url')
    bad = dict(cl.bad)
    n = 0
    for c2, e2, o2 in tasks(ctx, found):
        for st, v in o2:
            n += 1
            c2.boundary(e2, st)
            if c2.get(st, 'failed') and not c2.get(st, 'reported'):
                c2.say('silent', 'a failure (%s) is not reported' % c2.get(st, 'failed')[0][1], st)
            if c2.get(st, 'reported') and not c2.get(st, 'failed'):
                c2.say('noerror', 'reports an error although nothing failed', st)
            if not c2.get(st, 'failed') and (not c2.get(st, 'end') or c2.get(st, 'pend')):
                c2.say('all', 'ends before it went through all the links', st)
            if not c2.get(st, 'got'):
                c2.say('request', 'ends without a request', st)
        for k, m in c2.bad.items():
            bad.setdefault('task:' + k, m)
    ctx.count('task_outcomes', n)
    for k, m in bad.items():
        if k.split(':')[-1] not in ('deeper', 'visit'):
            ctx.viol(k, m)
    ctx.floor('requests', 1)
    ctx.floor('links_judged', 2)
    ctx.floor('link_visits', 2)
    ctx.floor('files_sent', 1)
    ctx.floor('message_visits', 1)
    ctx.floor('tasks_started', 2)
