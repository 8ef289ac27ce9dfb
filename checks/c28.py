"""The crawler only goes down: the path of a page that is visited is longer than that of the page that links to it."""
from crawl import *

def run(ctx):
    ctx.rule('Rule: at every point where a task of the crawler starts another one, the page to visit is the link in hand (or its directory) and its path is known to be longer than the path of the page of the running task. '
             'The tasks are interpreted for every kind of state they are started with.')
    cl, e, outs, found, url = listing(ctx)
    ctx.need(found, 'the task that Crawler::list starts for its url')
    n = 0
    bad = {}
    for c2, e2, o2 in tasks(ctx, found):
        n += len(c2.tasks)
        for k, m in c2.bad.items():
            bad.setdefault(k, m)
    ctx.count('nested_visits', n)
    for k, m in bad.items():
        if k in ('deeper', 'visit'):
            ctx.viol(k, m)
    ctx.floor('nested_visits', 1)
    ctx.floor('kinds_of_task', 1)
