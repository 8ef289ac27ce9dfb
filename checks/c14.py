"""Anomalies are exactly the lines above the threshold, each delivered once with its own data."""
from proc import *

def run(ctx):
    ctx.rule('Rule: rooted at <ChunkProcessor as Iterator>::next: an anomaly is created for a distance found by the search exactly when it is above the threshold, with that distance and with the line and number of the buffer entry '
             'whose position equals the position paired with the distance; the pending anomaly is only replaced after it was queued, and it is queued once; queued anomalies are delivered in order; the iterator '
             'ends only with nothing pending or queued (facts about the path and typestate of the pending anomaly).')
    cl, e = analyse(ctx, 'anomalies')
    if cl is None:
        return
    for k, m in cl.bad.items():
        if k.startswith('a:'):
            ctx.viol(k, m)
    ctx.floor('anomalies_created', 1)
    ctx.floor('distances_judged', 1)
    ctx.floor('queued', 2)
    if len(cl.thresholds) != 1:
        ctx.viol('threshold', 'distances are compared with %d different thresholds: %s' % (len(cl.thresholds), sorted(map(str, cl.thresholds))))
    for t in cl.thresholds:
        ctx.sample('threshold %s' % t)
