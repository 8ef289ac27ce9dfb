"""Every line of an inspected source is compared with the index."""
from proc import *

def run(ctx):
    ctx.rule('Rule: rooted at <ChunkProcessor as Iterator>::next with everything below analysed in place: every line delivered by the reader (up to the log-classify marker) is counted once, kept in the buffer with its position, and '
             'either found in the set of known lines by its own tokens or queued for comparison together with the same position; queued lines leave only through ChunkIndex::search, the three vectors are emptied together; the iterator '
             'ends only when the reader ended (or the marker was seen) and nothing is left to compare; a reading or decoding failure is delivered as an error.')
    cl, e = analyse(ctx, 'lines')
    if cl is None:
        return
    for k, m in cl.bad.items():
        if not k.startswith('a:'):
            ctx.viol(k, m)
    ctx.floor('lines_judged', 4)
    ctx.floor('searches', 2)
