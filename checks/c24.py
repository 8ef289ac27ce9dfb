"""A command that could not do its work does not succeed."""
from cli import *

def run(ctx):
    ctx.rule('Rule: rooted at main of the command line: on every path where a step failed (resolving the target or a baseline, discovering baselines, loading, training or saving the model, listing sources, computing, rendering or writing the report) main returns the error; '
             'a run that succeeds inspected the target it was given and, with --report, wrote the rendered report of it to that file.')
    cl = analyse(ctx)
    if cl is None:
        return
    for k, m in cl.bad.items():
        if k.startswith(('failure:', 'r:', 'exit', 'content', 'target', 't:')):
            ctx.viol(k, m)
