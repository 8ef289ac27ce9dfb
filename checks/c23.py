"""A model file is loaded when it exists, trained and saved when it does not, never overwritten."""
from cli import *

def run(ctx):
    ctx.rule('Rule: rooted at main of the command line, for every combination of command, --model, --report and existence of the model file: see the typestate of lib/cli.py. The model in use is the loaded one exactly when the file exists; diff with an existing model fails; '
             'otherwise it is trained from the given baselines (all of them) or from those discovered for the target; a trained model is saved exactly as the --model file, and only path/url/diff runs that found no such file (or the train command) write it.')
    cl = analyse(ctx)
    if cl is None:
        return
    for k, m in cl.bad.items():
        if not k.startswith(('failure:', 'r:', 'exit', 'content', 'target')):
            ctx.viol(k, m)
