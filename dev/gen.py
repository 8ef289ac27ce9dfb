#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from dev/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import P, NA
V = os.path.dirname(HERE)
TRUST = ('Sound for the stated rule over all paths of the extracted MIR, up to the modelled std/crate functions (lib/models.py) and the assumption that '
         'unmodelled library code only touches what it is given mutably; unwinding paths are not followed.')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                            'quantifier': {'over': x['over'], 'text': x['q']}, 'why_tests_cant': x['why'],
                            'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']],
                                        'hook_needed': None}}) + '\n')
        assert len(x['title']) <= 80, x['title']
na = {k for k, _ in NA}
m = {'version': 1, 'setup_cmd': 'python3 lib/facts.py',
     'checks': [{'property': x['id'], 'quick_cmd': 'python3 check.py %s' % x['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % x['id'],
                 'evidence_file': 'evidence/%s.json' % x['id'], 'technique': 'static analysis: ' + x['tech'], 'level': 'other',
                 'level_note': x.get('note', '') + (' ' if x.get('note') else '') + TRUST} for x in P if x['id'] not in na],
     'not_applicable': [{'property': k, 'reason': r} for k, r in NA],
     'notes': 'All checks inspect the MIR of /repo\'s current working tree (extracted by a rustc_private driver on every change of the tree); no code of the repository is run. '
              'Exit 2 = the tree does not build.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'checks')

import runpy, os
runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'design.py'))
