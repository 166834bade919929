#!/usr/bin/env python3
"""Regenerate MANIFEST.json from props/plan.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import plan      # noqa: E402

NA = {
    'C35': 'Kinds are random UUIDs: uniqueness is a probabilistic fact about the random source (os.urandom), there is no code of the repository whose symbolic execution could decide it.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.PLAN:
        s = plan.PLAN[i]
        c = dict(property=i, quick_cmd=f'python3-vt check.py {i}', thorough_cmd=f'python3-vt check.py {i} --thorough', evidence_file=f'evidence/{i}.json',
                 technique='bounded symbolic execution of the repository\'s Python source with z3; counterexamples replayed natively',
                 level='model_checking',
                 level_note='Every path of the harness within the bounds is decided by z3, nothing is sampled; the libraries under the code are stubs validated by native runs of path witnesses. Bounds: ' + s['bounds'])
        checks.append(c)
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check has been built for it yet.')))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: the source is read, instrumented and executed symbolically from /repo\'s working tree on every run.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
