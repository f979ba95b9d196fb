#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from jobs import JOBS, NA
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i in JOBS:
        j = JOBS[i]
        bound = '; '.join('%s: %s' % (x['name'], x.get('bound', '')) for x in j['jobs'])[:1500] if 'jobs' in j else j['bound']
        checks.append(dict(property=i, quick_cmd='./check.py %s quick' % i, thorough_cmd='./check.py %s thorough' % i,
            technique=j.get('technique', 'symbolic execution of the LLVM IR of the C++ code, Z3 decides branches and assertions'),
            level=j.get('level', 'model_checking'),
            level_note=j.get('note', 'Every feasible path over the symbolic inputs is executed and every assertion discharged by the solver; counterexamples are replayed natively. Within bounds: %s. Assumes: %s' % (bound, '; '.join(j.get('assumptions', []))))))
    else: na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
    notes='The encoding is regenerated from /repo at every run (build.py); see DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
