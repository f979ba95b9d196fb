#!/usr/bin/env python3
"""Builds the framework from the committed files: instrumenter, runtime and every check's binary (cached in build/)."""
import sys, os, time
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import build as B
from jobs import JOBS
t0 = time.time()
for p, spec in JOBS.items():
    if time.time() - t0 > 500: break  # checks build what is missing
    try: B.build_jobs([j for j in spec.get('jobs', []) if not j.get('thorough_only')])
    except B.BuildError as e: print('setup: %s: %s' % (p, str(e)[:300]))
print('setup done')
