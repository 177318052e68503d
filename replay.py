#!/usr/bin/env python3
"""replay.py REPLAY_FILE: re-runs the recorded failing case on the current tree of /repo"""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/lib')
import harness
d = dict(l.split(': ', 1) for l in open(sys.argv[1]).read().split('\n\n')[0].splitlines() if ': ' in l)
prop, case, ex = d['property'], d.get('case'), d.get('executor')
if not case: print(open(sys.argv[1]).read()); sys.exit(1)
if ex == 'internal':
    b, info = harness.build_internal(prop)
    if not b: sys.exit(info)
    cmd = [b, 'replay', prop, case]
else: cmd = [harness.build_bb(), harness.build_repo_bin(), 'replay', prop, case]
rc, o, e = harness.sh(cmd)
print(o, e)
sys.exit(rc)
