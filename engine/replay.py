#!/usr/bin/env python3-vt
"""Runs the input vector of a replay file against the crate as it is in /repo now.  usage: replay.py evidence/replay/<file>.json"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drive

v = json.load(open(sys.argv[1]))
_, bins = drive.build([v['harness'].split('_')[0]])
print('harness', v['harness'], 'parameters', v['params'])
for k, x in v['inputs'].items(): print(f'  input {k} = {x!r}')
bad = 0
for b, nm in zip(bins, ('debug', 'release')):
    r = drive.native(b, v['harness'], v['params'], [v['inputs']])[0]
    print(f'{nm}: {r[0]}')
    for (k, i, ok, a, c) in r[1]:
        if not ok: print(f'  check {i} ({k}) fails: {a!r} against {c!r}')
    bad |= bool(drive.failing(r))
sys.exit(1 if bad else 0)
