#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import jsonschema
from meta import META
from props import PROPS, NA
rows = [META[k] for k in sorted(META) if k in PROPS or k in NA]
sch = json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for r in rows:
        if sch: jsonschema.validate(r, sch)
        f.write(json.dumps(r) + '\n')
man = {'version': 1, 'setup_cmd': 'python3-vt engine/setup.py',
       'checks': [{'property': p, 'quick_cmd': f'VERIF_TIER=quick python3-vt engine/drive.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3-vt engine/drive.py {p}',
                   'technique': "solver-based symbolic execution of the crate's LLVM IR (z3)", 'level': 'model_checking',
                   'level_note': f"All inputs within the bounds, decided by solver over terms obtained by executing the compiled IR of the real functions. Bounds: {PROPS[p]['bounds']}. "
                                 "Assumes: real arithmetic for floating point (rounding outside the claim), uninterpreted exp/ln/pow/erfc with sound axioms; violations are replayed natively before they are reported."}
                  for p in sorted(PROPS)],
       'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
       'notes': 'No hooks in /repo: the checks use the public API only. See DESIGN.md.'}
if sch: jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
