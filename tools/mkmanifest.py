#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks present."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'X01': 'the values are computed in floating point by scipy/libm native code; there is no solver encoding of those functions within reach',
}
PENDING = 'no check built yet'
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(ROOT, 'checks', i + '.py')
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif not os.path.exists(f):
        na.append({'property': i, 'reason': PENDING})
    else:
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt sx/run.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt sx/run.py %s --tier thorough' % i,
            'technique': 'symbolic execution of the instrumented source with z3 deciding path conditions and assertions; counterexamples replayed on the real code',
            'level': 'model_checking',
            'level_note': 'bounded: every path of the encoded functions within the bounds listed in the evidence file is decided; nothing is claimed beyond them',
        })
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && mkdir -p evidence', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
