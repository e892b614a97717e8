#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a harness."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
naf = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(naf):
    NA = json.load(open(naf))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or not os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        na.append({'property': i, 'reason': NA.get(i, 'no harness yet')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt -m symx.run %s quick' % i,
        'thorough_cmd': 'python3-vt -m symx.run %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of the Python source with Z3 deciding branches and assertions; native replay',
        'level': 'model_checking',
        'level_note': 'Every path of the real code within the bounds in the evidence file is decided by the solver; '
                      'the file system, web, clock, XML serializer, digests and date-text primitives are modelled (see '
                      'DESIGN.md) and sampled paths are re-run natively to validate the models.'})
m = {'version': 1, 'setup_cmd': "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import resync'", 'checks': checks,
     'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
