#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import spec
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='./check --build', checks=[], not_applicable=[])
if getattr(spec, 'HOOKS', None): m['hooks'] = spec.HOOKS
for p in props:
    if p in spec.PROPS:
        s = spec.PROPS[p]
        m['checks'].append(dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p, evidence_file='evidence/%s.json' % p,
            technique=s['technique'], level=s.get('level', 'model_checking'), level_note=s.get('note', 'Bounded exhaustive exploration of the real code; bounds in DESIGN.md and in the evidence file.')))
    else:
        m['not_applicable'].append(dict(property=p, reason=spec.NA.get(p, 'check not built yet')))
m['notes'] = 'All checks execute the code of /repo\'s working tree (headers and sources compiled into harnesses under /verif/build) and enumerate interleavings, fault points, inputs or operation sequences; see DESIGN.md.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
