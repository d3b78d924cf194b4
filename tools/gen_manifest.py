#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec
V = spec.V
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
AI = 'abstract interpretation of the LLVM IR: linear inequalities + slot typestate, loops widened or partitioned up to a capacity'
NOTE = 'Sound for the analysed entries in exact states: no false alarms seen; entries listed in the evidence as decided for all capacities hold for every capacity, size and argument, the others for every state up to the stated capacity (any later loop iteration behaves like an analysed one is not proved). Trusts the analyser, clang lowering and the element, allocator and iterator models.'
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[], not_applicable=[])
for p in props:
    if p in spec.PROPS:
        P = spec.PROPS[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 tools/check.py %s quick' % p, thorough_cmd='python3 tools/check.py %s thorough' % p, technique=P.get('technique', AI), level=P['level'], level_note=P.get('note', NOTE)))
    else: m['not_applicable'].append(dict(property=p, reason=spec.NOT_APPLICABLE[p]))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(m['checks']), 'checks')
