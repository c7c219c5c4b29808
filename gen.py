#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and harness/checks.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V); sys.path.insert(0, V + '/harness')
import props, checks
ids = {p['id'] for p in props.P}; assert set(checks.CHECKS) <= ids, set(checks.CHECKS) - ids
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['title']
        for s in p['anchors']['files']: 
            if not os.path.exists('/repo/' + s): print('missing', p['id'], s)
        f.write(json.dumps({k: v for k, v in p.items() if k != 'na'}) + '\n')
m = dict(version=1, setup_cmd='python3 check.py setup', checks=[], not_applicable=[], notes='engine in engine/, harnesses in harness/, models of the environment in env/; see DESIGN.md')
for p in props.P:
    c = checks.CHECKS.get(p['id'])
    if c and not c.get('draft'):
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
          technique='bounded symbolic execution of the LLVM IR of the sources, assertions decided by Z3', level='model_checking',
          level_note='Holds for every value within: %s. Outside: %s. Trusted: clang code generation, the engine (each run replays solver-produced paths natively and compares), Z3, the environment model.' % (c.get('bounds', ''), c.get('outside', 'larger sizes'))))
    else: m['not_applicable'].append(dict(property=p['id'], reason=p['na'] or 'no check built yet'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', [x['property'] for x in m['not_applicable']], 'not')
