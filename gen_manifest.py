#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/lib')
import jobs
m = {'version': 1, 'setup_cmd': 'python3 check.py engine', 'checks': [], 'not_applicable': []}
if jobs.HOOKS:
    m['hooks'] = jobs.HOOKS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for i in ids:
    if i in jobs.SPEC:
        s = jobs.SPEC[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                            'technique': s.get('technique', 'symbolic execution of the real code (LLVM IR) with SMT (Z3)'), 'level': s.get('level', 'model_checking'),
                            'level_note': s['note'] + ' Bounds: ' + s['bounds'] + ' Assumes: ' + '; '.join(s['assumptions']) + '.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': jobs.NA.get(i, 'check not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
