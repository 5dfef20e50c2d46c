#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + '/props.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': [], 'not_applicable': []}
for p in props:
    c = conf.get(p['id'], {})
    if c.get('claimed'):
        m['checks'].append({'property': p['id'], 'quick_cmd': './check.py %s quick' % p['id'], 'thorough_cmd': './check.py %s thorough' % p['id'],
                            'technique': c['technique'], 'level': c.get('level', 'proof'), 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': c.get('reason', 'no contract for it has been discharged yet')})
m['hooks'] = {'guard': 'none', 'enable': 'no hooks: the contracts live in /verif/contracts and the verifier reads /repo as it is', 'source_commits': []}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
