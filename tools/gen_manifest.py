#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; claims = properties with an entry in spec/bounds.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bounds = json.load(open(V + '/spec/bounds.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/spec/not_applicable.json'))
checks = []; na = []
for p in props:
    i = p['id']
    if i in bounds:
        checks.append(dict(property=i, quick_cmd=f'cd /verif && ./check {i} quick', thorough_cmd=f'cd /verif && ./check {i} thorough',
            technique='symbolic execution of the LLVM IR of the real parser (own engine, Z3), assertion decided for all values of the symbolic bytes; counterexamples replayed natively',
            level='model_checking', level_note=bounds[i]['quick'] + (' Outside: ' + bounds[i]['outside'] if bounds[i].get('outside') else '')))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='cd /verif && ./check build', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
