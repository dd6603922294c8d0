#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, symbols, level='proof', note='', technique='contract-based deductive verification: CBMC discharges every obligation of the contracts on the functions of /repo'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, symbols=symbols, level=level, note=note, technique=technique))
NA = []
exec(open(V + '/cv/properties_table.py').read())
REST = json.load(open('/root/.vp/PROPERTIES.schema.json'))
with open(V + '/properties.jsonl', 'w') as f:
    for p in P + [n for n in NA]:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': x.split('@')[0], 'where': x.split('@')[1]} for x in p['symbols']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 cv/selftest.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 cv/check.py %s' % p['id'], 'thorough_cmd': 'python3 cv/check.py %s --tier thorough' % p['id'],
                 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P],
     'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA],
     'notes': 'see DESIGN.md; known_findings.txt lists the recorded findings and the repaired defects'}
import subprocess
if os.path.exists(V + '/cv/hooks.json'): m['hooks'] = json.load(open(V + '/cv/hooks.json'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    for line in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(line), REST)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(P), len(NA))
except ImportError: print('written, not validated: run with python3-vt')
