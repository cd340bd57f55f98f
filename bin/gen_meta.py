#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (PROPS, one entry per property)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or []))


exec(open(os.path.join(V, 'bin', 'props.inc.py')).read())

NA = []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
        assert len(p['title']) <= 80, p['title']
        for x in p['files']:
            assert os.path.exists('/repo/' + x), x
checks = []
for p in P:
    if os.path.exists(os.path.join(V, 'harness', p['id'] + '.cc')):
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 bin/check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    else:
        NA.append({'property': p['id'], 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 bin/vbuild.py all', 'checks': checks, 'not_applicable': NA,
     'notes': 'All checks are property-based tests (own choice-sequence engine, harness/pbt.h) built from /repo by bin/vbuild.py with AddressSanitizer.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
