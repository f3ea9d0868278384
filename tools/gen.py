#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (single source)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']:
            a['state'] = [dict(name=n, meaning=w) for n, w in p['state']]
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=a)) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
    else:
        checks.append(dict(property=p['id'], quick_cmd='python3 sa/run.py %s quick' % p['id'],
                           thorough_cmd='python3 sa/run.py %s thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other',
                           level_note=p['note']))
M = dict(version=1, setup_cmd='python3 sa/selftest.py', checks=checks, not_applicable=na)
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
