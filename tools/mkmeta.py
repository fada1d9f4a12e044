#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run it after editing)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOTE = ('Sound for the analysed constructs within the stated abstraction: a construct that cannot '
        'be resolved is counted as undecided and never reported. Trusts the clang front end, the '
        'value-flow evaluator in nmtverif and the reference formulas in spec/.')


def P(id, title, statement, over, text, why, files, mech, technique=None, note='', na=None,
      state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, note=note, na=na, state=state,
                      observe=observe))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [dict(name=n, where=w) for n, w in p['mech']]}
        if p['state']:
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        a['hook_needed'] = None
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m nmtverif setup', 'checks': [], 'not_applicable': []}
for p in PROPS:
    if p['na'] or not p['technique']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na'] or
                                    'static check not built yet'})
        continue
    m['checks'].append({
        'property': p['id'],
        'quick_cmd': 'python3 -m nmtverif check %s quick' % p['id'],
        'thorough_cmd': 'python3 -m nmtverif check %s thorough' % p['id'],
        'technique': 'static analysis: ' + p['technique'],
        'level': 'other', 'level_note': (p['note'] + ' ' + NOTE).strip()})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
