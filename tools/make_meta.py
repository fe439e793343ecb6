#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
TECH = 'abstract interpretation of the source to normalised value graphs, ' \
    'compared with reference semantics'
NOTE = 'Every obligation is decided on the terms obtained by abstract ' \
    'interpretation of the current source of the anchored functions, for ' \
    'all inputs at once (no execution, no bound on sizes). It trusts the ' \
    'models of the Python and numpy primitives in sa/interp.py and the ' \
    'reference functions written in the rules; constructs that the ' \
    'analysis does not understand are left undecided (listed in the ' \
    'evidence), not reported.'


def prop(id, title, statement, over, text, why, files, mech, tech=TECH,
         note=NOTE):
    PROPS.append(({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech]},
    }, tech, ' '.join(note.split())))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append({'property': id, 'reason': ' '.join(reason.split())})


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

na_ids = set(x['property'] for x in NA)
PROPS.sort(key=lambda p: p[0]['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _, _ in PROPS:
        assert len(p['title']) <= 80, p['title']
        n = len([s for s in p['statement'].split('. ') if s])
        assert n <= 3, (p['id'], n)
        f.write(json.dumps(p) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'true',
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'python3 run.py %s quick' % p['id'],
            'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
            'technique': tech,
            'level': 'other',
            'level_note': note,
        } for p, tech, note in PROPS if p['id'] not in na_ids],
        'not_applicable': sorted(NA, key=lambda x: x['property']),
    }, f, indent=1)
    f.write('\n')
