#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the definitions below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
N = []      # not claimed


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None, thorough=False):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state: d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append((d, technique, note, na, thorough))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

P.sort(key=lambda p: p[0]['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, *_ in P: f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m engine.build', 'checks': [], 'not_applicable': [],
     'notes': 'Every check analyses LLVM IR that it produces from /repo\'s current sources with clang (no test or program of the repository is run).'}
for d, tech, note, na, th in P:
    if na: m['not_applicable'].append({'property': d['id'], 'reason': na})
    else:
        c = {'property': d['id'], 'quick_cmd': 'python3 check.py --property ' + d['id'], 'technique': tech, 'level': 'other', 'level_note': note}
        if th: c['thorough_cmd'] = 'python3 check.py --property %s --tier thorough' % d['id']
        m['checks'].append(c)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not claimed')
