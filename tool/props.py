#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing: python3 tool/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, level='proof', na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                  note=note, level=level, na=na, state=state, observe=observe))


exec(open(os.path.join(ROOT, 'tool', 'props_data.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
                  for p in P if p['technique']],
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if not p['technique']],
       'notes': 'All checks are static: they compile /repo to LLVM IR with its own build flags on every run, and decide the rules described in DESIGN.md on that IR. Nothing of /repo is executed.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'checks', len(man['not_applicable']), 'not applicable')
