#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None, na=None,
         technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=list(state), observe=list(observe), hook=hook, na=na,
                  technique=technique, note=note))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [dict(name=n, where=w) for n, w in p['mechanism']]}
        if p['state']:
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        a['hook_needed'] = p['hook']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}, ensure_ascii=False) + '\n')
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']

m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python check.py --self-test',
     'checks': [{'property': p['id'],
                 'quick_cmd': '/opt/venv/bin/python check.py %s' % p['id'],
                 'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py %s' % p['id'],
                 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']}
                for p in P if not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
     'notes': 'No hooks in /repo: every seam is a Python-level substitution made by the simulator on a scratch copy of '
              'the sources (see DESIGN.md).'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
