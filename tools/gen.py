'''Write properties.jsonl and MANIFEST.json from props.py.'''
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPERTIES, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPERTIES + [n for n in NOT_APPLICABLE]:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert p['statement'].count('. ') <= 2, p['id']
        anchors = {'files': p['files'], 'mechanism': p['mechanism']}
        if p.get('state'):
            anchors['state'] = p['state']
        if p.get('observe'):
            anchors['observe_at'] = p['observe']
        anchors['hook_needed'] = None
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')

m = {'version': 1,
     'setup_cmd': 'python3-vt -c "import ast, numpy"',
     'checks': [{'property': p['id'],
                 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in PROPERTIES],
     'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NOT_APPLICABLE]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
