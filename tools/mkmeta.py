#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing it)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['for_all']), why_tests_cant=p['tests'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                             observe_at=p['observe'], hook_needed=None))) + '\n')
        if p.get('na'):
            na.append(dict(property=p['id'], reason=p['na']))
        else:
            checks.append(dict(property=p['id'], quick_cmd='python3 checks/%s.py' % p['id'],
                               thorough_cmd='python3 checks/%s.py --thorough' % p['id'],
                               technique=p['technique'], level='model_checking', level_note=p['note']))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC; see DESIGN.md. No hooks in /repo: the drivers use the public API only.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
