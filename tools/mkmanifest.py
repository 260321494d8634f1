#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from table.py"""
import json
import os
import subprocess
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from table import PROPS
root = os.path.dirname(here)
NA = []
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w}
                                      for n, w in p['mech']]}}) + '\n')
man = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -c "import numpy, scipy"',
    'hooks': {'guard': 'none', 'enable': 'no source hooks: monitors wrap the '
              'public API and module attributes from /verif at run time',
              'source_commits': []},
    'checks': [{
        'property': p['id'],
        'quick_cmd': './check.sh %s quick' % p['id'],
        'thorough_cmd': './check.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['tech'], 'level': 'exploration',
        'level_note': p['note']} for p in PROPS],
    'not_applicable': NA,
    'notes': 'sporco is imported from /repo working tree on each run (pure '
             'Python; no byte-code cache is reused).'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
