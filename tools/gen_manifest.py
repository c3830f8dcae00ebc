#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
from checks import CHECKS

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
missing = []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        missing.append(dict(property=p['id'], reason='no check built yet'))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 run_check.py %s' % p['id'],
                       thorough_cmd='python3 run_check.py %s thorough' % p['id'],
                       technique=c['technique'], level=c['level'], level_note=c['note']))
m = dict(version=1, setup_cmd='python3 lib/setup.py', checks=checks, not_applicable=missing)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(missing), 'missing')
