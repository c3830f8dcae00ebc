"""Warms the build of every flavour, so that single checks start from built objects where kept."""
import os
import sys

sys.dont_write_bytecode = True
import buildlib
from checks import CHECKS

done = set()
for c in CHECKS.values():
    for s in c['stages']:
        key = (s['flavour'], bool(s.get('pymodule')))
        if key in done:
            continue
        done.add(key)
        buildlib.build(s['flavour'], cli=True, pymodule=s.get('pymodule', False))
print('built', sorted(done))
