#!/usr/bin/env python3
"""run_check.py ID | run_check.py --replay FILE.  VERIF_SEED and VERIF_TIER select the run."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import runner
from checks import CHECKS


def main():
    if sys.argv[1] == '--replay':
        sys.exit(runner.replay(sys.argv[2], CHECKS[json.load(open(sys.argv[2]))['property']]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    sys.exit(runner.run(sys.argv[1], CHECKS[sys.argv[1]], tier, int(os.environ.get('VERIF_SEED', '1'))))


main()
