#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property of /repo's current source tree."""
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, 'sa'), os.path.join(ROOT, 'sa', 'rules')]
import importlib
import core

if __name__ == '__main__':
    pid = sys.argv[1]
    m = importlib.import_module('p_' + pid.lower())
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    core.run_check(pid, m.check, getattr(m, 'LEVEL', 'proof'), getattr(m, 'EXPLANATION', ''), thorough)
