#!/usr/bin/env python3
"""replay.py FILE: execute a replay file again. Exit 1 if the violation is reproduced."""

import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(PY, [PY, '-B'] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, 'sim'))

import cases    # noqa: E402

if __name__ == '__main__':
    rc = cases.replay(sys.argv[1])
    with open(sys.argv[1]) as f:
        prop = json.load(f)['property']
    print('VIOLATION property={} replay={}'.format(prop, sys.argv[1]) if rc else 'not reproduced')
    sys.exit(rc)
