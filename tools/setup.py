#!/usr/bin/env python3
"""Nothing to build: check that the simulator starts upon the current working tree."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
sys.path.insert(0, os.path.join(VERIF, 'sim'))
p = subprocess.run([sys.executable, '-B', '-c', 'import sys; sys.path.insert(0, %r); import worlds; print("ready", sys.version)'
                    % os.path.join(VERIF, 'sim')], cwd='/')
sys.exit(p.returncode)
