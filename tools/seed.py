#!/usr/bin/env python3
"""
Development tool: make, validate and try planted bugs.

seed.py make SPEC.py        each entry of SEEDS: dict(id, property, edits=[(file, old, new)], demo, needs, breaks)
seed.py try [ID...]         run the check of its property upon a copy of the repository with each planted bug
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0: the property holds; anything else: it does not
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='seed-')
    subprocess.check_call(['git', 'clone', '-q', os.environ.get('SEED_REPO', '/repo'), d + '/repo'])
    return d


def tests(repo):
    """Stable tests that fail."""
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('tests') or base.get('pass') or base
    out = repo + '/../junit.xml'
    sh([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-o',
        'junit_family=xunit2', '--junitxml=' + out], repo,
       env=dict(os.environ, PYTHONPATH=repo + '/src', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC', LANG='C.UTF-8'))
    import xml.etree.ElementTree as ET
    bad, good = [], 0
    for tc in ET.parse(out).iter('testcase'):
        name = '{}::{}'.format(tc.get('classname'), tc.get('name'))
        if tc.find('failure') is not None or tc.find('error') is not None:
            bad.append(name)
        else:
            good += 1
    return bad, good, stable


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    only = set(sys.argv[3:])
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = copy()
        try:
            repo = d + '/repo'
            basebad = tests(repo)[0]
            ok = True
            for fn, old, new in s['edits']:
                p = repo + '/src/footprints/' + fn
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT does not match once:', t.count(old), repr(old[:70]))
                    ok = False
                    break
                open(p, 'w').write(t.replace(old, new))
            if not ok:
                continue
            out = os.path.join(SEEDED, s['id'])
            tmp = d + '/demo'
            os.makedirs(tmp)
            patch = sh(['git', 'diff'], repo).stdout
            open(tmp + '/patch.diff', 'w').write(patch)
            open(tmp + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            open(tmp + '/demo.sh', 'w').write(DEMO)
            os.chmod(tmp + '/demo.sh', 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                      open(tmp + '/meta.json', 'w'), indent=1)
            bad = [b for b in tests(repo)[0] if b not in basebad]
            r1 = sh(['bash', tmp + '/demo.sh'], repo)
            r0 = sh(['bash', tmp + '/demo.sh'], '/repo')
            fine = not bad and r0.returncode == 0 and r1.returncode != 0
            print(s['id'], 'OK' if fine else 'REJECTED', 'tests', bad, 'demo', r0.returncode, r1.returncode,
                  '' if fine else r0.stdout[-800:] + '\n---\n' + r1.stdout[-800:])
            if fine:
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(tmp, out)
        finally:
            shutil.rmtree(d)


def attempt(ids):
    for i in ids or sorted(os.listdir(SEEDED)):
        prop = json.load(open('{}/{}/meta.json'.format(SEEDED, i)))['property']
        d = copy()
        try:
            repo = d + '/repo'
            r = sh(['git', 'apply', '{}/{}/patch.diff'.format(SEEDED, i)], repo)
            if r.returncode:
                print(i, 'does not apply', r.stdout)
                continue
            r = sh([PY, '-B', 'check.py', prop], VERIF, env=dict(os.environ, VERIF_REPO=repo))
            lines = r.stdout.splitlines()
            print(i, prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'BROKEN %d' % r.returncode), '|', lines[-1] if lines else '')
            for x in lines:
                if x.startswith(('minimised', 'run ')) and os.environ.get('V'):
                    print('    ', x[:600])
            if r.returncode not in (0, 1):
                print(r.stdout[-2000:])
        finally:
            shutil.rmtree(d)
        sys.stdout.flush()


if sys.argv[1] == 'make':
    make(sys.argv[2])
else:
    attempt(sys.argv[2:])
