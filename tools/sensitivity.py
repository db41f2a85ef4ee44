#!/usr/bin/env python3
"""
Development tool: do the checks see the genuine defects that were repaired?

sensitivity.py [--runs N] [COMMIT...]   for each "fixed:" entry of KNOWN_FINDINGS.txt, take the repair out of a scratch
                                        copy of the repository and run the check of its property against it
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'sim'))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args = sys.argv[1:]
    runs = []
    if args[:1] == ['--runs']:
        runs, args = args[:2], args[2:]
    work = tempfile.mkdtemp(prefix='sens-') + '/verif'
    shutil.copytree(VERIF, work, ignore=shutil.ignore_patterns('.git', 'replays'))
    for line in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
        m = re.match(r'fixed: property=(\w+) (\w+) (.*)', line)
        if not m or (args and m.group(2) not in args):
            continue
        prop, commit, text = m.groups()
        d = tempfile.mkdtemp(prefix='sens-')
        try:
            sh(['git', 'clone', '-q', '/repo', d + '/repo'], d)
            r = sh(['git', 'revert', '--no-commit', commit], d + '/repo')
            if r.returncode:
                # later repairs stand upon this one: take them all out
                sh(['git', 'reset', '-q', '--hard', commit + '^'], d + '/repo')
                text = '(with later ones) ' + text
            r = sh([sys.executable, 'check.py', prop] + runs, work, env=dict(os.environ, VERIF_REPO=d + '/repo'))
            got = [x for x in r.stdout.splitlines() if x.startswith('run ')]
            print(prop, commit, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'BROKEN'), text[:70], '|',
                  (got or r.stdout.splitlines()[-1:])[0][:150], flush=True)
        finally:
            shutil.rmtree(d)
    shutil.rmtree(os.path.dirname(work))


if __name__ == '__main__':
    main()
