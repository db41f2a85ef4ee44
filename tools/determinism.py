#!/usr/bin/env python3
"""
determinism.py [--runs N] [--seed S] [PROPERTY...]

Self test of the simulator: one seed must be one execution. The first N cases of each
check are executed twice, by other processes, in the opposite order, with other
neighbours and under another load: plans, histories (digests) and verdicts must be
the same. Exit 1 otherwise.
"""
import argparse
import os
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(PY, [PY, '-B'] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, 'sim'))

import cases    # noqa: E402
from runner import NHS, Pool, run_stages   # noqa: E402


def once(prop, seed, n, step):
    """{case: (digest, verdict)}"""
    pool = Pool(seed)
    out = {}
    lock = threading.Lock()

    def at(k):
        return pool.workers[k % NHS]

    def some(idx):
        for i in idx:
            w = at(i)
            with w.lock:
                w.post(cmd='gen', prop=prop, seed=seed, tier='quick', idx=[i])
                i, wid, plan = w.line()['plans'][0]
            res = run_stages(at, prop, wid, cases.stages(wid, plan, i))
            with lock:
                out[i] = [res.get('plandig'), res.get('digest'), bool(res.get('violation')), res.get('foreign'),
                          res.get('stuck')]
    order = list(range(n))[::step]
    nt = 5 if step > 0 else 11
    ths = [threading.Thread(target=some, args=(order[k::nt],)) for k in range(nt)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    pool.close()
    return out


ap = argparse.ArgumentParser()
ap.add_argument('props', nargs='*')
ap.add_argument('--runs', type=int, default=200)
ap.add_argument('--seed', type=int, default=5)
a = ap.parse_args()
rc = 0
for prop in a.props or sorted(k for k in cases.RUNS if k != 'ALL'):
    one, two = once(prop, a.seed, a.runs, 1), once(prop, a.seed, a.runs, -1)
    bad = [i for i in sorted(one) if one[i] != two[i]]
    print(prop, len(one), 'cases,', len({x[1] for x in one.values()}), 'distinct histories,', len(bad), 'not repeatable', bad[:10], flush=True)
    if bad or len(one) != a.runs:
        rc = 1
        for i in bad[:2]:
            print('   ', one[i], two[i])
sys.exit(rc)
