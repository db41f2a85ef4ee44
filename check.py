#!/usr/bin/env python3
"""
check.py PROPERTY [--tier quick|thorough] [--runs N]

Decide one property by deterministic simulation. Exit 0: it held on everything
explored; 1: violated (with a VIOLATION line); anything else: the check is broken.
"""

import argparse
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(PY, [PY, '-B'] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, 'sim'))

import cases    # noqa: E402
import runner   # noqa: E402
from runner import Broken, Pool, Tally, explore, hashseed, minimise, run_stages  # noqa: E402


def known(prop):
    """Entries of the known-findings file: {signature: text}."""
    out = {}
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                if line.startswith('finding: property={} '.format(prop)):
                    parts = line.split(None, 3)
                    out[parts[2].split('=', 1)[1]] = parts[3].strip()
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--seconds', type=float)
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    print('seed', seed, 'tier', tier, 'property', prop, flush=True)
    t0 = time.time()
    total = a.runs or cases.RUNS[prop][tier]
    deadline = t0 + (a.seconds or cases.DEADLINE[tier])
    evfile = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evfile), exist_ok=True)
    try:
        os.unlink(evfile)
    except FileNotFoundError:
        pass
    pool = Pool(seed)
    tally = Tally()
    stop = []

    def at(k):
        return pool.workers[k % len(pool.workers)]

    def multi(msg):
        return run_stages(at, prop, msg['world'], cases.stages(msg['world'], msg['plan'], msg['i']))

    rc = 0
    try:
        explore(pool, prop, seed, tier, total, deadline, tally, multi, stop)
        wall = time.time() - t0
        if tally.harness:
            tally.harness.sort(key=lambda x: x[0])
            i, res = tally.harness[0]
            raise Broken('run {} (of {} broken): {}'.format(i, len(tally.harness), res.get('harness') or res))
        tally.bad.sort(key=lambda x: x[0])
        nviol = 0
        findings = known(prop)
        for i, wid, res in tally.bad[:1]:
            nviol = len(tally.bad)
            rc = report(at, prop, seed, tier, i, wid, res, findings)
    finally:
        pool.close()
    evidence(evfile, prop, tier, seed, tally, wall, time.time() - t0, total, nviol)
    print('{} runs ({} non-trivial), {} violating, {} diverged outside of the property {}, {} stuck, {:.1f} s'.format(
        tally.runs, len(tally.nontrivial), nviol, sum(tally.foreign.values()), tally.foreign or '',
        tally.stuck, time.time() - t0))
    if tally.runs == 0 or (tally.stuck > tally.runs // 20 and rc == 0):
        raise Broken('too many runs without an answer')
    return rc


def report(at, prop, seed, tier, i, wid, res, findings):
    """Minimise, write the replay file, verify it in fresh processes."""
    plan = res.get('plan')
    hs = i % runner.NHS
    if plan is None:
        w = at(hs)
        with w.lock:
            w.post(cmd='gen', prop=prop, seed=seed, tier=tier, idx=[i])
            plan = w.line()['plans'][0][2]
    v = res['violation']
    print('run {} ({}): {}'.format(i, wid, json.dumps(v)[:3000]), flush=True)

    def evaluate(p):
        return run_stages(at, prop, wid, cases.stages(wid, p, i), wall=30)
    small, tries = minimise(plan, v['category'], evaluate)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for cand in (small, plan):
        again = evaluate(cand)
        stages = cases.stages(wid, cand, i)
        doc = dict(property=prop, world=wid, seed=seed, run=i, plan=cand,
                   stages=[dict(s, hashseed=hashseed(seed, s['hs'] % runner.NHS)) for s in stages],
                   violation=again.get('violation'), digest=again.get('digest'), minimised_in=tries)
        path = os.path.join(VERIF, 'replays', '{}-{}-{}.json'.format(prop, seed, i))
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)    # NB: the order of keys matters
            f.write('\n')
        if again.get('violation') and cases.replay(path, quiet=True) == 1:
            break
    else:
        raise Broken('run {} does not replay: {}'.format(i, path))
    print('minimised to {} operations ({} executions): {}'.format(
        len(cand.get('ops', [])), tries, json.dumps(doc['violation'])[:3000]))
    print('VIOLATION property={} replay={}'.format(prop, path), flush=True)
    return 1


def evidence(evfile, prop, tier, seed, tally, wall, full, total, nviol):
    info = cases.INFO[prop]
    faults = {k[6:]: v for k, v in sorted(tally.count.items()) if k.startswith('fault:')}
    ops = {k[3:]: v for k, v in sorted(tally.count.items()) if k.startswith('op:')}
    other = {k: v for k, v in sorted(tally.count.items()) if not k.startswith(('op:', 'fault:'))}
    hours = max(wall, 1e-6) / 3600
    doc = dict(
        property=prop, tier=tier, seed=seed, level=info['level'], wall_s=round(full, 2), violations=nviol,
        assumptions=info['assumptions'],
        coverage=dict(
            evaluations=tally.runs, planned=total, distinct_nontrivial=len(tally.nontrivial), rule=info['rule'],
            samples=tally.samples or [dict(run=None, note='no non-trivial run')],
            runs_per_hour=int(tally.runs / hours), seeds_per_hour=int(tally.runs / hours),
            seed_rule='run i draws everything from sha256("VERIF_SEED:property:i"); it executes under '
                      'PYTHONHASHSEED number i mod {}'.format(runner.NHS),
            simulated_time_s=round(tally.simtime / 1e6, 3), simulated_steps=tally.count.get('steps', 0),
            faults_fired=faults, operations=ops, counters=other,
            distinct_states=len(tally.states), distinct_histories=len(tally.digests),
            state_measure=info['measure'],
            diverged_elsewhere=tally.foreign, stuck=tally.stuck, runs_by_world=tally.byworld,
            real_components=info['real'], stubbed_components=info['stub'],
        ))
    with open(evfile, 'w') as f:
        json.dump(doc, f, indent=1)    # NB: the order of keys matters
        f.write('\n')


if __name__ == '__main__':
    try:
        code = main()
    except Broken as e:
        print('CHECK-ERROR', e, flush=True)
        code = 3
    sys.exit(code)
