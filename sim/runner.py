"""
Orchestrator: distributes runs on workers, minimises and replays violations, writes
evidence. It never imports the package: everything is executed by the workers.
"""

import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NHS = 8                      # number of hash seeds (and of workers)


def hashseed(seed, k):
    return (seed * 7919 + k * 104729 + 1) % 4294967295


class Broken(Exception):
    """The check itself does not work: neither 0 nor 1 is an answer."""


class Worker:
    def __init__(self, hs, stderr=None):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(hs)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env.pop('PYTHONPATH', None)
        self.hs = hs
        self.lock = threading.Lock()
        self.n = 0
        self.p = subprocess.Popen([sys.executable, '-B', os.path.join(HERE, 'worker.py')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  stderr=stderr, cwd='/', text=True)

    def post(self, **req):
        self.n += 1
        req['id'] = self.n
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        return self.n

    def line(self):
        s = self.p.stdout.readline()
        if not s:
            raise Broken('worker died (exit {})'.format(self.p.poll()))
        return json.loads(s)

    def run(self, **req):
        """One plan."""
        with self.lock:
            self.post(cmd='run', **req)
            return self.line()['res']

    def close(self):
        try:
            self.p.stdin.write(json.dumps(dict(cmd='quit', id=0)) + '\n')
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


class Pool:
    def __init__(self, seed, n=NHS):
        self.seed = seed
        self.workers = [Worker(hashseed(seed, k)) for k in range(n)]

    def close(self):
        for w in self.workers:
            w.close()


def run_stages(pool, prop, wid, stages, keep=False, wall=None):
    """
    Execute the stages of a case (a stage says on which hash seed its plan runs and
    from which stage it takes its input). The violation of the case is the one of the
    first failing stage, or the first difference between stages meant to agree.
    """
    results = []
    for st in stages:
        inp = results[st['needs']].get('out') if st.get('needs') is not None else None
        req = dict(prop=prop, world=wid, plan=st['plan'], keep=keep)
        if inp is not None:
            req['inp'] = inp
        if wall:
            req['wall'] = wall
        res = pool(st['hs']).run(**req)
        results.append(res)
        if res.get('violation') or any(res.get(k) for k in ('harness', 'stuck', 'died')):
            break
        if res.get('foreign') and not st.get('agree'):
            break
    final = dict(results[-1])
    final['stages'] = len(results)
    if len(results) > 1:
        for k in ('count',):
            tot = {}
            for r in results:
                for a, b in (r.get(k) or {}).items():
                    tot[a] = tot.get(a, 0) + b
            final[k] = tot
        final['states'] = sorted({s for r in results for s in r.get('states', ())})
        final['simtime'] = sum(r.get('simtime', 0) for r in results)
        final['nontrivial'] = any(r.get('nontrivial') for r in results)
        final['digest'] = '+'.join(r.get('digest', '?') for r in results)
        if not final.get('violation') and all(st.get('agree') for st in stages) and len(results) == len(stages) and \
                not any(r.get('stuck') or r.get('harness') or r.get('died') for r in results):
            lost = [r['foreign'] for r in results if r.get('foreign')]
            if lost:
                final['foreign'] = lost[0]
            if len(lost) == len(results) and any(f.get('block') for f in lost):
                # cut somewhere in a block of definitions: in this block, the executions
                # do not follow the same order
                return final
            ref = results[0]['outcomes']
            for n, r in enumerate(results[1:], 1):
                if r['outcomes'] != ref:
                    d = next((k for k, (x, y) in enumerate(zip(ref, r['outcomes'])) if x != y),
                             min(len(ref), len(r['outcomes'])))
                    final['violation'] = dict(category='differ', where=['stage', n], detail=dict(
                        first=ref[d] if d < len(ref) else None,
                        other=r['outcomes'][d] if d < len(r['outcomes']) else None))
                    break
    return final


# ------------------------------------------------------------- minimisation --

def shrink_list(lst, test, deadline):
    """ddmin upon a list."""
    n = 2
    cur = list(lst)
    while len(cur) >= 1:
        size = max(1, len(cur) // n)
        done = False
        i = 0
        while i < len(cur):
            if time.time() > deadline:
                return cur
            cand = cur[:i] + cur[i + size:]
            if test(cand):
                cur = cand
                done = True
            else:
                i += size
        if size == 1 and not done:
            break
        if size > 1:
            n = min(len(cur) or 1, n * 2)
    return cur


def paths(node, pre=()):
    """All removable positions of a JSON tree, the biggest first."""
    out = []
    if isinstance(node, dict):
        for k in node:
            out.append(pre + (k,))
            out += paths(node[k], pre + (k,))
    elif isinstance(node, list):
        for k in reversed(range(len(node))):
            out.append(pre + (k,))
            out += paths(node[k], pre + (k,))
    return out


def without(tree, path):
    tree = json.loads(json.dumps(tree))
    node = tree
    for k in path[:-1]:
        node = node[k]
    del node[path[-1]]
    return tree


def minimise(plan, category, evaluate, seconds=75):
    """Smaller plan with the same kind of violation."""
    deadline = time.time() + seconds
    tries = [0]
    best = [plan]

    def test(p):
        if time.time() > deadline:
            return False
        tries[0] += 1
        r = evaluate(p)
        v = r.get('violation')
        if v and v['category'] == category:
            best[0] = p
            return True
        return False

    lists = [k for k in ('ops', 'faults', 'switches', 'threads', 'fs') if isinstance(plan.get(k), list)]
    for _ in range(2):
        for key in lists:
            def t(cand, key=key):
                p = dict(best[0])
                p[key] = cand
                return test(p)
            shrink_list(best[0][key], t, deadline)
    # faults out, then all the parts of the operations
    if category != 'observe':
        changed = True
        rounds = 0
        while changed and time.time() < deadline and rounds < 3:
            changed = False
            rounds += 1
            for path in paths(best[0]):
                if len(path) < 2 or path[0] in ('checks', 'cfg', 'world'):
                    continue
                if path[-1] in ('op', 'k', 'sid', 'name', 'mod', 'bases', 'parts', 'how', 'cls', 'slot', 'entry', 't', 'tag', 'desc', 'kw'):
                    continue
                try:
                    cand = without(best[0], path)
                except (KeyError, IndexError, TypeError):
                    continue
                if test(cand):
                    changed = True
                if time.time() > deadline:
                    break
    return best[0], tries[0]


# -------------------------------------------------------------------- check --

class Tally:
    def __init__(self):
        self.runs = 0
        self.nontrivial = set()
        self.count = {}
        self.states = set()
        self.digests = set()
        self.simtime = 0
        self.foreign = {}
        self.stuck = 0
        self.bad = []
        self.harness = []
        self.samples = []
        self.byworld = {}
        self.ops = 0

    def add(self, i, wid, res):
        self.runs += 1
        self.byworld[wid] = self.byworld.get(wid, 0) + 1
        if res.get('harness') or res.get('died'):
            self.harness.append([i, res])
            return
        if res.get('stuck'):
            self.stuck += 1
            self.bad.append([i, wid, res]) if res.get('violation') else None
            return
        for k, v in (res.get('count') or {}).items():
            self.count[k] = self.count.get(k, 0) + v
        self.states.update(res.get('states', ()))
        self.digests.add(res.get('digest'))
        self.simtime += res.get('simtime', 0)
        if res.get('nontrivial'):
            self.nontrivial.add(res.get('plandig'))
        if res.get('foreign'):
            c = res['foreign']['category']
            self.foreign[c] = self.foreign.get(c, 0) + 1
            if os.environ.get('VERIF_DEBUG'):
                print('foreign', i, wid, json.dumps(res['foreign'])[:1500], flush=True)
        if res.get('violation'):
            self.bad.append([i, wid, res])


def explore(pool, prop, seed, tier, total, deadline, tally, on_multi, stop):
    """Run the cases 0..total-1: case i is generated by worker i modulo NHS."""
    lock = threading.Lock()
    nw = len(pool.workers)
    errors = []
    todo = queue.Queue()

    def single(k):
        w = pool.workers[k]
        mine = list(range(k, total, nw))
        try:
            while mine:
                if time.time() > deadline:
                    with lock:
                        tally.count['runs-not-started'] = tally.count.get('runs-not-started', 0) + len(mine)
                    return
                with lock:
                    # a violation was found: only what comes before it matters
                    if stop and min(stop) < mine[0]:
                        return
                chunk, mine = mine[:16], mine[16:]
                with w.lock:
                    w.post(cmd='batch', prop=prop, seed=seed, tier=tier, idx=chunk,
                           sample=chunk[0] if chunk[0] < 2 * nw else None)
                    while True:
                        msg = w.line()
                        if 'error' in msg:
                            raise Broken('generation failed: ' + json.dumps(msg['error'])[:3000])
                        if msg.get('end'):
                            break
                        if msg.get('multi'):
                            todo.put(msg)
                            continue
                        with lock:
                            tally.add(msg['i'], msg['world'], msg['res'])
                            if msg['res'].get('plan') and len(tally.samples) < 3 and msg['res'].get('nontrivial'):
                                tally.samples.append(dict(run=msg['i'], world=msg['world'], plan=msg['res']['plan']))
                            if msg['res'].get('violation'):
                                stop.append(msg['i'])
        except Exception as e:
            errors.append(e)

    ths = [threading.Thread(target=single, args=(k,)) for k in range(nw)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errors:
        raise errors[0]
    if todo.empty():
        return

    def multi():
        try:
            while True:
                try:
                    msg = todo.get_nowait()
                except queue.Empty:
                    return
                if time.time() > deadline or (stop and min(stop) < msg['i']):
                    with lock:
                        tally.count['runs-not-started'] = tally.count.get('runs-not-started', 0) + 1
                    continue
                res = on_multi(msg)
                with lock:
                    tally.add(msg['i'], msg['world'], res)
                    if len(tally.samples) < 3 and res.get('nontrivial'):
                        tally.samples.append(dict(run=msg['i'], world=msg['world'], plan=msg['plan']))
                    if res.get('violation'):
                        stop.append(msg['i'])
        except Exception as e:
            errors.append(e)

    ths = [threading.Thread(target=multi) for _ in range(2 * nw)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errors:
        raise errors[0]
