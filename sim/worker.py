"""
Simulation worker: one interpreter, one PYTHONHASHSEED, one forked child per run.

The parent process imports the package once and never runs anything with it: each
plan is generated in a child and executed in another one, so that every run starts
from the very same pristine state.

Protocol (JSON lines): {"cmd": "gen", "prop", "seed", "tier", "idx": [i...]}
                       {"cmd": "batch", ...same...}       generate and run
                       {"cmd": "run", "plan", "world", "prop", "inp"}
"""

import gc
import json
import os
import resource
import select
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import boot   # noqa: E402
import core   # noqa: E402
import worlds  # noqa: E402

OUT = os.dup(1)
os.dup2(2, 1)
WALL = float(os.environ.get('VERIF_RUN_WALL', '100'))


def send(obj):
    data = (json.dumps(obj, default=str) + '\n').encode()
    while data:
        n = os.write(OUT, data)
        data = data[n:]


def forked(func, wall=WALL):
    """Result of func() computed in a child process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            gc.freeze()
            try:
                res = func()
            except BaseException:
                res = dict(harness=traceback.format_exc()[-4000:])
            data = json.dumps(res, default=str).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    data = []
    stuck = False
    end = boot.real_monotonic() + wall
    while True:
        left = end - boot.real_monotonic()
        if left <= 0:
            stuck = True
            break
        ok, _, _ = select.select([r], [], [], left)
        if not ok:
            continue
        x = os.read(r, 1 << 20)
        if not x:
            break
        data.append(x)
    if stuck:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    os.waitpid(pid, 0)
    if stuck:
        return dict(stuck=True)
    try:
        return json.loads(b''.join(data))
    except ValueError:
        return dict(died=True)


def execute(world, plan, inp=None, keep=False):
    """One run, in the current process."""
    ctx = core.Ctx(world.prop, world.own)
    if keep:
        ctx.keep = []
    out = None
    try:
        out = world.run(plan, ctx, inp)
    except core.StopRun:
        pass
    except core.HarnessError:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        bad = dict(category='observe', where=ctx.where, detail=dict(
            exc=type(e).__name__, msg=str(e)[:300],
            tb=['{}:{}'.format(os.path.basename(f.filename), f.name) for f in tb[-6:]]))
        if ctx.armed and not ctx.softforeign:
            ctx.violation = bad
        else:
            ctx.foreign = bad
        if keep:
            ctx.keep.append(traceback.format_exc())
    res = ctx.result()
    res['out'] = out
    res['outcomes'] = getattr(ctx, 'outcomes', None)
    res['nontrivial'] = bool(getattr(ctx, 'nontrivial', False))
    res['simtime'] = boot.CLOCK.covered
    if keep:
        res['keep'] = ctx.keep
    return res


def main():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    for line in sys.stdin:
        req = json.loads(line)
        cmd = req['cmd']
        if cmd == 'quit':
            return
        if cmd in ('gen', 'batch'):
            prop, seed, tier = req['prop'], req['seed'], req['tier']

            def make():
                out = []
                for i in req['idx']:
                    rng = core.rng_for(seed, prop, i)
                    wid, world = worlds.choose(prop, i)
                    out.append([i, wid, world.gen(rng, tier)])
                return out
            plans = forked(make)
            if isinstance(plans, dict):
                send(dict(id=req['id'], error=plans))
                continue
            if cmd == 'gen':
                send(dict(id=req['id'], plans=plans))
                continue
            for i, wid, plan in plans:
                world = worlds.get(prop, wid)
                if world.nstages(plan) > 1:
                    send(dict(id=req['id'], i=i, world=wid, plan=plan, multi=True))
                    continue
                res = forked(lambda: execute(world, plan))
                res['plandig'] = core.digest(plan)
                res['nops'] = world.size(plan)
                if any(res.get(k) for k in ('violation', 'harness', 'stuck', 'died')) or req.get('sample') == i:
                    res['plan'] = plan
                send(dict(id=req['id'], i=i, world=wid, res=res))
            send(dict(id=req['id'], end=True))
        elif cmd == 'run':
            world = worlds.get(req['prop'], req['world'])
            plan = req['plan']
            res = forked(lambda: execute(world, plan, req.get('inp'), req.get('keep', False)),
                         req.get('wall', WALL))
            res['plandig'] = core.digest(plan)
            send(dict(id=req['id'], res=res))


if __name__ == '__main__':
    main()
