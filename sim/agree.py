"""
World of agreements: the same history is run several times, each time in a process with
another string-hash seed, with other identity hashes, with the classes defined in another
order and the keys of the descriptions given in another order. Outcomes must be the same.

The reference model only serves to know when several outcomes are legitimate (candidates
that tie, several reusable objects): differences with the model are outcomes as others.
"""

import copy
import pickle
import traceback

import core
import simtypes as st
from core import HarnessError, StopRun, rng_for
from regen import Gen, pick
from registry import Registry, Skip, dec, fp_real
import fpmodel as fm

BLOCK = ('cls', 'fp', 'dict')


def depends(op):
    """Names a definition needs."""
    if op['op'] == 'cls':
        return set(op['spec']['bases']) | {p[1] for p in op['spec']['parts'] if isinstance(p, list)}
    if op['op'] == 'fp':
        return {p[1] for p in op['parts'] if isinstance(p, list)}
    return set()


def name_of(op):
    return op['spec']['sid'] if op['op'] == 'cls' else op['name']


def tied(a, b):
    """These definitions cannot be swapped."""
    return name_of(a) == name_of(b) or name_of(a) in depends(b) or name_of(b) in depends(a)


def shuffled(rng, d):
    """The same dictionary, in another order."""
    keys = list(d)
    rng.shuffle(keys)
    return {k: d[k] for k in keys}


def variant(plan, v):
    """The variant number **v** of a plan: its operations carry their original number."""
    ops = [dict(o, oi=i) for i, o in enumerate(plan['ops'])]
    if v == 0:
        return dict(plan, ops=ops)
    rng = rng_for('variant', plan['cfg'].get('salt', 0), v)
    if plan['cfg'].get('order', True):
        out, block = [], []
        for o in ops + [dict(op='end')]:
            if o['op'] in BLOCK:
                block.append(o)
                continue
            # what depends upon a name stays on the same side of its definitions
            while block:
                free = [x for k, x in enumerate(block) if not any(tied(y, x) for y in block[:k])]
                x = free[rng.randrange(len(free))]
                block.remove(x)
                out.append(x)
            block = []
            out.append(o)
        ops = out[:-1]
    new = []
    for o in ops:
        for k in ('desc', 'extra', 'kw'):
            if isinstance(o.get(k), dict) and plan['cfg'].get('keys', True):
                objs = sum(1 for x in o[k].values() if isinstance(x, list) and x[:1] == ['o'])
                if objs < 2:
                    o = dict(o)
                    o[k] = shuffled(rng, o[k])
        new.append(o)
    cfg = dict(plan['cfg'])
    cfg['salt'] = (cfg.get('salt', 0) * 31 + v * 977) % (1 << 30)
    return dict(plan, ops=new, cfg=cfg)


class AgreeRegistry(Registry):

    soft = False

    def outcome(self, *a):
        self.ctx.ev(self.opi, *a)
        oi = self.plan['ops'][self.opi]['oi']
        self.outcomes.append([oi] + list(a))

    def store(self, slot, obj):
        if self.tie:
            # another execution may have another one
            self.slots.pop(slot, None)
        else:
            super().store(slot, obj)

    def commit_class(self, mc, rc):
        super().commit_class(mc, rc)
        self.outcome('fp', mc.sid, fp_real(rc, self))

    def searched(self, how, tag, raising, cands, diags, out, hidden=()):
        # find_any() may meet the class it takes before or after the one that fails,
        # default() a reusable object before or after the one that fails
        if (how == 'any' and raising and cands) or how == 'maybe':
            raise Skip('several legitimate outcomes')

    def op_reg(self, op):
        if op['how'] == 'pop':
            raise Skip('arbitrary')
        super().op_reg(op)

    def op_build(self, op):
        self.several(op['desc'])
        super().op_build(op)

    def op_hash(self, op):
        """Containers that are equal have the same hash."""
        a = dec(op['val'], self, 'm')
        for k in range(3):
            rng = rng_for('hash', op['seed'], k)
            b = dec(rebuild(op['val'], rng), self, 'm')
            if k == 1:
                b = copy.deepcopy(b)
            elif k == 2:
                b = pickle.loads(pickle.dumps(b))
            try:
                same = a == b
                ha, hb = hash(a), hash(b)
            except TypeError:
                self.ctx.inc('unhashable')
                continue
            self.ctx.inc('equal-pairs' if same else 'different-pairs')
            self.ctx.expect(not same or ha == hb, 'hash', lambda: dict(val=op['val'], rebuilt=k, type=type(a).__name__))
            self.ctx.expect(not same or {a: 1}.get(b) == 1, 'hash', lambda: dict(val=op['val'], rebuilt=k))
        if isinstance(a, set) and a and all(type(x) is str for x in a):
            # such a set is exported the same way, whatever the hash seed
            self.outcome('hash', list(a.footprint_export()))
        else:
            self.outcome('hash')

    def several(self, desc):
        pass


def rebuild(v, rng):
    """The same value, its parts being given in another order."""
    if not isinstance(v, list):
        return v
    tag = v[0]
    if tag in ('FS',):
        items = [rebuild(x, rng) for x in v[1]]
        # with some transient items too: this changes the layout of the table
        rng.shuffle(items)
        return [tag, items]
    if tag == 'FD':
        keys = list(v[1])
        rng.shuffle(keys)
        return [tag, {k: rebuild(v[1][k], rng) for k in keys}]
    if tag in ('FL', 'FT', 'l', 't'):
        return [tag, [rebuild(x, rng) for x in v[1]]]
    return v


class AgreeGen(Gen):

    def value(self, depth=0):
        r = self.r
        leaf = [0, 8, 16, 24, 32, 64, 1, -1, -2, 1.5, 'a', 'b', 'c', 'alpha', 'beta', ['FStr', 'a'], ['T', 'alpha'], None, True]
        if depth > 2 or r.random() < 0.4 * (depth > 0):
            return copy.deepcopy(pick(r, leaf))
        k = pick(r, ['FS', 'FS', 'FD', 'FD', 'FL', 'FT'])
        n = r.randint(0, 6)
        if k == 'FD':
            return [k, {pick(r, ['a', 'b', 'c', 'd', 'k1', 'k2', 'k3', 'k9']): self.value(depth + 1) for _ in range(n)}]
        return [k, [self.value(depth + 1) for _ in range(n)]]

    def g_hash(self):
        val = self.value()
        if self.r.random() < .25:
            val = ['FS', self.r.sample(['a', 'b', 'c', 'alpha', 'beta', 'gamma', 'k1', 'k2'], self.r.randint(2, 7))]
        self.ops.append(dict(op='hash', val=val, seed=self.r.randrange(1 << 20)))

    def generate(self):
        plan = super().generate()
        plan['multi'] = 'agree'
        plan['variants'] = 3
        if self.r.random() < 0.2:
            plan['cfg']['order'] = False
        return plan


def generate(rng, prof):
    return AgreeGen(rng, prof).generate()


def run(plan, ctx):
    plan = variant(plan, plan.get('variant', 0))
    st.Salt.value = plan['cfg'].get('salt', 0)
    world = AgreeRegistry(plan, ctx)
    try:
        world.run()
    except StopRun:
        if ctx.foreign:
            i = ctx.foreign['where'][0]
            op = plan['ops'][i] if isinstance(i, int) else dict(op='end', oi=1 << 30)
            world.outcomes.append([op['oi'], '!', ctx.foreign['category']])
            ctx.foreign['block'] = op['op'] in BLOCK
        raise
    except (HarnessError, MemoryError):
        raise
    except Exception as e:
        op = plan['ops'][world.opi] if world.opi is not None else dict(op='end', oi=1 << 30)
        world.outcomes.append([op['oi'], '!', 'observe', type(e).__name__])
        ctx.foreign = dict(category='observe', where=ctx.where, detail=traceback.format_exc()[-1500:],
                           block=op['op'] in BLOCK)
        raise StopRun('observe')
    finally:
        ctx.outcomes = sorted(world.outcomes, key=lambda x: x[0])
        ctx.nontrivial = ctx.count.get('loaded', 0) + ctx.count.get('built', 0) > 0


assert core and fm
