"""
The priority world: sets of priority levels through histories of operations, some of
them failing, cut short, or observed by another thread.

Reference model: a plain list of names per set, and the frozen copies.
"""

import core
import boot
import simtypes as st
from core import HarnessError, MON, Scheduler, SimBudget, SimInterrupt
from registry import fork_json

priorities = boot.footprints.priorities
PrioritySet = priorities.PrioritySet
PriorityLevel = priorities.PriorityLevel

NAMES = ['none', 'low', 'default', 'Toolbox', 'DEBUG', 'oper', 'x1', 'top', 'Level9']
BAD = ['nope', 'zz', '']


def pick(r, seq):
    return seq[r.randrange(len(seq))]


def gen(r, tier):
    sets = {'a': r.sample(NAMES, r.randint(0, 5))}
    if r.random() < 0.3:
        sets['b'] = r.sample(NAMES, r.randint(1, 4))
    names = sorted(sets) + (['top'] if r.random() < 0.4 else [])
    cur = {k: [x.upper() for x in sets[k]] if k in sets else ['NONE', 'DEFAULT', 'TOOLBOX', 'DEBUG'] for k in names}
    kinds = ['extend', 'insert', 'insert', 'up', 'down', 'top', 'bottom', 'rerank', 'rerank', 'remove', 'delete',
             'addafter', 'addbefore', 'freeze', 'restore', 'restore', 'reset', 'multi', 'handle', 'lookup']
    kinds = [k for k in kinds if r.random() < 0.85] or ['insert']
    ops = []
    nop = r.randint(6, 30) * (2 if tier == 'thorough' and r.random() < .3 else 1)
    faulty = r.random() < 0.5
    pbad = pick(r, [0, 0.1, 0.3])
    for _ in range(nop):
        s = pick(r, names)
        c = cur[s]

        def lev():
            x = pick(r, c) if c and r.random() >= pbad else pick(r, NAMES + BAD)
            return pick(r, [x, x.lower(), x.upper(), x.title()])
        k = pick(r, kinds)
        op = dict(op=k, s=s)
        if k == 'extend':
            op['l'] = [pick(r, NAMES) for _ in range(r.randint(0, 3))]
        elif k == 'insert':
            op['l'] = pick(r, NAMES) if r.random() < 0.95 else None
            how = pick(r, ['after', 'before', 'after', 'before', None])
            if how:
                op[how] = lev()
                op['asobj'] = r.random() < 0.3
            if r.random() < 0.05:
                op['both'] = lev()
            if op['l'] and op['l'].upper() not in c:
                c.append(op['l'].upper())
        elif k in ('up', 'down', 'top', 'bottom', 'remove', 'delete'):
            op['l'] = lev()
            op['asobj'] = r.random() < 0.4
        elif k == 'rerank':
            op['l'] = lev()
            op['n'] = pick(r, [-9, -2, -1, 0, 1, 2, 3, 9])
        elif k in ('addafter', 'addbefore'):
            op['ref'] = lev()
            op['l'] = pick(r, NAMES)
            if op['l'].upper() not in c:
                c.append(op['l'].upper())
        elif k == 'freeze':
            op['n'] = pick(r, ['f1', 'F1', 'f2', 'Default' if r.random() < 0.2 else 'f3'])
        elif k == 'restore':
            op['n'] = pick(r, ['f1', 'F2', 'f3', 'default', 'never' if r.random() < 0.3 else 'f1'])
        elif k == 'multi':
            op['s'] = 'top' if 'top' in names else s
            op['ref'] = lev()
            op['after'] = r.random() < 0.5
            op['l'] = [pick(r, NAMES) for _ in range(r.randint(0, 3))]
        elif k == 'handle':
            op['l'] = lev()
            op['h'] = pick(r, ['h1', 'h2', 'h3'])
        elif k == 'lookup':
            op['l'] = lev()
        if faulty and r.random() < 0.3:
            op['fault'] = dict(k='int', frac=round(r.random(), 3))
        ops.append(op)
    plan = dict(sets=sets, ops=ops, cfg=dict(salt=0))
    if r.random() < 0.25:
        # a burst of operations with a concurrent reader
        plan['burst'] = r.randint(2, 8)
        plan['start'] = r.randint(0, max(0, nop - plan['burst']))
        plan['reads'] = [pick(r, ['levels', 'iter', 'call', 'len', 'in']) for _ in range(r.randint(3, 12))]
        n = r.randint(1, 25)
        plan['switches'] = sorted([r.randint(1, 160), r.randrange(2)] for _ in range(n))
    return plan


class Fail(Exception):
    """The model says that the operation is refused."""


class Prio:

    def __init__(self, plan, ctx):
        self.plan = plan
        self.ctx = ctx
        self.real = {}
        self.model = {}
        self.frozen = {}
        self.handles = {}
        self.used_top = False
        for k, lv in plan['sets'].items():
            self.real[k] = PrioritySet(levels=lv)
            self.model[k] = [x.upper() for x in lv]
            self.frozen[k] = dict(default=list(self.model[k]))
        self.real['top'] = priorities.top
        self.model['top'] = list(priorities.top.levels)
        self.frozen['top'] = dict(default=list(self.model['top']))
        self.touched = {o['s'] for o in plan['ops']}

    # -- model ---------------------------------------------------------------

    def apply(self, op):
        """New order (or Fail), and the name of the level that should be returned."""
        k, s = op['op'], op['s']
        cur = list(self.model[s])
        ret = False

        def insert(cur, tag, after=None, before=None):
            tag = tag.upper()
            out = [x for x in cur if x != tag]
            ref = (after if after is not None else before)
            if ref is None:
                out.append(tag)
                return out
            ref = ref.upper()
            if ref == tag and ref in cur:
                return cur          # next to itself: refused or nothing to do
            if ref not in out:
                raise Fail()
            out.insert(out.index(ref) + (1 if after is not None else 0), tag)
            return out

        def move(cur, tag, shift):
            tag = tag.upper()
            if tag not in cur:
                raise Fail()
            i = cur.index(tag)
            out = [x for x in cur if x != tag]
            out.insert(max(0, i + shift), tag)
            return out
        if k == 'extend':
            for x in op['l']:
                x = x.upper()
                cur = [y for y in cur if y != x] + [x]
        elif k == 'insert':
            if op['l'] is None:
                return cur, None
            cur = insert(cur, op['l'], op.get('after'), op.get('before'))
            ret = op['l'].upper()
        elif k in ('up', 'down', 'top', 'bottom'):
            cur = move(cur, op['l'], dict(up=1, down=-1, top=len(cur), bottom=-len(cur))[k])
            ret = op['l'].upper()
        elif k == 'rerank':
            cur = move(cur, op['l'], op['n'])
            ret = op['l'].upper()
        elif k in ('remove', 'delete'):
            if op['l'].upper() not in cur:
                raise Fail()
            cur.remove(op['l'].upper())
        elif k in ('addafter', 'addbefore'):
            cur = insert(cur, op['l'], **{k[3:]: op['ref']})
            ret = op['l'].upper()
        elif k == 'multi':
            ref = op['ref']
            for x in (reversed(op['l']) if op['after'] else op['l']):
                cur = insert(cur, x, **{'after' if op['after'] else 'before': ref})
        elif k == 'freeze':
            if op['n'].lower() == 'default':
                raise Fail()
        elif k in ('restore', 'reset'):
            n = op.get('n', 'default').lower()
            if n not in self.frozen[s]:
                raise Fail()
            cur = list(self.frozen[s][n])
        elif k in ('handle', 'lookup'):
            pass
        else:
            raise HarnessError(k)
        return cur, ret

    # -- real ----------------------------------------------------------------

    def func(self, op):
        k, ps = op['op'], self.real[op['s']]
        if k == 'extend':
            return lambda: ps.extend(*op['l'])
        if k == 'insert':
            kw = {}
            for w in ('after', 'before'):
                if w in op:
                    ref = op[w]
                    if op.get('asobj') and ref.upper() in self.model[op['s']]:
                        ref = ps.level(ref)
                    kw[w] = ref
            return lambda: ps.insert(tag=op['l'], **kw)
        if k in ('up', 'down', 'top', 'bottom', 'delete', 'addafter', 'addbefore'):
            lv = ps.level(op.get('ref', op['l']) if k.startswith('add') else op['l'])
            if lv is None:
                return None
            if k.startswith('add'):
                return lambda: getattr(lv, k)(op['l'])
            return lambda: getattr(lv, k)()
        if k == 'rerank':
            return lambda: ps.rerank(op['l'], op['n'])
        if k == 'remove':
            tag = op['l']
            if op.get('asobj') and tag.upper() in self.model[op['s']]:
                tag = ps.level(tag)
            return lambda: ps.remove(tag)
        if k == 'freeze':
            return lambda: ps.freeze(op['n'])
        if k == 'restore':
            return lambda: ps.restore(op['n'])
        if k == 'reset':
            return ps.reset
        if k == 'multi':
            if op['s'] == 'top':
                f = priorities.set_after if op['after'] else priorities.set_before
                return lambda: f(op['ref'], *op['l'])

            def several():
                for x in (reversed(op['l']) if op['after'] else op['l']):
                    ps.insert(tag=x, **{'after' if op['after'] else 'before': op['ref']})
            return several
        return None

    def call(self, func, fault=None):
        if fault:
            def probe():
                MON.begin(20000)
                try:
                    func()
                except BaseException:
                    pass
                return MON.end()
            n = fork_json(probe)
        MON.begin(20000)
        if fault:
            def act():
                raise SimInterrupt()
            MON.actions[1 + int(fault['frac'] * n)] = act
        exc = value = None
        try:
            value = func()
        except SimBudget:
            MON.end()
            self.ctx.flag('hang', 'priority operation')
        except SimInterrupt:
            exc = 'SimInterrupt'
            self.ctx.inc('fault:int')
        except Exception as e:
            exc = type(e).__name__
        finally:
            self.ctx.inc('steps', MON.end())
        return value, exc

    def run(self):
        MON.install()
        plan = self.plan
        self.check('init')
        i = 0
        while i < len(plan['ops']):
            if 'burst' in plan and i == plan['start']:
                self.burst(plan['ops'][i:i + plan['burst']])
                i += plan['burst']
                continue
            self.do(i, plan['ops'][i])
            i += 1
        self.ctx.where = ['end', 'end']

    def do(self, i, op):
        ctx = self.ctx
        ctx.where = [i, op['op']]
        s = op['s']
        if op['op'] == 'handle':
            lv = self.real[s].level(op['l'])
            if op['l'].upper() in self.model[s]:
                self.handles[op['h']] = (s, op['l'].upper(), lv)
        elif op['op'] == 'lookup':
            self.lookup(s, op['l'])
        else:
            func = self.func(op)
            if func is None:
                ctx.expect(op.get('ref', op['l']).upper() not in self.model[s], 'prio',
                           dict(level=op['l'], got=None))
                return
            old = list(self.model[s])
            try:
                new, ret = self.apply(op)
                fail = False
            except Fail:
                new, ret, fail = old, False, True
            if op['op'] == 'multi' and fail and not op['l']:
                fail = False
            value, exc = self.call(func, op.get('fault'))
            got = list(self.real[s].levels)
            if exc == 'SimInterrupt':
                ctx.ev(i, op['op'], 'cut')
                if op['op'] == 'multi':
                    # several operations: any prefix of them
                    opts = [old, new]
                    cur = dict(op)
                    for k in range(1, len(op['l'])):
                        cur['l'] = op['l'][-k:] if op['after'] else op['l'][:k]
                        try:
                            opts.append(self.apply(cur)[0])
                        except Fail:
                            pass
                else:
                    opts = [old, new]
                ctx.expect(got in opts, 'prio', dict(op=op['op'], fault='interrupt', got=got, old=old, new=new))
                self.model[s] = got
                if op['op'] == 'freeze':
                    n = op['n'].lower()
                    if n in self.real[s].freezed() and n != 'default':
                        # old or new content: look
                        self.call(lambda: self.real[s].freeze('scratch0'))
                        self.call(lambda: self.real[s].restore(n))
                        have = list(self.real[s].levels)
                        ctx.expect(have in [old, self.frozen[s].get(n)], 'prio',
                                   dict(op='freeze', fault='interrupt', got=have))
                        self.frozen[s][n] = have
                        self.call(lambda: self.real[s].restore('scratch0'))
                        self.frozen[s]['scratch0'] = list(got)
                self.call(lambda: self.real[s].freeze('scratch'))
                self.call(lambda: self.real[s].restore('scratch'))
                self.frozen[s]['scratch'] = list(got)
            else:
                if fail and op['op'] != 'multi':
                    ctx.expect(exc is not None, 'prio', dict(op=op, got='accepted', want='refused'))
                same = op['op'] in ('insert', 'addafter', 'addbefore', 'multi') and \
                    any(str(op.get(w) or '').upper() == str(x).upper()
                        for w in ('after', 'before', 'ref')
                        for x in (op['l'] if isinstance(op['l'], list) else [op['l']]))
                if not fail and not same:
                    ctx.expect(exc is None, 'prio', dict(op=op, got=exc, want=new))
                if op['op'] == 'multi' and (exc is not None or same):
                    # stopped half way: what was done before may stay
                    opts = [old, new]
                    cur = dict(op)
                    for k in range(1, len(op['l'])):
                        cur['l'] = op['l'][-k:] if op['after'] else op['l'][:k]
                        try:
                            opts.append(self.apply(cur)[0])
                        except Fail:
                            pass
                    ctx.expect(got in opts, 'prio', dict(op=op, got=got, want=opts))
                    new = got
                if exc is None:
                    if op['op'] == 'freeze':
                        self.frozen[s][op['n'].lower()] = list(old)
                    if isinstance(ret, str):
                        ctx.expect(isinstance(value, PriorityLevel) and value.tag == ret, 'prio',
                                   dict(op=op, returned=str(value), want=ret))
                    ctx.ev(i, op['op'], 'ok')
                else:
                    ctx.inc('fault:refused')
                    ctx.ev(i, op['op'], 'refused')
                self.model[s] = new
        ctx.inc('op:' + op['op'])
        self.check(op['op'])
        ctx.state(self.model, sorted((k, sorted(v)) for k, v in self.frozen.items()), op['op'])

    def lookup(self, s, name):
        ps = self.real[s]
        there = name.upper() in self.model[s]
        value, exc = self.call(lambda: ps.level(name))
        self.ctx.expect(exc is None and (value is not None) == there, 'prio', dict(level=name, got=str(value), there=there))
        value, exc = self.call(lambda: name in ps)
        self.ctx.expect(exc is None and value == there, 'prio', dict(contains=name, got=value))
        value, exc = self.call(lambda: ps.levelindex(name))
        if there:
            self.ctx.expect(value == self.model[s].index(name.upper()), 'prio', dict(levelindex=name, got=value))
        else:
            self.ctx.expect(exc is not None, 'prio', dict(levelindex=name, got=value))

    def check(self, what):
        """Everything that can be asked agrees with the model."""
        for s, order in self.model.items():
            if s not in self.touched and s == 'top':
                continue
            ps = self.real[s]

            def look():
                got = [list(ps.levels), list(ps), list(ps()), len(ps), ps.freezed()]
                objs = [ps.level(x) for x in order]
                got.append([o.rank for o in objs])
                got.append([o() for o in objs])
                got.append([ps.levelindex(x.lower()) for x in order])
                got.append([getattr(ps.levelbyindex(i), 'tag', None) for i in range(-1, len(order) + 1)])
                got.append([getattr(o.nextlevel(), 'tag', None) for o in objs])
                got.append([getattr(o.prevlevel(), 'tag', None) for o in objs])
                got.append([o.tag for o in sorted(reversed(objs))])
                got.append([[a < b, a <= b, a == b, a != b, a > b, a >= b] for a in objs for b in objs])
                got.append([[a == b.tag.lower(), a > b.tag, a < b.tag.lower(), a >= b.tag] for a in objs for b in objs])
                got.append([(x in ps and x.lower() in ps and o in ps) for x, o in zip(order, objs)])
                got.append([o.inset is ps for o in objs])
                return got
            value, exc = self.call(look)
            n = len(order)
            ids = list(range(n))
            cmp = [[a < b, a <= b, a == b, a != b, a > b, a >= b] for a in ids for b in ids]
            want = [order, order, order, n, sorted(self.frozen[s]), ids, ids, ids, [None] + order + [None],
                    order[1:] + [None] if n else [], [None] + order[:-1] if n else [], order, cmp,
                    [[a == b, a > b, a < b, a >= b] for a in ids for b in ids], [True] * n, [True] * n]
            self.ctx.expect(exc is None and value == want, 'prio',
                            lambda: dict(after=what, set=s, exc=exc, got=value if value is None else
                                         next([x, y] for x, y in zip(value, want) if x != y)))
        for h, (s, tag, obj) in self.handles.items():
            value, exc = self.call(lambda: obj.rank)
            if tag in self.model[s]:
                self.ctx.expect(value == self.model[s].index(tag), 'prio', dict(handle=tag, got=value, exc=exc))
            else:
                self.ctx.expect(exc is not None, 'prio', dict(handle=tag, got=value, want='refused'))

    # -- threads -------------------------------------------------------------

    def burst(self, ops):
        """Some operations by one thread while another one reads."""
        ctx = self.ctx
        ctx.where = ['burst', 'burst']
        orders = {k: [list(v)] for k, v in self.model.items()}
        todo = []
        for op in ops:
            if op['op'] in ('handle', 'lookup', 'multi'):
                continue
            todo.append(op)
        seen = []
        reads = self.plan['reads']
        target = todo[0]['s'] if todo else 'a'
        ps = self.real[target]
        errors = []

        def writer():
            for op in todo:
                func = self.func(op)
                if func is None:
                    continue
                try:
                    new, ret = self.apply(op)
                except Fail:
                    new = list(self.model[op['s']])
                orders[op['s']].append(list(new))
                try:
                    func()
                    if op['op'] == 'freeze':
                        self.frozen[op['s']][op['n'].lower()] = list(self.model[op['s']])
                    self.model[op['s']] = new
                except Exception:
                    pass
                errors.append([op, list(self.real[op['s']].levels), list(self.model[op['s']])])

        def reader():
            for k in reads:
                if k == 'levels':
                    seen.append([k, list(ps.levels)])
                elif k == 'iter':
                    seen.append([k, list(ps)])
                elif k == 'call':
                    seen.append([k, list(ps())])
                elif k == 'len':
                    seen.append([k, len(ps)])
                else:
                    seen.append([k, [x for x in ('NONE', 'DEFAULT') if x in ps]])
        sched = Scheduler(self.plan['switches'])
        sched.spawn(writer)
        sched.spawn(reader)
        MON.begin(200000)
        sched.run()
        MON.end()
        ctx.inc('fault:preempt', sched.switches)
        ctx.state('burst', sched.trace)
        ctx.expect(not sched.errors, 'prio', dict(op='concurrent', errors=sched.errors))
        for op, got, want in errors:
            ctx.expect(got == want, 'prio', dict(op=op, concurrent=True, got=got, want=want))
        valid = orders[target]
        for k, got in seen:
            if k == 'len':
                ok = got in [len(x) for x in valid]
            elif k == 'in':
                opts = {y for x in valid for y in x}
                ok = all(x in opts for x in got)
            else:
                ok = got in valid
            ctx.expect(ok, 'prio', dict(op='concurrent read', kind=k, got=got, want=valid))
        ctx.ev('burst', seen)
        self.check('burst')
