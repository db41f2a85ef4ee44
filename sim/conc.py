"""
World of threads: after some definitions, several threads load, search, build and copy
at the same time, and the code called by the package in mid-resolution does so too.

Oracle: every operation gives (result and report) what it gives when run alone, in a
forked copy of the process that has the very same state.
"""

import collections as pycoll
import contextlib
import copy
import gc
import io
import pickle
import sys
import threading
import zlib

import boot
import core
import simtypes as st
from core import MON, Scheduler, SimAbort, SimBudget, SimInterrupt
from regen import Gen, pick
from registry import Registry, Skip, clean_tag, cv, dec, fork_json, fp_real
from reports import ReportRegistry
from simtypes import HK, Live, SimBase, SimMeta

footprints = boot.footprints
collectors = footprints.collectors

BUDGET = 4000000
CALLS = ('load', 'find', 'build', 'clone', 'copy', 'grep', 'couldbe', 'query')


def frozen(x):
    return core.canon(x)


class Frame:
    """An operation being run by some thread."""

    def __init__(self, key, op, up=None):
        self.key = key
        self.op = op
        self.up = up
        self.hooks = 0
        self.aborted = False


class ConcRegistry(Registry):

    rdiag = ReportRegistry.rdiag
    real_entry = ReportRegistry.real_entry

    def __init__(self, plan, ctx):
        super().__init__(plan, ctx)
        self.frames = {}
        self.results = {}
        self.order = []
        self.made = []
        self.shared = {}
        self.newclasses = []

    def op_setup(self, op):
        """The callback may answer according to the operation on behalf of which it is called."""
        super().op_setup(op)
        if op['what'] == 'callback' and op.get('val') is not None:
            cb, rvals = footprints.setup.callback, self.rcb

            def mine():
                frame = self.frames.get(threading.get_ident())
                if frame is None:
                    return cb()
                HK('callback', None)
                got = rvals[zlib.crc32(frame.key.encode()) % len(rvals)]
                return got if op.get('same') else dict(got)
            footprints.setup.callback = mine

    # ---------------------------------------------------------- one operation --

    def perform(self, key, op):
        """Run an operation for real: what a user may tell about its result."""
        try:
            func = self.prepare(op)
        except Skip:
            return ['skip']
        try:
            got = func()
        except SimAbort:
            raise
        except core.HarnessError:
            raise
        except BaseException as e:
            return ['err', type(e).__name__]
        return got

    def rdesc(self, op, field='desc'):
        if op.get('share') is not None:
            if op['share'] not in self.shared:
                self.shared[op['share']] = {k: dec(v, self, 'r') for k, v in op[field].items()}
            return self.shared[op['share']]
        return {k: dec(v, self, 'r') for k, v in op[field].items()}

    def keep(self, obj):
        if obj is None:
            return [None]
        if not isinstance(obj, SimBase):
            return ['odd', type(obj).__name__]
        self.made.append(obj)
        return [self.sid_of.get(id(type(obj)), '?'), self.named(obj)]

    def prepare(self, op):
        k = op['op']
        if k == 'load':
            tag = op['tag']
            ctag = clean_tag(tag)
            entry = op.get('entry', 'coll')
            if ctag not in self.colls:
                raise Skip('no collector')
            self.usable_levels(ctag)
            desc = self.rdesc(op)
            desc.update(op.get('hidden', {}))
            if entry == 'coll':
                return lambda: self.keep(collectors.get(tag=tag).load(**desc))
            if entry == 'module':
                return lambda: self.keep(footprints.load(tag=tag, **desc))
            if entry == 'proxy':
                return lambda: self.keep(getattr(footprints.proxy, ctag)(**desc))
            if entry in ('pickup', 'mpickup'):
                if entry == 'mpickup':
                    desc['tag'] = tag

                def func():
                    got = (footprints if entry == 'mpickup' else collectors.get(tag=tag)).pickup(desc)
                    obj = got.pop(ctag)
                    return self.keep(obj) + [{a: cv(v, self) for a, v in got.items()}]
                return func
            raise Skip('other entry')
        if k == 'find':
            tag = clean_tag(op['tag'])
            if tag not in self.colls:
                raise Skip('no collector')
            coll = collectors.get(tag=tag)
            desc = self.rdesc(op)
            if op['how'] == 'any':
                return lambda: self.keep(coll.find_any(desc))
            if op['how'] == 'best':
                self.usable_levels(tag)
                return lambda: self.keep(coll.find_best(desc))

            def func():
                got = coll.find_all(desc)
                out = sorted(([self.sid_of.get(id(c), '?'), {a: cv(v, self) for a, v in r.items()}, len(n)]
                              for c, r, n in got), key=frozen)
                return ['all', out]
            return func
        if k in ('build', 'couldbe'):
            if op['cls'] not in self.rcls:
                raise Skip('no class')
            rc = self.rcls[op['cls']]
            desc = self.rdesc(op)
            if k == 'build':
                return lambda: self.keep(rc(dict(desc)) if op.get('pos') else rc(**desc))

            def func():
                got, used = rc.footprint_couldbe(desc)
                return ['couldbe', {a: cv(v, self) for a, v in got.items()} if got else None, sorted(used)]
            return func
        if k in ('clone', 'copy'):
            if op['slot'] not in self.slots:
                raise Skip('no object')
            ro = self.slots[op['slot']]
            if k == 'clone':
                extra = {a: dec(v, self, 'r') for a, v in op['extra'].items()}
                return lambda: self.keep(ro.footprint_clone(full=op.get('full', False), extra=extra or None))
            if op['how'] == 'copy':
                return lambda: self.keep(copy.copy(ro))
            if op['how'] == 'deepcopy':
                return lambda: self.keep(copy.deepcopy(ro))
            return lambda: self.keep(pickle.loads(pickle.dumps(ro, protocol=op.get('proto', 4))))
        if k == 'grep':
            if clean_tag(op['tag']) not in self.colls:
                raise Skip('no collector')
            coll = collectors.get(tag=op['tag'])
            kw = {a: dec(v, self, 'r') for a, v in op['kw'].items()}

            def func():
                coll.grep(**kw)
                return ['grep']
            return func
        if k == 'query':
            if clean_tag(op['tag']) not in self.colls:
                raise Skip('no collector')
            coll = collectors.get(tag=op['tag'])

            def func():
                got = coll.build_attrmap()
                return ['attrmap', sorted([a, sorted([x['module'], x['name']] for x in v)] for a, v in got.items())]
            return func
        if k == 'cls':
            return lambda: self.define(op['spec'])
        raise core.HarnessError('cannot run ' + k)

    def define(self, spec):
        if any(b not in self.rcls for b in spec['bases']):
            return ['skip']
        try:
            rparts = [self.part(p, 'r') for p in spec['parts']]
        except Skip:
            return ['skip']
        d = dict(__module__=spec['mod'])
        if spec.get('listid'):
            d['_footprint'] = self.rlists.setdefault(spec['listid'], rparts)
        elif not spec.get('nofp'):
            d['_footprint'] = rparts[0] if len(rparts) == 1 else rparts
        for k, a in (('abstract', '_abstract'), ('explicit', '_explicit'), ('reusable', '_reusable')):
            if k in spec:
                d[a] = spec[k]
        if 'tags' in spec:
            d['_collector'] = tuple(spec['tags'])
        for n, kind in spec.get('methods', {}).items():
            d[n] = st.method(kind, n)
        for k in ('note', 'started'):
            if k in spec:
                d[k] = spec[k]
        if spec.get('empty'):
            d['__bool__'] = lambda self: False
        bases = tuple(self.rcls[b] for b in spec['bases']) or (SimBase,)
        rc = SimMeta(spec['name'], bases, d)
        setattr(sys.modules[spec['mod']], spec['name'], rc)
        self.sid_of[id(rc)] = spec['sid']
        self.newclasses.append(rc)
        return ['defined', fp_real(rc, self)]

    def entries(self):
        """Content of all the report logs: {tag: [canonical entry...]}"""
        out = {}
        for tag in sorted(self.colls):
            log = collectors.get(tag=tag).report_log
            items = list(log)
            out[tag] = [self.real_entry(e) for e in items]
        return out

    # ------------------------------------------------------------ references --

    def flat(self):
        """All the operations: [(key, operation)], in the order of the programs."""
        out = []

        def walk(key, op):
            out.append((key, op))
            for n, (at, sub) in enumerate(op.get('nest', ())):
                walk(key + '.{:d}'.format(n), sub)
        for t, ops in enumerate(self.plan['threads']):
            for i, op in enumerate(ops):
                walk('{:d}/{:d}'.format(t, i), op)
        return out

    def alone(self, first=()):
        """Every operation, one after the other, nobody else being there."""
        for op in first:
            try:
                self.define(op['spec'])
            except Exception:
                pass
        out = {}
        HK.enabled = True
        HK.listener = None
        todo = self.flat()
        todo = [x for x in todo if x[1]['op'] != 'cls'] + [x for x in todo if x[1]['op'] == 'cls' and not first]
        for key, op in todo:
            for t in self.colls:
                collectors.get(tag=t).report_log.clear()
            self.frames[threading.get_ident()] = Frame(key, op)
            steps = MON.total
            MON.begin(BUDGET)
            with contextlib.redirect_stdout(io.StringIO()):
                got = self.perform(key, op)
            MON.end()
            out[key] = dict(got=got, steps=MON.total - steps,
                            log={t: v for t, v in self.entries().items() if v})
        self.frames.clear()
        return out

    # ---------------------------------------------------------------- threads --

    def run_op(self, key, op, up=None):
        me = threading.get_ident()
        frame = Frame(key, op, up)
        self.frames[me] = frame
        try:
            got = self.perform(key, op)
        except SimAbort as e:
            frame.aborted = True
            got = ['aborted', type(e).__name__]
            self.results[key] = got
            self.order.append(key)
            self.frames[me] = up
            if up is not None or not isinstance(e, SimInterrupt):
                raise
            return
        self.results[key] = got
        self.order.append(key)
        self.frames[me] = up

    def hook(self, kind, name):
        frame = self.frames.get(threading.get_ident())
        if frame is None:
            return
        frame.hooks += 1
        for n, (at, sub) in enumerate(frame.op.get('nest', ())):
            if at == frame.hooks:
                self.ctx.inc('fault:reentry')
                self.run_op(frame.key + '.{:d}'.format(n), sub, frame)

    def program(self, t):
        def func():
            for i, op in enumerate(self.plan['threads'][t]):
                self.run_op('{:d}/{:d}'.format(t, i), op)
        return func

    def together(self):
        ctx = self.ctx
        plan = self.plan
        ctx.where = ['together', 'together']
        gc.collect()
        for t in self.colls:
            collectors.get(tag=t).report_log.clear()
        defs = [op for _, op in self.flat() if op['op'] == 'cls']
        ref = fork_json(self.alone)
        refs = [ref]
        if defs:
            refs.append(fork_json(lambda: self.alone(defs)))
        total = sum(x['steps'] for x in ref.values())
        classes = {sid: fp_real(rc, self) for sid, rc in self.rcls.items()}
        settings = [cv(dict(footprints.setup.defaults), self), list(footprints.priorities.top.levels)]
        sched = Scheduler([[1 + int(f * total), t] for f, t in plan['switches']])
        for t in range(len(plan['threads'])):
            sched.spawn(self.program(t))
        HK.faults, HK.calls = [], {}
        HK.listener = self.hook
        HK.enabled = True
        MON.begin(BUDGET)
        for fault in plan.get('faults', ()):
            def act():
                ctx.inc('fault:interrupt')
                raise SimInterrupt()
            if fault['k'] == 'int':
                MON.actions[1 + int(fault['frac'] * total)] = act
            else:
                MON.actions[1 + int(fault['frac'] * total)] = gc.collect
                ctx.inc('fault:gc')
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                sched.run()
        finally:
            steps = MON.end()
            HK.enabled = False
            HK.listener = None
        ctx.inc('steps', steps)
        ctx.inc('fault:preempt', sched.switches)
        ctx.state('trace', sched.trace)
        ctx.ev('together', [[k, self.results[k]] for k in self.order])
        self.compare(refs, defs, sched.errors)
        ctx.where = ['after', 'after']
        for k, d in self.shared.items():
            want = next(o['desc'] for _, o in self.flat() if o.get('share') == k)
            want = {a: cv(dec(v, self, 'r'), self) for a, v in want.items()}
            got = {a: cv(v, self) for a, v in d.items()}
            ctx.expect(got == want, 'conc', lambda: dict(description=got, want=want))
        # nothing else has changed
        after = {sid: fp_real(rc, self) for sid, rc in self.rcls.items()}
        ctx.expect(after == classes, 'conc', lambda: dict(
            footprints=[s for s in classes if after[s] != classes[s]]))
        now = [cv(dict(footprints.setup.defaults), self), list(footprints.priorities.top.levels)]
        ctx.expect(now == settings, 'conc', dict(settings=now, want=settings))
        # all the objects are tracked (and only them)
        gc.collect()
        if not any(r[0] == 'aborted' for r in self.results.values()):
            for tag in self.colls:
                got = sorted(o._simid for o in collectors.get(tag=tag).instances())
                want = sorted(o._simid for o in map(lambda n: Live.refs[n](), Live.alive())
                              if self.tracked(type(o), tag))
                ctx.expect(got == want, 'conc', lambda: dict(tag=tag, tracked=got, alive=want))
        # and it still works
        self.made = []
        self.shared = {}
        again = fork_json(self.alone) if not defs else None
        if again is not None:
            for key in again:
                ctx.expect(again[key]['got'] == ref[key]['got'], 'conc', lambda: dict(
                    after=key, op=dict(self.flat())[key], got=again[key]['got'], want=ref[key]['got']))

    def tracked(self, cls, tag):
        sid = self.sid_of.get(id(cls))
        if sid in self.mcls:
            return tag in self.mcls[sid].boards
        spec = next(o['spec'] for _, o in self.flat() if o['op'] == 'cls' and o['spec']['sid'] == sid)
        if 'tags' in spec:
            return tag in [clean_tag(t) for t in spec['tags']]
        return cls in collectors.get(tag=tag).items()

    def compare(self, refs, defs, errors):
        ctx = self.ctx
        ops = dict(self.flat())
        # what may have seen the new class
        around, before, atdef = set(), set(), None
        for key in self.order:
            if ops[key]['op'] == 'cls':
                atdef = key
        if atdef is not None:
            around = {key for key in self.order if (atdef + '.').startswith(key + '.')}
            for key in self.order:
                if key == atdef:
                    break
                before.add(key)
        for key in self.order:
            if self.results[key][:2] == ['aborted', 'SimBudget']:
                ctx.flag('hang', dict(op=ops[key]))
        ctx.expect(not errors, 'conc', lambda: dict(errors=errors))
        missing = [k for k in ops if k not in self.results and ('.' not in k)]
        ctx.expect(not missing, 'conc', lambda: dict(never_run=missing))
        for key in self.order:
            got, op = self.results[key], ops[key]
            if got[0] == 'aborted':
                ctx.expect(got[1] == 'SimInterrupt', 'conc', lambda: dict(op=op, got=got))
                continue
            if op['op'] == 'cls':
                want = [refs[0][key]['got']]
            elif atdef is None or key in before and key not in around:
                want = [refs[0][key]['got']]
            elif key in around:
                want = [r[key]['got'] for r in refs]
            else:
                want = [refs[-1][key]['got']]
            ctx.inc('compared')
            if '.' in key:
                ctx.inc('nested')
            ctx.expect(any(frozen(got) == frozen(w) for w in want), 'conc', lambda: dict(
                key=key, op={a: b for a, b in op.items() if a != 'nest'}, got=got, alone=want))
        self.compare_reports(refs, ops, around, before, atdef)

    def compare_reports(self, refs, ops, around, before, atdef):
        ctx = self.ctx
        new = {c.fullname() for c in self.newclasses}

        def strip(e):
            return frozen([e['name'], sorted(([c, d] for c, d in e['classes'] if c not in new), key=frozen)])
        got = self.entries()
        aborted = [k for k in self.order if self.results[k][0] == 'aborted']
        for tag in sorted(self.colls):
            have = pycoll.Counter(strip(e) for e in got[tag])
            want = pycoll.Counter()
            diags = set()
            for key in self.order:
                if key in aborted:
                    continue
                if atdef is not None and key not in before:
                    r = refs[-1]
                else:
                    r = refs[0]
                if key in around:
                    for r in refs:
                        for e in r.get(key, {}).get('log', {}).get(tag, ()):
                            diags.update(frozen(c) for c in e['classes'])
                    continue
                for e in r.get(key, {}).get('log', {}).get(tag, ()):
                    want[strip(e)] += 1
                    diags.update(frozen(c) for c in e['classes'])
            ctx.inc('report-entries', sum(have.values()))
            maxlen = collectors.get(tag=tag).lreport_len
            full = len(got[tag]) >= maxlen
            if full:
                ctx.inc('report-full')
            extra = have - want
            lost = want - have
            if not full:
                ctx.expect(not lost, 'report', lambda: dict(tag=tag, lost=sorted(lost), extra=sorted(extra)))
            if not aborted and not around:
                ctx.expect(not extra, 'report', lambda: dict(tag=tag, lost=sorted(lost), extra=sorted(extra)))
            elif not aborted:
                for e in got[tag]:
                    for c in e['classes']:
                        if c[0] not in new and strip(e) in extra:
                            ctx.expect(frozen(c) in diags, 'report', lambda: dict(tag=tag, unexpected=c))

    def run(self):
        ctx = self.ctx
        MON.install()
        try:
            for i, op in enumerate(self.plan['ops']):
                self.do(i, op)
            self.together()
            ctx.where = ['end', 'end']
        finally:
            HK.enabled = False
            HK.listener = None


class ConcGen(Gen):

    def g_couldbe(self):
        sid = self.pick_class()
        if sid is not None:
            self.ops.append(dict(op='couldbe', cls=sid, desc=self.desc_for(sid)))

    def one(self, table):
        """One more operation of a thread."""
        r = self.r
        n = len(self.ops)
        info = dict(self.slotinfo)
        for _ in range(20):
            k = pick(r, table)
            getattr(self, 'g_' + k)()
            if len(self.ops) > n:
                break
        else:
            return None
        op = self.ops.pop()
        del self.ops[n:]
        self.slotinfo = info
        for x in ('slot', 'to', 'fault'):
            if x in op and not (x == 'slot' and op['op'] in ('clone', 'copy')):
                del op[x]
        if op['op'] == 'query':
            op = dict(op='query', tag=op.get('tag') or self.tags[0])
        if op['op'] == 'grep' and 'tag' not in op:
            op['tag'] = self.tags[0]
        if op['op'] == 'load' and op.get('entry') not in ('coll', 'module', 'proxy', 'pickup', 'mpickup'):
            op['entry'] = 'coll'
            op.pop('src', None)
        return op

    def nested(self, table, depth=0):
        r = self.r
        out = []
        for _ in range(r.randint(1, 2)):
            op = self.one(table)
            if op is None:
                continue
            if depth < 1 and r.random() < 0.25:
                op['nest'] = self.nested(table, depth + 1)
            out.append([pick(r, [1, 1, 2, 2, 3, 4, 5, 7, 10]), op])
        return out

    def generate(self):
        r = self.r
        plan = super().generate()
        mode = pick(r, self.p['modes'])
        table = ['load'] * 4 + ['find'] * 4 + ['build'] * 2 + ['clone', 'copy', 'couldbe']
        if r.random() < 0.3:
            table += ['grep', 'query']
        nth = 1 if mode == 'define' else r.randint(2, 4) if mode != 'nested' else r.randint(1, 2)
        threads = []
        last = None
        nshare = 0
        for t in range(nth):
            ops = []
            for _ in range(r.randint(1, 4)):
                op = self.one(table)
                if op is None:
                    continue
                if op['op'] in ('find', 'couldbe') and r.random() < 0.4:
                    if last is not None and r.random() < 0.7:
                        op = dict(last, how=op.get('how', 'all'), op='find') if 'tag' in last else dict(last)
                    else:
                        nshare += 1
                        op['share'] = nshare
                        last = op
                elif last is not None and r.random() < 0.15:
                    op = dict(last)
                op = copy.deepcopy(op)
                if r.random() < dict(nested=.7, define=.4).get(mode, .2):
                    op['nest'] = self.nested(table)
                ops.append(op)
            threads.append(ops)
        # the same operation by several threads: they meet at the same places
        if nth > 1 and r.random() < 0.5 and threads[0]:
            for ops in threads[1:]:
                ops.insert(0, copy.deepcopy(threads[0][0]))
        if mode == 'define' and any(threads):
            n = len(self.ops)
            self.g_cls()
            new = self.ops[n:]
            if len(new) == 1 and new[0]['op'] == 'cls':
                host = pick(r, [o for o in threads[0]])
                new[0].pop('fault', None)
                host.setdefault('nest', []).append([pick(r, [1, 1, 2, 3, 4, 6]), new[0]])
            del self.ops[n:]
        switches = []
        kind = pick(r, ['random', 'random', 'quantum', 'burst', 'none' if nth == 1 else 'random'])
        if nth > 1:
            if kind == 'random':
                switches = [[round(r.random(), 5), r.randrange(nth)] for _ in range(pick(r, [1, 2, 4, 8, 16, 40]))]
            elif kind == 'quantum':
                n = pick(r, [20, 60, 200])
                switches = [[round((i + r.random()) / n, 5), r.randrange(nth)] for i in range(n)]
            elif kind == 'burst':
                a = r.random()
                w = pick(r, [0.005, 0.02, 0.1])
                switches = [[round(a + w * r.random(), 5), r.randrange(nth)] for _ in range(pick(r, [10, 30, 80]))]
        faults = []
        if r.random() < self.p['p_cut']:
            for _ in range(r.randint(1, 2)):
                faults.append(dict(k=pick(r, ['int', 'int', 'gc']), frac=round(r.random(), 4)))
        return dict(plan, threads=threads, switches=sorted(switches), faults=faults)


def generate(rng, prof):
    return ConcGen(rng, prof).generate()
