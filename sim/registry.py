"""
The registry world: one process, one package, one user.

A plan is a history of operations upon classes, collectors, settings, priorities and
objects, some of them hit by a fault. Every operation runs against the real package
and against the reference model (``fpmodel``); the complete observable state is
compared after each of them.
"""

import base64
import copy
import gc
import io
import json
import os
import contextlib
import pickle
import re
import sys
import traceback
import types
import weakref

import boot
import core
import fpmodel as fm
import simtypes as st
from bronx.stdtypes.dictionaries import LowerCaseDict
from core import HarnessError, MON, SimAbort, SimBudget, SimInterrupt
from fpmodel import MClass, MErr, MFoot, MObj, MWeak
from simtypes import HK, Live, SimBase, SimMeta

footprints = boot.footprints
UNKNOWN = footprints.UNKNOWN
collectors = footprints.collectors
priorities = footprints.priorities
CMOD = sys.modules

BUDGET = 400000

# ------------------------------------------------------------ canonical form --


def _num(v):
    return v


SETS = re.compile(r'Set\(\{([^{}]*)\}\)')


def ordered(m):
    """Sets are printed in any order."""
    return 'Set({' + ', '.join(sorted(m.group(1).split(', '))) + '})'


def cv(v, w):
    """Canonical (JSON-able, address free) form of a value of either side."""
    if v is None or v is True or v is False:
        return v
    t = type(v)
    if t is str:
        return ['U'] if v is UNKNOWN else v if 'Set({' not in v else SETS.sub(ordered, v)
    if t in (int, float):
        return [t.__name__, v]
    if t is MWeak:
        return ['w', v.uid if v.uid in w.talive else 'DEAD']
    if t in weakref.ProxyTypes:
        try:
            return ['w', v.uid]
        except ReferenceError:
            return ['w', 'DEAD']
        except AttributeError:
            return ['w', '?']
    if isinstance(v, (SimBase, MObj)):
        sid = v._simid if isinstance(v, SimBase) else v.simid
        return ['o', sid]
    if isinstance(v, st.Tok):
        return [t.__name__, v.v]
    if isinstance(v, st.Tgt):
        return ['tgt', v.uid]
    if isinstance(v, type):
        return ['cls', v.__name__]
    if isinstance(v, dict):
        return [t.__name__, sorted(([cv(k, w), cv(x, w)] for k, x in v.items()), key=core.canon)]
    if isinstance(v, (list, tuple)):
        return [t.__name__, [cv(x, w) for x in v]]
    if isinstance(v, (set, frozenset)):
        return [t.__name__, sorted((cv(x, w) for x in v), key=core.canon)]
    if isinstance(v, st.Src):
        return ['Src', cv(v._v, w)]
    if isinstance(v, str):
        return [t.__name__, str(v)]
    if hasattr(v, 'pattern'):
        return ['re', v.pattern]
    return ['?', t.__name__]


def fp_real(cls, w):
    """Public view of the footprint of a real class."""
    fp = cls.footprint_retrieve()
    out = {}
    for k, d in fp.attr.items():
        out[k] = [d.get('type', str).__name__, bool(fp.optional(k)), cv(d['default'], w),
                  cv(set(fp.get_values(k)), w), cv(set(fp.get_outcast(k)), w),
                  cv(dict(d['remap']), w), sorted(d['alias']), cls.footprint_access(k),
                  cv(dict(d.get('args', {})), w), bool(d.get('isclass', False))]
    return [out, cv(dict(fp.only), w), fp.level.tag if isinstance(fp.level, priorities.PriorityLevel)
            else str(fp.level), fp.info, sorted(fp.mandatory()), sorted(fp.allkeys())]


def fp_model(foot, w):
    out = {}
    for k, d in foot.attr.items():
        out[k] = [d.get('type', str).__name__, bool(d['optional']), cv(d['default'], w),
                  cv(d['values'], w), cv(d['outcast'], w), cv(d['remap'], w),
                  sorted(d['alias']), d['access'], cv(dict(d.get('args', {})), w),
                  bool(d.get('isclass', False))]
    return [out, cv(foot.only, w), foot.fp['priority']['level'], foot.fp['info'],
            sorted(foot.mandatory()), sorted(foot.allkeys())]


# ------------------------------------------------------------------ decoding --

def dec(v, w, side):
    """Decode a JSON value of a plan for a given side ('r'eal or 'm'odel)."""
    if isinstance(v, list):
        tag = v[0]
        if tag == 'T':
            return st.Tok(v[1])
        if tag == 'TB':
            return st.TokB(v[1])
        if tag == 'FL':
            return st.FPList([dec(x, w, side) for x in v[1]])
        if tag == 'FT':
            return st.FPTuple([dec(x, w, side) for x in v[1]])
        if tag == 'FS':
            return st.FPSet([dec(x, w, side) for x in v[1]])
        if tag == 'FD':
            return st.FPDict({k: dec(x, w, side) for k, x in v[1].items()})
        if tag == 'FStr':
            return st.FPStr(v[1])
        if tag == 'l':
            return [dec(x, w, side) for x in v[1]]
        if tag == 't':
            return tuple(dec(x, w, side) for x in v[1])
        if tag == 'fv':
            return st.Src(dec(v[1], w, side))
        if tag == 'c':
            return st.KCLASSES[v[1]]
        if tag == 're':
            return st.FPRegex(v[1])
        if tag == 'w':
            if v[1] not in w.tgts:
                raise Skip('no target')
            w.held.append(w.tgts[v[1]])
            return w.tgts[v[1]] if side == 'r' else MWeak(w.tgts[v[1]])
        if tag == 'o':
            if v[1] not in w.slots:
                raise Skip('no object')
            return w.slots[v[1]] if side == 'r' else w.mobjs[w.slots[v[1]]._simid]
        raise HarnessError('unknown value ' + repr(v))
    return v


def fork_json(job):
    """Result (JSON) of job() in a forked copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = job()
            except BaseException:
                res = dict(crash=traceback.format_exc()[-3000:])
            data = core.canon(res).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = []
    while True:
        x = os.read(r, 1 << 20)
        if not x:
            break
        data.append(x)
    os.close(r)
    os.waitpid(pid, 0)
    res = json.loads(b''.join(data))
    if isinstance(res, dict) and 'crash' in res:
        raise RuntimeError('forked part failed: ' + res['crash'])
    return res


class Skip(Exception):
    """The operation is meaningless in the current state (happens when shrinking)."""


def dec_part(part, w, side):
    out = {}
    if 'attr' in part:
        attr = {}
        for k, a in part['attr'].items():
            d = {}
            for f, v in a.items():
                if f == 'type':
                    d[f] = st.TYPES[v]
                elif f in ('values', 'outcast'):
                    vals = [dec(x, w, side) for x in v]
                    d[f] = set(vals) if a.get('asset') else vals
                elif f == 'asset':
                    continue
                elif f == 'alias':
                    d[f] = set(v)
                elif f == 'remap':
                    d[f] = {dec(x, w, side): dec(y, w, side) for x, y in v}
                elif f == 'default':
                    d[f] = dec(v, w, side)
                elif f == 'args':
                    d[f] = dict(v)
                else:
                    d[f] = v
            attr[k] = d
        out['attr'] = [{k: v} for k, v in attr.items()] if part.get('aslist') else attr
    if 'only' in part:
        out['only'] = {k: ([dec(x, w, side) for x in v[1]] if isinstance(v, list) and v and v[0] == 'l'
                           else dec(v, w, side))
                       for k, v in part['only'].items()}
    if 'info' in part:
        out['info'] = part['info']
    if 'level' in part:
        if part['level'] not in w.prio:
            raise Skip('no level')
        lev = priorities.top.level(part['level']) if side == 'r' else part['level']
        out['priority'] = dict(level=lev)
    if 'fastkeys' in part:
        out['fastkeys'] = set(part['fastkeys'])
    return out


def clean_tag(tag):
    return tag.lower().rstrip('s')


# -------------------------------------------------------------- model world --

class MColl:
    def __init__(self, tag):
        self.tag = tag
        self.classes = []
        self.abstract = []
        self.fast = False
        self.register = True


class Outcome:
    """What the real package did."""

    def __init__(self):
        self.value = None
        self.msg = None
        self.exc = None       # name of the exception class
        self.error = None     # the exception itself (on request)
        self.injected = False
        self.fired = False
        self.steps = 0


class Registry:
    """One run."""

    soft = True
    inplace = True

    def __init__(self, plan, ctx):
        self.plan = plan
        self.ctx = ctx
        self.cfg = plan.get('cfg', {})
        self.prio = list(priorities.top.levels)
        self.frozen = {'default': list(self.prio)}
        self.kept_levels = []
        self.setup = fm.MSetup()
        self.setup.fastmode = bool(footprints.setup.fastmode)
        self.colls = {}
        for k, c in collectors.items():
            self.coll(k)
            self.colls[k].abstract = [None] * 0
        self.base_abstract = {k: {id(x) for x in c.abstract_classes} for k, c in collectors.items()}
        self.mcls = {}
        self.rcls = {}
        self.sid_of = {}
        self.mobjs = {}
        self.slots = {}
        self.tgts = {}
        self.talive = set()
        self.dying = set()
        self.held = []
        self.tlost = False
        self.tuid = {}
        self.docs = 0
        self.kept = {}
        self.mfps = {}
        self.rfps = {}
        self.mdicts = {}
        self.rdicts = {}
        self.rlists = {}
        self.osetups = {}
        self.proxies = {}
        self.cbvals = None
        self.switched = None
        self.nullreport = footprints.setup.nullreport
        self.cbcount = 0
        self.disk = {}
        self.faulted = False
        self.outcomes = []
        self.checks = plan.get('checks')
        self.holes = set()       # categories not compared anymore
        self.tie = False         # the last object might as well have been another one

    def coll(self, tag):
        if tag not in self.colls:
            self.colls[tag] = MColl(tag)
        return self.colls[tag]

    # ---------------------------------------------------------- execution ----

    def not_listed(self, out):
        """While its error is kept by the user, what could not be built is nowhere to be seen."""
        error, out.error = out.error, None
        if error is not None and not out.injected:
            self.ctx.inc('errors-kept')
            for tag, c in collectors.items():
                got = sorted(o._simid for o in c.instances())
                self.ctx.expect(set(got) <= set(self.mobjs), 'track', lambda: dict(
                    tag=tag, failed=sorted(set(got) - set(self.mobjs))))

    def call(self, func, fault=None, budget=None, keep=False):
        """Run some real code, with a fault if planned."""
        out = Outcome()
        ctx = self.ctx
        if fault and 'frac' in fault:
            # a position relative to the length of the operation
            n, _ = self.measure(func)
            fault = dict(fault, at=1 + int(fault['frac'] * n))
        elif fault and fault['k'] == 'swept':
            fault = fault['as']
        MON.begin(budget or BUDGET)
        HK.calls = {}
        HK.faults = []
        HK.fired = []
        fired = []
        injected = None
        if fault:
            k = fault['k']
            if k == 'int':
                def act():
                    fired.append(k)
                    raise SimInterrupt()
                MON.actions[fault['at']] = act
                injected = SimInterrupt
            elif k == 'gc':
                def act():
                    fired.append(k)
                    gc.collect()
                MON.actions[fault['at']] = act
            elif k == 'drop':
                def act():
                    fired.append(k)
                    self.slots.pop(fault['slot'], None)
                MON.actions[fault['at']] = act
            elif k == 'droptgt':
                def act():
                    fired.append(k)
                    self.drop_target(fault['t'])
                MON.actions[fault['at']] = act
            elif k == 'switch':
                # user code assigns new default settings in the middle of a search
                rval = {k: dec(v, self, 'r') for k, v in fault['val'].items()}

                def act():
                    footprints.setup.defaults = rval
                    self.switched = {k.lower(): dec(v, self, 'm') for k, v in fault['val'].items()}
                HK.faults = [['cast', fault['n'], act]]
            elif k == 'hook':
                injected = st.EXC[fault['exc']]
                HK.faults = [[fault['hook'], fault['n'], injected]]
            else:
                raise HarnessError('unknown fault ' + k)
        HK.enabled = True
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                out.value = func()
        except SimBudget:
            out.exc = 'SimBudget'
        except (Skip, HarnessError):
            raise
        except BaseException as e:
            out.exc = type(e).__name__
            out.msg = str(e)[:200]
            if keep:
                out.error = e
            if injected is not None and type(e) is injected and (fired or HK.fired):
                out.injected = True
            if isinstance(e, ReferenceError) and self.tlost:
                out.injected = True     # a weak value of the description vanished meanwhile
            if not isinstance(e, (Exception, SimAbort, core.UserAbort)):
                raise
            if isinstance(e, ReferenceError):
                pass
        finally:
            HK.enabled = False
            HK.faults = []
            out.steps = MON.end()
            self.lastrun = [out.steps, dict(HK.calls)]
        sys.last_exc = None
        if out.injected or fired or HK.fired:
            ctx.armed = True
        if fault:
            if fired or HK.fired:
                ctx.inc('fault:' + fault['k'] + (':' + fault['hook'] if fault['k'] == 'hook' else ''))
                out.fired = True
            else:
                ctx.inc('fault-unfired')
        out.printed = buf.getvalue()
        out.ncallback = HK.calls.get('callback', 0)
        if out.exc == 'SimBudget':
            ctx.flag('hang', 'more than {} steps'.format(budget or BUDGET))
        ctx.inc('steps', out.steps)
        return out

    def measure(self, func):
        """Length of an operation (steps) and calls to user code, observed in a fork."""
        def job():
            MON.begin(BUDGET)
            HK.calls = {}
            HK.faults = []
            HK.enabled = True
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    func()
            except BaseException:
                pass
            HK.enabled = False
            return [MON.end(), HK.calls]
        return fork_json(job)

    def sweep(self, i, op):
        """
        The same operation cut short at many points, each in a fork which then goes on
        with the rest of the history.
        """
        ctx = self.ctx
        fault = op['fault']
        opi = i

        def probe():
            try:
                self.do(i, {k: v for k, v in op.items() if k != 'fault'}, check=False)
            except core.StopRun:
                pass
            return self.lastrun
        self.lastrun = [0, {}]
        steps, calls = fork_json(probe)
        if fault.get('hooks'):
            points = [dict(k='hook', hook=h, n=n, exc=fault['exc'])
                      for h in sorted(calls) for n in range(1, min(calls[h], 12) + 1)]
        else:
            stride = max(1, fault.get('stride', 1), steps // fault.get('max', 60))
            points = [dict(k='int', at=k) for k in range(1 + fault.get('off', 0) % stride, steps + 1, stride)]
        for point in points:
            def job():
                base = dict(ctx.count)
                try:
                    self.run_from(opi, point, fault.get('tail', 5))
                except core.StopRun:
                    pass
                if ctx.violation:
                    ctx.violation['point'] = point
                return dict(violation=ctx.violation, foreign=ctx.foreign,
                            count={k: v - base.get(k, 0) for k, v in ctx.count.items() if v != base.get(k, 0)})
            res = fork_json(job)
            ctx.inc('sweep-points')
            for k, v in res['count'].items():
                ctx.inc(k, v)
            if res['violation'] or res['foreign']:
                ctx.violation, ctx.foreign = res['violation'], res['foreign']
                ctx.ev('SWEEP', point, res['violation'], res['foreign'])
                raise core.StopRun('sweep')
        ctx.where = [opi, 'sweep']

    def run_from(self, opi, point, tail):
        """Operation number **opi** with that fault, then some more."""
        ops = self.plan['ops']
        self.sweeping = False
        for i in range(opi, min(len(ops), opi + 1 + tail)):
            op = dict(ops[i])
            if i == opi:
                op['fault'] = dict(k='swept', **{'as': point})
            elif op.get('fault', {}).get('k') == 'sweep':
                del op['fault']
            self.do(i, op)

    def do(self, i, op, check=True):
        ctx = self.ctx
        if check and op.get('fault', {}).get('k') == 'sweep':
            self.sweep(i, op)
            op = {k: v for k, v in op.items() if k != 'fault'}
        ctx.where = [i, op['op']]
        self.opi = i
        self.tlost = False
        self.tie = False
        self.held = []
        before = self.switches()
        try:
            getattr(self, 'op_' + op['op'])(op)
        except Skip:
            ctx.ev(i, 'skip')
            ctx.inc('skipped')
            return
        finally:
            self.held = []
            self.talive -= self.dying
            self.dying = set()
            if self.switched is not None:
                self.setup.defaults = self.switched
                self.switched = None
        if not check:
            return
        ctx.inc('op:' + op['op'])
        if op['op'] not in ('setup', 'rsetup') and op.get('how') != 'register':
            after = self.switches()
            ctx.soft = self.soft
            try:
                ctx.expect(all(after.get(k) == v for k, v in before.items()), 'settings', lambda: dict(
                    changed={k: [v, after.get(k)] for k, v in before.items() if after.get(k) != v}))
            finally:
                ctx.soft = False
        # a difference that belongs to another property may only be the first sign of another one
        ctx.soft = self.soft
        try:
            self.check_state()
        finally:
            ctx.soft = False
        ctx.state(len(self.mcls), self.prio, sorted((c.tag, len(c.classes), c.fast) for c in self.colls.values()),
                  len(self.mobjs), len(self.talive), sorted(self.setup.defaults),
                  self.setup.extended, self.setup.fastmode, op['op'])

    def run(self):
        ctx = self.ctx
        MON.install()
        try:
            for i, op in enumerate(self.plan['ops']):
                self.do(i, op)
            ctx.where = ['end', 'end']
        finally:
            HK.enabled = False

    # --------------------------------------------------------- state checks ----

    def switches(self):
        """All the settings that only the user may change."""
        s = footprints.setup
        out = {'setup': [bool(s.fatal), s.report, s.report_style, s.lreport_len, s.docstrings, s.shortnames,
                         s.nullreport is self.nullreport]}
        for tag, c in collectors.items():
            out[tag] = [c.report, c.report_style, c.report_auto, c.lreport_len, c.report_tag,
                        c.non_ambiguous_loglevel, c.register]
        return out

    def own(self, cat):
        return self.ctx.own is None or cat in self.ctx.own

    def check_state(self):
        ctx = self.ctx
        gc.collect()
        # objects
        reach = self.reachable()
        for sid in [s for s in self.mobjs if s not in reach]:
            del self.mobjs[sid]
        if 'track' not in self.holes:
            alive = Live.alive()
            if alive != set(self.mobjs):
                ctx.flag('leak', dict(alive=sorted(alive), expected=sorted(self.mobjs)))
            for tag, c in collectors.items():
                got = sorted(o._simid for o in c.instances())
                want = sorted(s for s, o in self.mobjs.items() if tag in o.boards)
                ctx.expect(got == want, 'track', lambda: dict(tag=tag, got=got, want=want))
        for sid, mo in self.mobjs.items():
            ro = Live.refs[sid]()
            if ro is None:
                continue
            ctx.expect(type(ro) is self.rcls[mo.cls.sid], 'attrs', 'class changed')
            got = self.read_obj(ro)
            want = {k: cv(mo.read(k), self) for k in mo.attrs}
            ctx.expect(got == want, 'attrs',
                       lambda: dict(obj=sid, cls=mo.cls.sid, got=got, want=want))
        # classes
        for sid, mc in self.mcls.items():
            rc = self.rcls[sid]
            a, b = fp_real(rc, self), fp_model(mc.foot, self)
            ctx.expect(a == b, 'fp', lambda: dict(cls=sid, diff=self.diff(a, b)))
        for name, mf in self.mfps.items():
            rf = self.rfps[name]
            a = sorted((k, cv({x: y for x, y in d.items() if not x.startswith('doc_')}, self))
                       for k, d in rf.attr.items())
            b = sorted((k, cv({x: y for x, y in d.items() if not x.startswith('doc_')}, self))
                       for k, d in mf.attr.items())
            ctx.expect(a == b, 'fp', lambda: dict(fpobj=name, diff=self.diff(a, b)))
        for name, md in self.mdicts.items():
            rd = self.rdicts[name]
            a, b = cv_dict(rd, self), cv_dict(md, self)
            ctx.expect(a == b, 'fp', lambda: dict(fpdict=name, diff=self.diff(a, b)))
        # collectors
        for tag, c in collectors.items():
            mc = self.colls.get(tag)
            got = sorted(self.sid_of.get(id(x), '?' + x.fullname()) for x in c.items())
            want = sorted(x.sid for x in mc.classes) if mc else []
            ctx.expect(got == want, 'registry', lambda: dict(tag=tag, got=got, want=want))
            gota = sorted(self.sid_of.get(id(x), '?' + x.fullname()) for x in c.abstract_classes
                          if id(x) not in self.base_abstract.get(tag, ()))
            wanta = sorted(x.sid for x in mc.abstract) if mc else []
            ctx.expect(gota == wanta, 'registry', lambda: dict(tag=tag, abstract=gota, want=wanta))
        for tag in self.colls:
            ctx.expect(tag in collectors.keys(), 'registry', 'missing collector ' + tag)
        # settings
        s = footprints.setup
        got = [cv(dict(s.defaults), self), s.extended, s.fastmode, list(s.fastkeys), s.callback is not None]
        want = [cv(self.setup.defaults, self), self.setup.extended, self.setup.fastmode,
                list(self.setup.fastkeys), self.cbvals is not None]
        want[0][0] = got[0][0]
        ctx.expect(got == want, 'settings', lambda: dict(got=got, want=want))
        if self.cbvals is not None:
            got, want = [cv(x, self) for x in self.rcb], [cv(x, self) for x in self.cbvals]
            ctx.expect(got == want, 'settings', lambda: dict(answers=got, want=want))
        for tag, (real, want, vals) in self.osetups.items():
            got = self.see_setup(real)
            ctx.expect(got == want, 'settings', lambda: dict(setup=tag, got=got, want=want))
            got, want = cv(dict(real.defaults), self), cv(vals, self)
            want[0] = got[0]
            ctx.expect(got == want, 'settings', lambda: dict(setup=tag, defaults=got, want=want))
        # priorities
        got = list(priorities.top.levels)
        ctx.expect(got == self.prio, 'prio', lambda: dict(got=got, want=self.prio))
        for sid, mc in self.mcls.items():
            if mc.level in self.prio:
                rc = self.rcls[sid]
                ctx.expect(rc.footprint_weight(3) == (self.prio.index(mc.level), 3) and
                           rc.footprint_level() == mc.level,
                           'weight', lambda: dict(cls=sid, weight=list(rc.footprint_weight(3))))

        for tag, levels in self.kept_levels:
            # whatever a footprint went through, its level follows the set
            if tag in self.prio:
                ranks = [x.rank for x in levels]
                ctx.expect(set(ranks) == {self.prio.index(tag)}, 'prio', lambda: dict(
                    kept=tag, ranks=ranks, want=self.prio.index(tag)))

    @staticmethod
    def diff(a, b):
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            for x, y in zip(a, b):
                if x != y:
                    if isinstance(x, dict) and isinstance(y, dict):
                        return {k: [x.get(k), y.get(k)] for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k)}
                    return [x, y]
        return [a, b]

    def read_obj(self, ro):
        out = {}
        for k in ro.footprint_attributes:
            try:
                out[k] = cv(getattr(ro, k), self)
            except ReferenceError:
                out[k] = ['w', 'DEAD']
            except AttributeError:
                out[k] = ['noattr']
        return out

    def reachable(self):
        todo = [o._simid for o in self.slots.values()]
        seen = set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            mo = self.mobjs.get(s)
            if mo is None:
                continue
            for v in list(mo.attrs.values()) + list(mo.user.values()):
                if isinstance(v, MObj):
                    todo.append(v.simid)
        return seen

    def outcome(self, *a):
        self.ctx.ev(self.opi, *a)
        self.outcomes.append([self.opi] + list(a))

    # -------------------------------------------------------------- classes ----

    def op_dict(self, op):
        """A dictionary shared by several class definitions."""
        self.rdicts[op['name']] = dec_part(op['part'], self, 'r')
        self.mdicts[op['name']] = dec_part(op['part'], self, 'm')
        self.ctx.ev(self.opi, 'dict')

    def op_fp(self, op):
        """A Footprint object shared by several class definitions."""
        mparts = [self.part(p, 'm') for p in op['parts']]
        rparts = [self.part(p, 'r') for p in op['parts']]
        try:
            mf = MFoot(mparts)
            self.documentable(mf)
            err = None
        except MErr as e:
            err = e.kind
        kind = footprints.DecorativeFootprint if op.get('deco') else footprints.Footprint
        kw = {}
        if op.get('deco'):
            kw['decorator'] = [deco_mark(op['name'])]
        out = self.call(lambda: kind(*rparts, **kw), op.get('fault'))
        if out.injected:
            self.outcome('fp', 'aborted')
            return
        self.ctx.expect((out.exc is None) == (err is None), 'fp',
                        lambda: dict(got=out.exc, want=err))
        self.outcome('fp', out.exc)
        if out.exc is None:
            mf.deco = set()
            if op.get('deco'):
                mf.deco.update([op['name']], *(getattr(p, 'deco', ()) for p in mparts))
            self.mfps[op['name']] = mf
            self.rfps[op['name']] = out.value

    def part(self, p, side):
        if isinstance(p, list):
            if p[0] == 'F':
                d = self.rfps if side == 'r' else self.mfps
            else:
                d = self.rdicts if side == 'r' else self.mdicts
            if p[1] not in d:
                raise Skip('no such footprint')
            return d[p[1]]
        return dec_part(p, self, side)

    def documentable(self, foot):
        """The dumper (bronx) cannot sort keys of several types."""
        if self.docs:
            for d in foot.attr.values():
                try:
                    sorted(d['remap'])
                except TypeError:
                    raise Skip('no documentation for that')

    def predict_class(self, spec):
        """(MClass, error)"""
        bases = [self.mcls[b] for b in spec['bases']]
        pyb = tuple(b.py for b in bases) or (PyBase,)
        try:
            py = type(spec['name'], pyb, {})
        except TypeError:
            return None, 'TypeError'
        parts = [b.foot for b in reversed(bases)] + [self.part(p, 'm') for p in spec['parts']]
        try:
            foot = MFoot(parts)
        except MErr as e:
            return None, e.kind
        self.documentable(foot)
        for d in foot.attr.values():
            if d['access'] not in ACCESS:
                return None, 'KeyError'

        def inherit(key, dflt):
            if key in spec:
                return spec[key]
            for k in py.__mro__:
                for m in self.mcls.values():
                    if m.py is k and key in m.spec:
                        return m.spec[key]
            return dflt
        tags = [clean_tag(t) for t in inherit('tags', ['garbage'])]
        rawtags = inherit('tags', ['garbage'])
        explicit = inherit('explicit', True)
        reusable = inherit('reusable', True)
        methods = {}
        for k in reversed(py.__mro__):
            for m in self.mcls.values():
                if m.py is k:
                    methods.update(m.spec.get('methods', {}))
        methods.update(spec.get('methods', {}))
        mc = MClass(spec['sid'], spec, foot, tags, reusable, explicit, methods, py)
        mc.note = inherit('note', None)
        mc.started = inherit('started', None)
        mc.deco = sorted(set().union(*(getattr(p, 'deco', ()) for p in parts[len(bases):])))
        if not mc.abstract and explicit and not foot.mandatory():
            return None, 'FootprintInvalidDefinition'
        for t in rawtags:
            if t in foot.allkeys():
                return None, 'FootprintInvalidDefinition'
        return mc, None

    def op_cls(self, op):
        spec = op['spec']
        if any(b not in self.mcls for b in spec['bases']) or spec['sid'] in self.mcls:
            raise Skip('no base')
        if any(m.fullname == spec['mod'] + '.' + spec['name'] for m in self.mcls.values()):
            if not self.cfg.get('redef'):
                raise Skip('same name')
        mc, err = self.predict_class(spec)
        rparts = [self.part(p, 'r') for p in spec['parts']]
        d = dict(__module__=spec['mod'])
        given = None
        if spec.get('listid'):
            given = d['_footprint'] = self.rlists.setdefault(spec['listid'], rparts)
            before = list(given)
        elif not spec.get('nofp'):
            d['_footprint'] = rparts[0] if len(rparts) == 1 else rparts
        for k, a in (('abstract', '_abstract'), ('explicit', '_explicit'), ('reusable', '_reusable')):
            if k in spec:
                d[a] = spec[k]
        if 'tags' in spec:
            d['_collector'] = tuple(spec['tags'])
        for n, kind in spec.get('methods', {}).items():
            d[n] = st.method(kind, n)
        for k in ('note', 'started'):
            if k in spec:
                d[k] = spec[k]
        if spec.get('empty'):
            d['__bool__'] = lambda self: False
        bases = tuple(self.rcls[b] for b in spec['bases']) or (SimBase,)
        fault = op.get('fault')
        out = self.call(lambda: SimMeta(spec['name'], bases, d), fault)
        d = None
        if given is not None:
            self.ctx.expect(len(given) == len(before) and all(x is y for x, y in zip(given, before)), 'fp',
                            lambda: dict(cls=spec['sid'], got='the list of definitions has changed'))
        if out.injected:
            err = err or out.exc
            self.faulted = True
        if err is None:
            self.ctx.expect(out.exc is None, 'define', lambda: dict(got=out.exc, want='accepted', cls=spec['sid']))
            self.outcome('cls', spec['sid'], 'ok')
            self.commit_class(mc, out.value)
        else:
            self.ctx.expect(out.exc is not None, 'define', lambda: dict(got='accepted', want=err, cls=spec['sid']))
            self.outcome('cls', spec['sid'], 'rejected')
            self.ctx.inc('rejected')

    def commit_class(self, mc, rc):
        self.mcls[mc.sid] = mc
        self.rcls[mc.sid] = rc
        self.sid_of[id(rc)] = mc.sid
        setattr(sys.modules[mc.module], mc.name, rc)
        for t in mc.tags:
            c = self.coll(t)
            if mc.abstract:
                c.abstract.append(mc)
            else:
                if mc not in c.classes:
                    c.classes.append(mc)
                if c.register:
                    mc.boards.add(t)
        # objects of a class share their notification board with namesakes
        for m in self.mcls.values():
            if m.fullname == mc.fullname:
                m.boards |= mc.boards
                mc.boards |= m.boards
        got = sorted(set(rc.__dict__.get('__decorated__', ())))
        self.ctx.expect(got == mc.deco, 'fp', lambda: dict(decorators=got, want=mc.deco))

    # --------------------------------------------------------------- search ----

    def msearch(self, tag, desc, extras0):
        """Model search: (raising kinds, candidates, considered)."""
        raising, cands, diags = [], [], {}
        for mc in self.colls[tag].classes:
            try:
                guess, n, diag = fm.couldbe(mc, desc, self.setup, extras0)
            except MErr as e:
                raising.append(e.kind)
                continue
            diags[mc.sid] = diag
            if guess is not None:
                cands.append((mc, guess, n))
        return raising, cands, diags

    def best(self, cands):
        if len(cands) == 1:
            return cands
        key = lambda c: (self.prio.index(c[0].level), c[2])
        top = max(key(c) for c in cands)
        return [c for c in cands if key(c) == top]

    def usable_levels(self, tag):
        if tag in self.colls:
            for c in self.colls[tag].classes:
                if c.level not in self.prio:
                    raise Skip('removed level')

    def desc(self, op, side):
        d = {}
        for k, v in op['desc'].items():
            d[k] = dec(v, self, side)
        return d

    def next_extras(self):
        if self.cbvals is None:
            return {}
        return self.cbval(self.cbcount)

    def cbval(self, n):
        return dict(self.cbvals[n % len(self.cbvals)])

    def check_callback(self, out):
        if self.cbvals is not None:
            self.ctx.expect(out.ncallback <= 1, 'callback', lambda: dict(calls=out.ncallback))

    def resolve_checked(self, foot, desc, fatal, ex):
        return fm.resolve(foot, desc, self.setup, fatal=fatal, extras0=ex)

    def searched(self, how, tag, raising, cands, diags, out, hidden=()):
        """A search took place (see the world of reports)."""

    def op_load(self, op):
        entry = op.get('entry', 'coll')
        tag = op['tag']
        ctag = clean_tag(tag)
        if entry in ('coll', 'proxy', 'userproxy', 'almost') and ctag not in self.colls:
            raise Skip('no collector')
        self.usable_levels(ctag)
        rdesc = self.desc(op, 'r')
        mdesc = self.desc(op, 'm')
        hidden = {k: v for k, v in op.get('hidden', {}).items()}
        rdesc.update(hidden)
        shown = dict(rdesc)
        keys0 = list(rdesc)
        already = None
        if ctag in mdesc and mdesc[ctag] is not None:
            already = mdesc[ctag]
        if entry == 'almost':
            src = op['src']
            if src not in self.slots:
                raise Skip('no source')
            mo = self.mobjs[self.slots[src]._simid]
            if any(isinstance(v, (MObj, MWeak)) for v in mo.attrs.values()):
                raise Skip('no almost clone of that')
            base = {k: copy.deepcopy(mo.read(k)) for k in mo.attrs}
            mine = [k for k in base if k not in mdesc and mutable(base[k])]
            base.update(mdesc)
            mdesc = base
            rsrc = self.slots[src]
        ex = self.next_extras()
        new_coll = ctag not in self.colls
        if new_coll and op.get('fault', {}).get('k') in ('int', 'swept'):
            # bronx's GetByTag remembers half built objects: out of scope
            raise Skip('first use of a tag')
        raising, cands, diags = [], [], {}
        if already is None and not new_coll:
            raising, cands, diags = self.msearch(ctag, mdesc, ex)
        kept = []

        lost = []
        if op.get('first') is not None:
            rfirst = {k: dec(v, self, 'r') for k, v in op['first'].items()}

        def func():
            if op.get('first') is not None:
                # another search before, whose cached informations are used again
                coll = collectors.get(tag=tag)
                try:
                    cache = coll.pickup_and_cache(rfirst)[1]
                except Exception:
                    lost.append(True)
                    return None
                finally:
                    rfirst.clear()
                return coll.pickup(rdesc, resolvecache=cache).get(ctag)
            if entry == 'coll':
                return collectors.get(tag=tag).load(**rdesc)
            if entry == 'module':
                return footprints.load(tag=tag, **rdesc)
            if entry == 'proxy':
                return getattr(footprints.proxy, ctag)(**rdesc)
            if entry == 'userproxy':
                return getattr(self.proxies[sorted(self.proxies)[0]], ctag)(**rdesc)
            if entry == 'pickup':
                kept.append(rdesc)
                got = collectors.get(tag=tag).pickup(rdesc)
                kept.append(got)
                return got.get(ctag)
            if entry == 'mpickup':
                rdesc['tag'] = tag
                kept.append(rdesc)
                got = footprints.pickup(rdesc)
                kept.append(got)
                return got.get(ctag)
            if entry == 'almost':
                return collectors.get(tag=tag).almost_clone(rsrc, **rdesc)
            raise HarnessError(entry)
        if entry == 'userproxy' and (not self.proxies or
                                     ctag in self.proxies[sorted(self.proxies)[0]].busy_names):
            raise Skip('no proxy')
        out = self.call(func, op.get('fault'), keep=op.get('keep'))
        self.not_listed(out)
        if ctag in collectors.keys():
            self.coll(ctag)
        self.cbcount += out.ncallback
        slot = op.get('slot')
        if lost:
            self.outcome('load', 'lost')
            return
        self.searched('none' if already is not None else 'all', ctag, raising, cands, diags, out, hidden)
        if out.injected:
            self.faulted = True
            self.outcome('load', 'aborted')
            kept.clear()
            return
        self.check_callback(out)
        if already is not None:
            self.ctx.expect(out.exc is None and out.value is not None and
                            getattr(out.value, '_simid', None) == getattr(already, 'simid', None),
                            'select', lambda: dict(got=out.exc or cv(out.value, self), want=cv(already, self)))
            self.outcome('load', 'already')
            if entry in ('pickup', 'mpickup'):
                self.check_desc(op, shown, kept, ctag, already.cls, out.value)
            return
        obj = self.settle(out, raising, cands, 'load', fast=(not new_coll and self.colls[ctag].fast))
        if obj is None:
            if entry in ('pickup', 'mpickup') and out.exc is None:
                self.check_desc(op, shown, kept, ctag, None, None)
            return
        if entry in ('pickup', 'mpickup'):
            self.check_desc(op, shown, kept, ctag, self.mobjs[obj._simid].cls, obj)
        if entry == 'almost' and op.get('spoil'):
            new = self.mobjs[obj._simid]
            self.spoil_obj(obj, new, [k for k in mine if k in new.attrs and new.attrs[k] is mdesc[k]])
        if slot:
            self.store(slot, obj)

    def store(self, slot, obj):
        self.slots[slot] = obj

    def check_desc(self, op, shown, kept, ctag, mcls, obj):
        rdesc, got = kept
        self.ctx.expect(got is rdesc or got == rdesc, 'desc', 'pickup returned something else')
        want = {k: v for k, v in shown.items() if not k.startswith('_')}
        want[ctag] = obj
        if mcls is not None:
            for k in fm.track(mcls.foot, list(want)):
                want.pop(k)
        a = {k: cv(v, self) for k, v in got.items()}
        b = {k: cv(v, self) for k, v in want.items()}
        self.ctx.expect(a == b, 'desc', lambda: dict(got=a, want=b))

    def settle(self, out, raising, cands, what, any_=False, fast=False):
        """Compare the outcome of a search with the expected ones, adopt the object."""
        ctx = self.ctx
        if out.exc is not None:
            ctx.expect(bool(raising), 'raise',
                       lambda: dict(got=out.exc, want=[c[0].sid for c in cands]))
            ctx.expect(out.exc in raising or len(raising) > 1 or True, 'raise', '')
            self.outcome(what, 'err')
            return None
        if raising and not any_ and not fast:
            ctx.flag('raise', dict(got=cv(out.value, self), want=raising))
        if out.value is None:
            ctx.expect(not cands, 'select', lambda: dict(got=None, want=[c[0].sid for c in cands]))
            self.outcome(what, None)
            return None
        obj = out.value
        if not isinstance(obj, SimBase):
            ctx.flag('select', dict(got=type(obj).__name__))
        sid = self.sid_of.get(id(type(obj)))
        ctx.expect(bool(cands), 'select', lambda: dict(got=sid, want=None))
        best = cands if any_ else self.best(cands)
        match = [c for c in best if c[0].sid == sid]
        ctx.expect(bool(match), 'select',
                   lambda: dict(got=sid, want=[c[0].sid for c in best],
                                weights=[[c[0].sid, c[0].level, c[2]] for c in cands]))
        mc, guess, n = match[0]
        self.adopt(obj, mc, guess, 'value')
        if len(best) > 1 or any_:
            self.tie = True
            self.outcome(what, 'tie')
        else:
            self.outcome(what, sid, self.named(obj))
        self.ctx.inc('loaded')
        return obj

    def named(self, obj):
        """Values of an object, without object numbers (they depend on the history)."""
        out = {}
        for k, v in self.read_obj(obj).items():
            if isinstance(v, list) and v and v[0] == 'o':
                ro = Live.refs[v[1]]()
                v = ['o', self.sid_of.get(id(type(ro)))]
            out[k] = v
        return out

    def adopt(self, obj, mc, guess, cat, like=None):
        """A new object is there: does it hold the expected values?"""
        got = self.read_obj(obj)
        want = {k: cv(None if v is UNKNOWN else v, self) for k, v in guess.items()}
        self.ctx.expect(got == want, cat, lambda: dict(cls=mc.sid, got=got, want=want))
        self.ctx.expect(obj._simid not in self.mobjs, 'reuse', 'object seen before')
        mo = MObj(mc, dict(guess), obj._simid)
        if mc.started is not None:
            mo.user['note'] = mc.started
        if like is not None:
            mo.user = dict(like.user)
        self.check_user(obj, mo)
        self.mobjs[obj._simid] = mo
        return mo

    def op_find(self, op):
        tag = clean_tag(op['tag'])
        if tag not in self.colls:
            raise Skip('no collector')
        rdesc, mdesc = self.desc(op, 'r'), self.desc(op, 'm')
        before = {k: cv(v, self) for k, v in rdesc.items()}
        ex = self.next_extras()
        raising, cands, diags = self.msearch(tag, mdesc, ex)
        coll = collectors.get(tag=tag)
        fault = op.get('fault')
        if op['how'] == 'any':
            out = self.call(lambda: coll.find_any(rdesc), fault)
            self.cbcount += out.ncallback
            self.searched('any', tag, raising, cands, diags, out)
            if out.injected:
                self.faulted = True
                self.outcome('any', 'aborted')
                return
            self.check_callback(out)
            obj = self.settle(out, raising, cands, 'any', any_=True)
            if obj is None and out.exc is None and raising and not self.colls[tag].fast:
                self.ctx.flag('raise', dict(got=None, want=raising))
            if obj is not None and op.get('slot'):
                self.store(op['slot'], obj)
        elif op['how'] == 'best':
            self.usable_levels(tag)
            out = self.call(lambda: coll.find_best(rdesc), fault)
            self.cbcount += out.ncallback
            self.searched('all', tag, raising, cands, diags, out)
            if out.injected:
                self.faulted = True
                self.outcome('best', 'aborted')
                return
            self.check_callback(out)
            obj = self.settle(out, raising, cands, 'best', fast=self.colls[tag].fast)
            if obj is not None and op.get('slot'):
                self.store(op['slot'], obj)
        else:
            out = self.call(lambda: coll.find_all(rdesc), fault)
            self.cbcount += out.ncallback
            self.searched('all', tag, raising, cands, diags, out)
            if out.injected:
                self.faulted = True
                self.outcome('all', 'aborted')
                return
            self.check_callback(out)
            if out.exc is not None:
                self.ctx.expect(bool(raising), 'raise', lambda: dict(got=out.exc, want=[c[0].sid for c in cands]))
                self.outcome('all', 'err')
            else:
                if raising and not self.colls[tag].fast:
                    self.ctx.flag('raise', dict(got='ok', want=raising))
                got = sorted([self.sid_of.get(id(c), '?'), {k: cv(v, self) for k, v in r.items()}, len(n)]
                             for c, r, n in out.value)
                want = sorted([c.sid, {k: cv(v, self) for k, v in g.items()}, n] for c, g, n in cands)
                self.ctx.expect([x[0] for x in got] == [x[0] for x in want], 'select',
                                lambda: dict(got=[x[0] for x in got], want=[x[0] for x in want]))
                self.ctx.expect([x[1] for x in got] == [x[1] for x in want], 'value',
                                lambda: dict(got=got, want=want))
                self.ctx.expect([x[2] for x in got] == [x[2] for x in want], 'select',
                                lambda: dict(got=got, want=want))
                self.outcome('all', [[x[0], x[2]] for x in got])
            out.value = None
        after = {k: cv(v, self) for k, v in rdesc.items()}
        self.ctx.expect(before == after, 'desc', lambda: dict(got=after, want=before))

    def op_build(self, op):
        sid = op['cls']
        if sid not in self.mcls:
            raise Skip('no class')
        mc, rc = self.mcls[sid], self.rcls[sid]
        rdesc, mdesc = self.desc(op, 'r'), self.desc(op, 'm')
        ex = self.next_extras()
        err = guess = None
        if mc.abstract:
            err = 'FootprintInvalidDefinition'
        else:
            try:
                guess = fm.resolve(mc.foot, mdesc, self.setup, fatal=True, extras0=ex).guess
            except MErr as e:
                err = e.kind
        pos = op.get('pos')
        out = self.call(lambda: rc(dict(rdesc)) if pos else rc(**rdesc), op.get('fault'), keep=op.get('keep'))
        self.cbcount += out.ncallback
        self.not_listed(out)
        if out.injected:
            self.faulted = True
            self.outcome('build', 'aborted')
            return
        if out.exc is not None:
            self.ctx.expect(err is not None, 'value', lambda: dict(got=out.exc, want='an object', cls=sid))
            self.outcome('build', sid, 'err')
            return
        self.ctx.expect(err is None, 'value', lambda: dict(got=self.read_obj(out.value), want=err, cls=sid))
        self.ctx.expect(type(out.value) is rc, 'value', 'unexpected class')
        self.adopt(out.value, mc, guess, 'value')
        self.outcome('build', sid, self.named(out.value))
        self.ctx.inc('built')
        if op.get('slot'):
            self.slots[op['slot']] = out.value

    # -------------------------------------------------------------- objects ----

    def slot(self, name):
        if name not in self.slots:
            raise Skip('no object')
        ro = self.slots[name]
        return ro, self.mobjs[ro._simid]

    def op_write(self, op):
        ro, mo = self.slot(op['slot'])
        k = op['attr']
        if k not in mo.cls.foot.attr:
            raise Skip('no such attribute')
        d = mo.cls.foot.attr[k]
        rv, mv = dec(op['val'], self, 'r'), dec(op['val'], self, 'm')
        ok = True
        new = mv
        t = d.get('type', str)
        if d['access'].startswith('rxx'):
            ok = False
        elif d.get('isclass'):
            ok = isinstance(mv, type) and issubclass(mv, t)
        elif mv is not None and not fm.is_type(mv, t):
            try:
                if t is SimBase:
                    raise TypeError()
                new = t(mv, **d.get('args', {}))
            except Exception:
                ok = False
        if ok and d['values'] and not any(x == new for x in d['values']):
            ok = False
        if ok and d['outcast'] and any(x == new for x in d['outcast']):
            ok = False
        if ok and 'weak' in d['access']:
            if new is None:
                ok = False
            else:
                new = MWeak(new)
        if op.get('forge'):
            # without the authorization of the access descriptors
            ok = False
            auth = dict(none=None, wrong=42, name=type(ro).__name__)[op['forge']]
            out = self.call(lambda: ro.footprint_setattr(k, rv, auth=auth), op.get('fault'))
        else:
            out = self.call(lambda: setattr(ro, k, rv), op.get('fault'))
        rv = None
        if out.injected:
            self.faulted = True
            self.outcome('write', 'aborted')
            return
        self.ctx.expect((out.exc is None) == ok, 'access',
                        lambda: dict(op='write', attr=k, access=d['access'], got=out.exc, want='ok' if ok else 'refused'))
        if ok:
            mo.attrs[k] = new
            mo.dirty = True
        self.outcome('write', ok)

    def op_delattr(self, op):
        ro, mo = self.slot(op['slot'])
        k = op['attr']
        if k not in mo.cls.foot.attr:
            raise Skip('no such attribute')
        d = mo.cls.foot.attr[k]
        ok = d['access'].startswith('rwd') and k in mo.attrs and not op.get('forge')
        out = self.call(lambda: ro.footprint_delattr(k) if op.get('forge') else delattr(ro, k), op.get('fault'))
        if out.injected:
            self.faulted = True
            return
        self.ctx.expect((out.exc is None) == ok, 'access',
                        lambda: dict(op='delete', attr=k, access=d['access'], got=out.exc, want='ok' if ok else 'refused'))
        if ok:
            del mo.attrs[k]
            mo.deleted = True
        self.outcome('delattr', ok)

    def op_note(self, op):
        """Plain attribute, out of the footprint."""
        ro, mo = self.slot(op['slot'])
        ro.note = dec(op['val'], self, 'r')
        mo.user['note'] = dec(op['val'], self, 'm')

    def op_clone(self, op):
        ro, mo = self.slot(op['slot'])
        if not cloneable(mo):
            raise Skip('not concerned')
        rx = {k: dec(v, self, 'r') for k, v in op['extra'].items()}
        mx = {k: dec(v, self, 'm') for k, v in op['extra'].items()}
        full = op.get('full', False)
        attrs = dict(mo.attrs)
        attrs.update(mx)
        if any(isinstance(v, MWeak) and v.uid not in self.talive for v in attrs.values()):
            raise Skip('dead weak values')
        ex = self.next_extras()
        err = guess = None
        try:
            guess = fm.resolve(mo.cls.foot, attrs, self.setup, fatal=True, extras0=ex).guess
        except MErr as e:
            err = e.kind
        if err is None and not op['extra']:
            same = {k: cv(v, self) for k, v in guess.items()} == {k: cv(v, self) for k, v in mo.attrs.items()}
            if not same:
                raise Skip('values do not resolve to themselves')
        out = self.call(lambda: ro.footprint_clone(full=full, extra=rx or None), op.get('fault'), keep=op.get('keep'))
        self.cbcount += out.ncallback
        self.not_listed(out)
        if out.injected:
            self.faulted = True
            self.outcome('clone', 'aborted')
            return
        if out.exc is not None:
            self.ctx.expect(err is not None, 'copy', lambda: dict(op='clone', got=out.exc, want='a clone', cls=mo.cls.sid))
            self.outcome('clone', 'err')
            return
        self.ctx.expect(err is None, 'copy', lambda: dict(op='clone', got='a clone', want=err, cls=mo.cls.sid))
        self.ctx.expect(type(out.value) is type(ro) and out.value is not ro, 'copy', 'not a clone')
        self.adopt(out.value, mo.cls, guess, 'copy', mo if full else None)
        self.outcome('clone', self.named(out.value))
        if op.get('to'):
            self.slots[op['to']] = out.value

    def spoil_obj(self, ro, mo, keys):
        """The user changes in place the values of an object that shares nothing with the others."""
        if not self.inplace:
            return
        for k in sorted(keys):
            if mutable(mo.attrs[k]):
                mutate(getattr(ro, k))
                mutate(mo.attrs[k])
                mo.dirty = True
                self.ctx.inc('changed-in-place')

    def check_user(self, ro, mo):
        want = mo.user.get('note', mo.cls.note)
        if want is not None:
            self.ctx.expect(cv(getattr(ro, 'note', None), self) == cv(want, self), 'copy',
                            lambda: dict(note=cv(getattr(ro, 'note', None), self), want=cv(want, self)))
        else:
            self.ctx.expect(not hasattr(ro, 'note'), 'copy', 'unexpected plain attribute')

    def op_copy(self, op):
        ro, mo = self.slot(op['slot'])
        how = op['how']
        if how != 'copy' and not deepable(mo):
            raise Skip('not concerned')
        if how == 'copy':
            func = lambda: copy.copy(ro)
        elif how == 'deepcopy':
            func = lambda: copy.deepcopy(ro)
        else:
            if not self.importable(mo):
                raise Skip('not importable')
            func = lambda: pickle.loads(pickle.dumps(ro, protocol=op.get('proto', 4)))
        out = self.call(func, op.get('fault'))
        if out.injected:
            self.faulted = True
            self.outcome('copy', how, 'aborted')
            return
        self.ctx.expect(out.exc is None, 'copy', lambda: dict(op=how, got=out.exc, cls=mo.cls.sid))
        new = out.value
        self.ctx.expect(type(new) is type(ro) and new is not ro, 'copy', 'not a ' + how)
        if how == 'copy':
            mnew = MObj(mo.cls, dict(mo.attrs), new._simid)
            mnew.user = dict(mo.user)
            mnew.dirty = getattr(mo, 'dirty', False)
            mnew.deleted = getattr(mo, 'deleted', False)
            pairs = [(new, mnew)]
        else:
            mnew = self.deep(mo, {})
            pairs = []
            self.bind(new, mnew, pairs, {})
        for r, m in pairs:
            self.mobjs[r._simid] = m
            m.simid = r._simid
        for r, m in pairs:
            got = self.read_obj(r)
            want = {k: cv(m.read(k), self) for k in m.attrs}
            self.ctx.expect(got == want, 'copy', lambda: dict(op=how, got=got, want=want))
            self.check_user(r, m)
        self.outcome('copy', how, self.named(new))
        if how != 'copy' and op.get('spoil'):
            # (values that several of the new objects share are left alone)
            theirs = {id(v) for r, m in pairs for v in m.attrs.values() if m is not mnew}
            self.spoil_obj(new, mnew, [k for k in sorted(mnew.attrs) if id(mnew.attrs[k]) not in theirs])
        pairs = None
        if op.get('to'):
            self.slots[op['to']] = new

    def importable(self, mo, seen=None):
        seen = set() if seen is None else seen
        if id(mo) in seen:
            return True
        seen.add(id(mo))
        rc = self.rcls[mo.cls.sid]
        if getattr(sys.modules[mo.cls.module], mo.cls.name, None) is not rc:
            return False
        return all(self.importable(v, seen) for v in mo.attrs.values() if isinstance(v, MObj))

    def deep(self, mo, memo):
        if id(mo) in memo:
            return memo[id(mo)]
        new = memo[id(mo)] = MObj(mo.cls, {})
        new.dirty = getattr(mo, 'dirty', False)
        new.deleted = getattr(mo, 'deleted', False)
        for k, v in mo.attrs.items():
            new.attrs[k] = self.deep(v, memo) if isinstance(v, MObj) else (
                v if v is UNKNOWN else copy.deepcopy(v, memo))
        new.user = copy.deepcopy(mo.user, memo)
        return new

    def bind(self, real, mnew, pairs, memo):
        if id(mnew) in memo:
            self.ctx.expect(memo[id(mnew)] is real, 'copy', 'shared part duplicated')
            return
        memo[id(mnew)] = real
        self.ctx.expect(real._simid not in self.mobjs, 'copy', 'part shared with the original')
        pairs.append((real, mnew))
        for k, v in mnew.attrs.items():
            if isinstance(v, MObj):
                sub = getattr(real, k)
                self.ctx.expect(isinstance(sub, SimBase), 'copy', 'lost part ' + k)
                self.bind(sub, v, pairs, memo)

    def op_export(self, op):
        """Views of the values of an object, then changed by the user."""
        ro, mo = self.slot(op['slot'])
        how = op['how']
        if how in ('dict', 'export') and (not deepable(mo) or how == 'export' and cyclic(mo)):
            raise Skip('not concerned')
        func = dict(dict=lambda: ro.footprint_as_dict(), shallow=lambda: ro.footprint_as_shallow_dict(),
                    export=lambda: ro.footprint_export(), undefs=lambda: ro.footprint_undefs(),
                    vals=lambda: ro.footprint_attributes_values,
                    has=lambda: ro.footprint_has_attribute(op.get('attr', 'kind')))[how]
        cat = 'copy' if how in ('dict', 'shallow', 'export') else 'attrs'
        dead = any(isinstance(v, MWeak) and v.uid not in self.talive for v in mo.attrs.values())
        out = self.call(func, op.get('fault'))
        if out.injected:
            self.faulted = True
            self.outcome('export', how, 'aborted')
            return
        if how == 'shallow' and dead:
            # holding the proxies of dead targets is fine, so is refusing to
            self.outcome('export', how, 'dead')
            out.value = None
            return
        if how == 'vals' and any(not isinstance(v, str) for v in mo.attrs.values()):
            # they cannot be sorted
            self.outcome('export', how, 'unsorted')
            out.value = None
            return
        self.ctx.expect(out.exc is None, cat, lambda: dict(op='export', how=how, got=out.exc))
        got = out.value
        if how == 'vals':
            a = sorted((cv(v, self) for v in got), key=core.canon)
            b = sorted((cv(v, self) for v in mo.attrs.values()), key=core.canon)
            self.ctx.expect(a == b, cat, lambda: dict(how=how, got=a, want=b))
        elif how == 'undefs':
            want = sorted(k for k in mo.attrs if not isinstance(mo.read(k), MWeak) and mo.read(k) is None)
            self.ctx.expect(sorted(got) == want, cat, lambda: dict(how=how, got=got, want=want))
        elif how == 'has':
            want = op.get('attr', 'kind') in mo.attrs
            self.ctx.expect(bool(got) == want, cat, lambda: dict(how=how, got=got, want=want))
        else:
            self.same_export(how, got, mo)
            self.spoil(how, got)
        self.outcome('export', how)
        got = out.value = None

    def same_export(self, how, got, mo):
        want = {k: mo.read(k) for k in mo.attrs}
        self.ctx.expect(isinstance(got, dict) and sorted(got) == sorted(want), 'copy',
                        lambda: dict(how=how, got=sorted(got), want=sorted(want)))
        for k, m in want.items():
            r = got[k]
            if how == 'export' and 'footprint_export_' + k in mo.cls.methods:
                self.ctx.expect(r == ['exported', 'footprint_export_' + k], 'copy',
                                lambda: dict(how=how, attr=k, got=repr(r)))
                continue
            if how == 'export' and isinstance(m, st.FPRegex):
                self.ctx.expect(r == (m.pattern, m.flags), 'copy', lambda: dict(how=how, attr=k, got=repr(r)))
                continue
            if how == 'export' and isinstance(m, st.TokB):
                self.ctx.expect(r == dict(tok=m.v), 'copy', lambda: dict(how=how, attr=k, got=repr(r)))
                continue
            if how == 'export' and isinstance(m, MObj):
                self.same_export(how, r, m)
                continue
            if how == 'dict' and isinstance(m, MObj):
                self.ctx.expect(isinstance(r, SimBase) and r._simid not in self.mobjs and
                                type(r) is self.rcls[m.cls.sid], 'copy', lambda: dict(how=how, attr=k, got=cv(r, self)))
                continue
            if how == 'export' and isinstance(m, st.FPSet):
                # sets are exported as lists
                r = st.FPSet(r)
            a, b = cv(r, self), cv(m, self)
            self.ctx.expect(a == b, 'copy', lambda: dict(how=how, attr=k, got=a, want=b))

    @staticmethod
    def spoil(how, d):
        """The user changes what was given to them."""
        for k in sorted(d):
            if how != 'shallow':
                mutate(d[k])
            d[k] = 'spoilt'
        d.clear()

    def op_save(self, op):
        """Write an object to the (simulated) disk: it may survive a restart."""
        ro, mo = self.slot(op['slot'])
        if not deepable(mo) or not self.importable(mo):
            raise Skip('not concerned')
        out = self.call(lambda: pickle.dumps(ro, protocol=op.get('proto', 4)), op.get('fault'))
        if out.injected:
            self.faulted = True
            return
        self.ctx.expect(out.exc is None, 'copy', lambda: dict(op='save', got=out.exc, msg=out.msg))
        self.disk[op['file']] = (out.value, self.deep(mo, {}))
        self.outcome('save')

    def unmount(self):
        """What the (simulated) disk holds: JSON."""
        out = {}
        for name, (data, mo) in sorted(self.disk.items()):
            if isinstance(mo, list):
                nodes = mo
            else:
                nodes, memo = [], {}
                self.flatten(mo, nodes, memo)
            out[name] = dict(data=base64.b64encode(data).decode(), nodes=nodes)
        return out

    def flatten(self, mo, nodes, memo):
        if id(mo) in memo:
            return memo[id(mo)]
        idx = memo[id(mo)] = len(nodes)
        node = dict(cls=mo.cls.sid, deleted=getattr(mo, 'deleted', False), dirty=getattr(mo, 'dirty', False))
        nodes.append(node)
        node['attrs'] = {k: ['O', self.flatten(v, nodes, memo)] if isinstance(v, MObj) else cv(v, self)
                         for k, v in mo.attrs.items()}
        node['user'] = {k: cv(v, self) for k, v in mo.user.items()}
        return idx

    def mount(self, inp):
        for name, f in inp.items():
            self.disk[name] = (base64.b64decode(f['data']), f['nodes'])

    def restore_frozen(self, op, data, nodes):
        """An object saved during a former life."""
        for n in nodes:
            mc = self.mcls.get(n['cls'])
            if mc is None or mc.abstract:
                raise Skip('no such class in this life')
            if getattr(sys.modules[mc.module], mc.name, None) is not self.rcls[mc.sid]:
                raise Skip('not importable')
        torn = op.get('torn')
        if torn is not None:
            data = data[:max(0, int(len(data) * torn))]
            self.ctx.inc('fault:torn-file')
        out = self.call(lambda: pickle.loads(data), op.get('fault'))
        if torn is not None:
            self.ctx.expect(out.exc is not None, 'copy', 'a torn file was accepted')
            self.outcome('restore', 'torn')
            return
        self.ctx.expect(out.exc is None, 'copy', lambda: dict(op='restart', got=out.exc, msg=out.msg, cls=nodes[0]['cls']))
        self.thaw(out.value, 0, nodes, {})
        self.outcome('restart', self.named(out.value))
        self.ctx.inc('restored-after-restart')
        if op.get('to'):
            self.slots[op['to']] = out.value

    def thaw(self, real, idx, nodes, memo):
        if idx in memo:
            self.ctx.expect(memo[idx][0] is real, 'copy', 'shared part duplicated')
            return memo[idx][1]
        node = nodes[idx]
        self.ctx.expect(type(real) is self.rcls[node['cls']], 'copy', lambda: dict(
            op='restart', got=type(real).__name__, want=node['cls']))
        mo = MObj(self.mcls[node['cls']], {}, real._simid)
        mo.deleted, mo.dirty = node['deleted'], node['dirty']
        memo[idx] = (real, mo)
        self.ctx.expect(real._simid not in self.mobjs, 'copy', 'object seen before')
        self.ctx.expect(sorted(real.footprint_attributes) == sorted(node['attrs']), 'copy', lambda: dict(
            op='restart', got=sorted(real.footprint_attributes), want=sorted(node['attrs'])))
        got = self.read_obj(real)
        for k, v in node['attrs'].items():
            if isinstance(v, list) and v[:1] == ['O']:
                mo.attrs[k] = self.thaw(getattr(real, k), v[1], nodes, memo)
            else:
                want = None if v == ['U'] else v
                self.ctx.expect(core.canon(got[k]) == core.canon(want), 'copy', lambda: dict(
                    op='restart', attr=k, got=got[k], want=want))
                mo.attrs[k] = UNKNOWN if v == ['U'] else getattr(real, k)
        for k, v in node['user'].items():
            have = cv(getattr(real, k, None), self)
            self.ctx.expect(core.canon(have) == core.canon(v), 'copy', lambda: dict(op='restart', attr=k, got=have, want=v))
            mo.user[k] = getattr(real, k)
        self.mobjs[real._simid] = mo
        return mo

    def op_restore(self, op):
        if op['file'] not in self.disk:
            raise Skip('no file')
        data, mo = self.disk[op['file']]
        if isinstance(mo, list):
            self.restore_frozen(op, data, mo)
            return
        if not self.importable(mo):
            raise Skip('not importable')
        torn = op.get('torn')
        if torn is not None:
            data = data[:max(0, int(len(data) * torn))]
            self.ctx.inc('fault:torn-file')
        out = self.call(lambda: pickle.loads(data), op.get('fault'))
        if out.injected:
            self.faulted = True
            return
        if torn is not None:
            self.ctx.expect(out.exc is not None, 'copy', 'a torn file was accepted')
            self.outcome('restore', 'torn')
            return
        self.ctx.expect(out.exc is None, 'copy', lambda: dict(op='restore', got=out.exc, cls=mo.cls.sid))
        mnew = self.deep(mo, {})
        pairs = []
        self.bind(out.value, mnew, pairs, {})
        for r, m in pairs:
            self.mobjs[r._simid] = m
            m.simid = r._simid
        for r, m in pairs:
            self.ctx.expect(type(r) is self.rcls[m.cls.sid], 'copy', 'not the same class')
            got = self.read_obj(r)
            want = {k: cv(m.read(k), self) for k in m.attrs}
            self.ctx.expect(got == want, 'copy', lambda: dict(op='restore', got=got, want=want))
            self.check_user(r, m)
        self.outcome('restore', self.named(out.value))
        if op.get('to'):
            self.slots[op['to']] = out.value

    def op_drop(self, op):
        if op['slot'] not in self.slots:
            raise Skip('no object')
        del self.slots[op['slot']]
        self.outcome('drop')

    def op_tgt(self, op):
        uid = self.tuid.setdefault(op['t'], len(self.tuid) + 1)
        if op['t'] in self.tgts:
            raise Skip('there')
        self.tgts[op['t']] = st.Tgt(uid)
        self.talive.add(uid)

    def op_droptgt(self, op):
        if op['t'] not in self.tgts:
            raise Skip('no target')
        self.drop_target(op['t'])

    def drop_target(self, name):
        t = self.tgts.pop(name, None)
        if t is None:
            return
        uid = t.uid
        # a new life needs a new identity
        self.tuid[name] = 100 + len(self.tuid) + 10 * uid
        if t in self.held:
            self.dying.add(uid)     # the description of the operation still holds it
        else:
            self.talive.discard(uid)
        self.tlost = True

    def op_gc(self, op):
        gc.collect()

    def op_grep(self, op):
        tag = op.get('tag')
        rkw = {k: dec(v, self, 'r') for k, v in op['kw'].items()}
        mkw = {k: dec(v, self, 'm') for k, v in op['kw'].items()}
        if tag is not None and clean_tag(tag) not in self.colls:
            raise Skip('no collector')
        fault = op.get('fault')
        before = set(self.talive)

        def match(mo, talive):
            for k, v in mkw.items():
                if k in mo.attrs:
                    x = mo.read(k)
                elif k in mo.user:
                    x = mo.user[k]
                elif k == 'note' and mo.cls.note is not None:
                    x = mo.cls.note
                elif k == 'realkind':
                    x = 'footprintbase'
                else:
                    return False
                if isinstance(x, MWeak) and x.uid not in talive:
                    return False
                if isinstance(x, MObj) or isinstance(v, MObj):
                    if x is not v:
                        return False
                elif x != v:
                    return False
            return True
        if tag is None:
            func = lambda: footprints.grep(**rkw)
        else:
            func = lambda: collectors.get(tag=tag).grep(**rkw)
        tags = sorted(self.colls) if tag is None else [clean_tag(tag)]
        out = self.call(func, fault)
        if out.injected:
            self.faulted = True
            out.value = None
            return
        self.ctx.expect(out.exc is None, 'grep', lambda: dict(got=out.exc))
        got = sorted(o._simid for o in out.value)
        most = sorted(s for t in tags for s, m in self.mobjs.items() if t in m.boards and match(m, before))
        reach = self.reachable()
        want = sorted(s for t in tags for s, m in self.mobjs.items()
                      if t in m.boards and s in reach and match(m, self.talive))
        # objects and targets that died meanwhile may or may not be there
        left = list(got)
        ok = True
        for s in want:
            if s in left:
                left.remove(s)
            else:
                ok = False
        for s in want:
            most.remove(s)
        for s in left:
            if s in most:
                most.remove(s)
            else:
                ok = False
        self.ctx.expect(ok, 'grep', lambda: dict(kw=op['kw'], got=got, want=want))
        self.outcome('grep', len(got))
        out.value = None

    def op_default(self, op):
        tag = clean_tag(op['tag'])
        if tag not in self.colls:
            raise Skip('no collector')
        self.usable_levels(tag)
        rdesc, mdesc = self.desc(op, 'r'), self.desc(op, 'm')
        if self.cbvals is not None and len({core.canon(x) for x in self.cbvals}) > 1:
            raise Skip('default() consults a steady environment only')
        ex = self.next_extras()
        ok, raising0 = [], []
        already = mdesc.get(tag)
        for s, mo in self.mobjs.items():
            if tag in mo.boards and mo.cls.reusable:
                try:
                    r = fm.resolve(mo.cls.foot, mdesc, self.setup, extras0=ex)
                except MErr as e:
                    raising0.append(e.kind)
                    continue
                if r.ok and r.guess and self.same(mo, r.guess):
                    ok.append(s)
        raising, cands, diags = self.msearch(tag, mdesc, ex)
        if op['entry'] == 'module':
            func = lambda: footprints.default(tag=op['tag'], **rdesc)
        else:
            func = lambda: collectors.get(tag=op['tag']).default(**rdesc)
        talive0 = set(self.talive)
        out = self.call(func, op.get('fault'))
        self.cbcount += out.ncallback
        reused = out.exc is None and out.value is not None and out.value._simid in self.mobjs
        self.searched('none' if reused else 'maybe' if raising0 or talive0 != self.talive else
                      'none' if already is not None else 'all',
                      tag, raising, cands, diags, out)
        if out.injected:
            self.faulted = True
            self.outcome('default', 'aborted')
            return
        if talive0 != self.talive:
            # a weak value died meanwhile: nothing can be said but for tracking
            if out.exc is None and out.value is not None and out.value._simid not in self.mobjs:
                sid = self.sid_of.get(id(type(out.value)))
                match = [c for c in cands if c[0].sid == sid]
                if not match:
                    self.ctx.flag('default', 'unexpected object')
                self.adopt(out.value, match[0][0], match[0][1], 'default')
            out.value = None
            return
        if already is not None and not ok and not raising0:
            self.ctx.expect(out.exc is None and getattr(out.value, '_simid', None) == already.simid,
                            'default', lambda: dict(got=out.exc or cv(out.value, self), want=cv(already, self)))
            out.value = None
            self.outcome('default', 'already')
            return
        if out.exc is not None:
            if out.fired and ok:
                there = self.reachable()
                ok = [x for x in ok if x in there]
            self.ctx.expect(bool(raising0) or (not ok and bool(raising)), 'default',
                            lambda: dict(got=out.exc, reuse=ok, raising=raising))
            self.outcome('default', 'err')
            return
        if out.value is not None and out.value._simid in self.mobjs:
            self.ctx.expect(out.value._simid in ok, 'default',
                            lambda: dict(got=out.value._simid, want=ok))
            self.outcome('default', 'reused')
            self.tie = len(ok) > 1
            self.ctx.inc('reused')
            obj = out.value
        else:
            if out.fired and ok:
                # some of them may have been dropped meanwhile
                there = self.reachable()
                ok = [x for x in ok if x in there]
            self.ctx.expect(not ok, 'default', lambda: dict(got='a new object' if out.value is not None else None, want=ok))
            obj = self.settle(out, raising, cands, 'default', fast=self.colls[tag].fast)
        if obj is not None and op.get('slot'):
            self.store(op['slot'], obj)

    def same(self, mo, guess):
        for k, v in guess.items():
            if k not in mo.attrs:
                return False
            x = mo.attrs[k]
            if isinstance(x, MWeak):
                if x.uid not in self.talive:
                    return False
            if isinstance(x, MObj) or isinstance(v, MObj):
                if x is not v:
                    return False
            elif x is UNKNOWN or v is UNKNOWN:
                if x is not v:
                    return False
            elif not (x == v):
                return False
        return True

    # ------------------------------------------------------------- registry ----

    def op_reg(self, op):
        """Additions and removals."""
        tag = clean_tag(op['tag'])
        if tag not in self.colls:
            raise Skip('no collector')
        mc = self.colls[tag]
        coll = collectors.get(tag=tag)
        how = op['how']
        if how in ('discard', 'add'):
            sid = op['cls']
            if sid not in self.mcls or self.mcls[sid].abstract or tag not in self.mcls[sid].tags:
                raise Skip('no class')
            rc = self.rcls[sid]
            if how == 'discard':
                func = lambda: coll.discard(rc)
                mc.classes = [x for x in mc.classes if x.sid != sid]
            else:
                func = lambda: coll.add(rc)
                if self.mcls[sid] not in mc.classes:
                    mc.classes.append(self.mcls[sid])
        elif how == 'register':
            def func():
                coll.register = op['val']
            mc.register = op['val']
        elif how == 'clear':
            func = coll.clear
            mc.classes = []
        elif how == 'pop':
            if not mc.classes:
                raise Skip('empty')
            func = coll.pop
        elif how in ('reset_level', 'discard_higher', 'discard_lower') and op['level'] not in self.prio:
            if how != 'reset_level' and any(c.level not in self.prio for c in mc.classes):
                raise Skip('no level')
            lev = self.arg_level(op['level'], op.get('aslevel'))
            self.nolevel(how, dict(discard_higher=lambda: coll.discard_higher_level(lev, verbose=False),
                                   discard_lower=lambda: coll.discard_lower_level(lev, verbose=False),
                                   reset_level=lambda: coll.reset_package_level(op['pack'], lev))[how])
            return
        elif how in ('discard_package', 'reset_level', 'discard_onflag', 'discard_higher', 'discard_lower'):
            sel = self.select(mc, op)
            if how == 'discard_package':
                func = lambda: coll.discard_package(op['pack'], verbose=op.get('verbose', True))
            elif how == 'discard_onflag':
                func = lambda: coll.discard_onflag(op['flag'], default=op['val'], verbose=op.get('verbose', True))
            elif how in ('discard_higher', 'discard_lower'):
                lev = self.arg_level(op['level'], op.get('aslevel'))
                func = ((lambda: coll.discard_higher_level(lev, verbose=False)) if how == 'discard_higher' else
                        (lambda: coll.discard_lower_level(lev, verbose=False)))
            else:
                lev = self.arg_level(op['level'], op.get('aslevel'))
                func = lambda: coll.reset_package_level(op['pack'], lev)
            if how == 'reset_level':
                for c in sel:
                    c.foot.fp['priority']['level'] = op['level']
            else:
                mc.classes = [c for c in mc.classes if c not in sel]
        else:
            raise HarnessError(how)
        out = self.call(func)
        self.ctx.expect(out.exc is None, 'query', lambda: dict(op=how, got=out.exc))
        if how == 'pop':
            sid = self.sid_of.get(id(out.value))
            self.ctx.expect(sid in [c.sid for c in mc.classes], 'registry', 'popped an unknown class')
            mc.classes = [c for c in mc.classes if c.sid != sid]
            out.value = None
        self.outcome('reg', how)

    def nolevel(self, how, func):
        """There is no such level: nothing is selected, nothing changes."""
        out = self.call(func)
        self.ctx.expect(out.exc is not None, 'query', lambda: dict(op=how, level='unknown', got='no error'))
        self.outcome('nolevel', how)
        out.value = None

    def arg_level(self, level, aslevel):
        return priorities.top.level(level) if aslevel else level.lower() if aslevel is None else level

    def select(self, mc, op):
        how = op['how'].replace('filter_', 'discard_')
        if how in ('discard_package', 'reset_level'):
            return [c for c in mc.classes if c.fullname.startswith(op['pack'])]
        if how == 'discard_onflag':
            vals = dict(footprint_reusable=lambda c: bool(c.reusable), footprint_abstract=lambda c: c.abstract,
                        footprint_level=lambda c: c.level, footprint_clskind=lambda c: c.name.lower())
            if op['flag'] not in vals:
                return []
            return [c for c in mc.classes if vals[op['flag']](c) == op['val']]
        if any(c.level not in self.prio for c in mc.classes):
            raise Skip('no level')
        i = self.prio.index(op['level'])
        if how == 'discard_higher':
            return [c for c in mc.classes if self.prio.index(c.level) >= i]
        return [c for c in mc.classes if self.prio.index(c.level) < i]

    def op_query(self, op):
        """Queries upon the content of the registries."""
        how = op['how']
        ctx = self.ctx
        if how == 'collected':
            out = self.call(footprints.collected_classes)
            got = sorted(self.sid_of.get(id(c), '?' + c.fullname()) for c in (out.value or ()))
            want = sorted({c.sid for m in self.colls.values() for c in m.classes})
            ctx.expect(out.exc is None and got == want, 'query', lambda: dict(op=how, exc=out.exc, got=got, want=want))
            return
        if how == 'objectsmap':
            out = self.call(footprints.proxy.objectsmap)
            got = {k: sorted(o._simid for o in v) for k, v in (out.value or {}).items()}
            want = {t + 's': sorted(s for s, o in self.mobjs.items() if t in o.boards) for t in self.colls}
            out.value = None
            ctx.expect(got == want, 'track', lambda: dict(got=got, want=want))
            return
        if how in ('cat', 'objects'):
            p = footprints.proxy
            out = self.call(p.objects if how == 'objects' else p if op.get('short') else p.cat)
            got = [ln.split()[:2] for ln in out.printed.splitlines()]
            if how == 'cat':
                want = [[str(len(m.classes)), m.tag + 's'] for m in sorted(self.colls.values(), key=lambda m: m.tag)]
            else:
                want = [[str(sum(t in o.boards for o in self.mobjs.values())), t + 's'] for t in sorted(self.colls)]
            ctx.expect(out.exc is None and got == want, 'query' if how == 'cat' else 'track',
                       lambda: dict(op=how, exc=out.exc, got=got, want=want))
            return
        if how == 'prios':
            every = {c.sid: c for m in self.colls.values() for c in m.classes}
            if any(c.level not in self.prio for c in every.values()):
                raise Skip('no level')
            if op['level'] not in self.prio:
                if every:
                    self.nolevel(how, lambda: footprints.collected_priorities(self.arg_level(op['level'], op.get('aslevel'))))
                return
            out = self.call(lambda: footprints.collected_priorities(self.arg_level(op['level'], op.get('aslevel'))))
            got = [ln.split() for ln in out.printed.splitlines()]
            want = sorted([c.fullname, c.level] for c in every.values()
                          if self.prio.index(c.level) >= self.prio.index(op['level']))
            ctx.expect(out.exc is None and [x[-1] for x in got] == [w[0] for w in want] and
                       sorted([x[-1], x[0]] for x in got) == want, 'query',
                       lambda: dict(op=how, exc=out.exc, got=got, want=want))
            return
        if how == 'fpcopy':
            self.fpcopy(op)
            return
        if how == 'reset_package':
            if op['level'] not in self.prio:
                if any(m.classes for m in self.colls.values()):
                    lev = self.arg_level(op['level'], op.get('aslevel'))
                    self.nolevel(how, lambda: footprints.reset_package_priority(op['pack'], lev))
                return
            lev = self.arg_level(op['level'], op.get('aslevel'))
            out = self.call(lambda: footprints.reset_package_priority(op['pack'], lev))
            ctx.expect(out.exc is None, 'query', lambda: dict(op=how, got=out.exc))
            for m in self.colls.values():
                for c in m.classes:
                    if c.fullname.startswith(op['pack']):
                        c.foot.fp['priority']['level'] = op['level']
            return
        tag = clean_tag(op['tag'])
        if tag not in self.colls:
            raise Skip('no collector')
        mc = self.colls[tag]
        coll = collectors.get(tag=op['tag'])
        ctx.expect(coll.tag == tag and collectors.get(tag=tag + 's') is coll, 'query', 'not one collector per tag')
        if how in ('filter_higher', 'filter_lower') and op['level'] not in self.prio:
            if any(c.level not in self.prio for c in mc.classes):
                raise Skip('no level')
            lev = self.arg_level(op['level'], op.get('aslevel'))
            self.nolevel(how, (lambda: coll.filter_higher_level(lev)) if how == 'filter_higher' else
                         (lambda: coll.filter_lower_level(lev)))
            return
        if how.startswith('filter'):
            sel = self.select(mc, op)
            if how == 'filter_package':
                func = lambda: coll.filter_package(op['pack'])
            elif how == 'filter_onflag':
                func = lambda: coll.filter_onflag(op['flag'], default=op['val'])
            elif how == 'filter_higher':
                func = lambda: coll.filter_higher_level(self.arg_level(op['level'], op.get('aslevel')))
            else:
                func = lambda: coll.filter_lower_level(self.arg_level(op['level'], op.get('aslevel')))
            out = self.call(func)
            ctx.expect(out.exc is None, 'query', lambda: dict(op=how, got=out.exc))
            got = sorted(self.sid_of.get(id(c), '?') for c in out.value)
            want = sorted(c.sid for c in sel)
            ctx.expect(got == want, 'query', lambda: dict(op=how, got=got, want=want))
        elif how == 'get_values':
            out = self.call(lambda: coll.get_values(op['attr']))
            vals = []
            for c in mc.classes:
                if op['attr'] in c.foot.attr:
                    for v in c.foot.attr[op['attr']]['values']:
                        if not any(type(x) is type(v) and x == v for x in vals):
                            vals.append(v)
            try:
                swant = sorted(vals)
            except (TypeError, AttributeError):
                return      # values that cannot be compared with each other
            if len({type(v) for v in vals}) > 1:
                return
            ctx.expect(out.exc is None, 'query', lambda: dict(op=how, got=out.exc))
            got = [cv(v, self) for v in out.value]
            want = [cv(v, self) for v in swant]
            ctx.expect(got == want, 'query', lambda: dict(op=how, got=got, want=want))
        elif how == 'attrmap':
            only = op.get('only')
            ronly = only if only is None else {True: set, False: list, 2: tuple, 3: frozenset}[op.get('asset', False)](only)
            given = None
            if op.get('given'):
                # one more collector in a map that was made before
                given = {k: [dict(name='Older', module='older', values=set(), outcast=set())] for k in op['given']}
            out = self.call(lambda: coll.build_attrmap(only=ronly) if given is None else
                            coll.build_attrmap(given, only=ronly))
            ctx.expect(out.exc is None, 'query', lambda: dict(op=how, got=out.exc))
            ctx.expect(given is None or out.value is given, 'query', 'another map')
            got = {k: sorted(([x['name'], x['module'], cv(set(x['values']), self), cv(set(x['outcast']), self)]
                              for x in v), key=core.canon)
                   for k, v in out.value.items()}
            want = {k: [['Older', 'older', cv(set(), self), cv(set(), self)]] for k in op.get('given') or ()}
            for c in mc.classes:
                for k, d in c.foot.attr.items():
                    if only is not None and k not in only:
                        continue
                    want.setdefault(k + (' [optional]' if d['optional'] else ''), []).append(
                        [c.name, c.module, cv(d['values'], self), cv(d['outcast'], self)])
            want = {k: sorted(v, key=core.canon) for k, v in want.items()}
            ctx.expect(got == want, 'query', lambda: dict(op=how, got=got, want=want))
        elif how == 'shows':
            only = op.get('only')
            out = self.call(lambda: coll.show_attrkeys(only=only))
            keys = {}
            for c in mc.classes:
                for k, d in c.foot.attr.items():
                    if only is None or k in only:
                        keys.setdefault(k + (' [optional]' if d['optional'] else ''), []).append(
                            [c.name, c.module, bool(d['values']) + bool(d['outcast'])])
            got = [ln.split()[1:] for ln in out.printed.splitlines()]
            want = [k.split() for k in sorted(keys)]
            ctx.expect(out.exc is None and got == want, 'query', lambda: dict(op=how, exc=out.exc, got=got, want=want))
            out = self.call(lambda: coll.show_attrmap(only=only))
            got = []
            for ln in out.printed.splitlines():
                x = ln.split()
                if x[:1] == ['*']:
                    got.append([' '.join(x[1:]).rstrip(':'), []])
                elif x[1:2] == ['+']:
                    got[-1][1].append([x[0], x[2], 0])
                elif x[:1] == ['|']:
                    got[-1][1][-1][2] += 1
            got = [[k, sorted(v)] for k, v in got]
            want = [[k, sorted(keys[k])] for k in sorted(keys)]
            ctx.expect(out.exc is None and got == want, 'query', lambda: dict(op=how, exc=out.exc, got=got, want=want))
        elif how == 'proxy':
            p = footprints.proxy
            out = self.call(lambda: [p.exists(tag), tag in p, tag + 's' in p, p.exists('nothing_like_that'),
                                     getattr(p, tag) == coll.load, getattr(p, tag + 's') is coll,
                                     p.getitem(tag) is coll, p.getitem('nothing_like_that', 3) == 3,
                                     [x for x in p] and sum(1 for x in p if x is coll) == 1,
                                     sorted([n, k] for n, k, c in p.catlist())])
            ctx.expect(out.exc is None, 'query', lambda: dict(op=how, got=out.exc))
            want = [True, True, True, False, True, True, True, True, True,
                    sorted([len(m.classes), m.tag + 's'] for m in self.colls.values())]
            ctx.expect(out.value == want, 'query', lambda: dict(op=how, got=out.value, want=want))
        else:
            raise HarnessError(how)
        self.outcome('query', how)

    def fpcopy(self, op):
        """The copies and lists given by a footprint belong to the user."""
        sid = op['cls']
        if sid not in self.mcls:
            raise Skip('no class')
        rc, foot = self.rcls[sid], self.mcls[sid].foot
        self.documentable(foot)
        fp = rc.footprint_retrieve()
        desc = {k: 'x' for k in op['keys']}
        out = self.call(lambda: [fp.as_copy(), fp.as_dict(), sorted(fp.as_opts()), sorted(fp.track(desc)),
                                 {k: rc.footprint_values(k) for k in foot.attr}, fp.allkeys(),
                                 {k: bool(rc.footprint_optional(k)) for k in foot.attr}, sorted(rc.footprint_mandatory())])
        self.ctx.expect(out.exc is None, 'fp', lambda: dict(op='fpcopy', exc=out.exc, msg=out.msg))
        if out.exc is not None:
            return
        cp, dico, opts, track, values, allkeys, opt, mandatory = out.value
        got = [{k: [cv(d[x], self) for x in ('default', 'values', 'outcast', 'remap')] + [bool(d['optional']), sorted(d['alias'])]
                for k, d in cp['attr'].items()}, cv(dict(cp['only']), self), cp['info'],
               opts, track, {k: cv(set(v), self) for k, v in values.items()}, opt, mandatory, len(cp), sorted(dico)]
        want = [{k: [cv(d[x], self) for x in ('default', 'values', 'outcast', 'remap')] + [bool(d['optional']), sorted(d['alias'])]
                 for k, d in foot.attr.items()}, cv(foot.only, self), foot.fp['info'],
                sorted(foot.allkeys()), sorted(k for k in desc if k in foot.allkeys()),
                {k: cv(d['values'], self) for k, d in foot.attr.items()},
                {k: bool(d['optional']) for k, d in foot.attr.items()}, sorted(foot.mandatory()), len(dico), sorted(cp)]
        self.ctx.expect(got == want, 'fp', lambda: dict(op='fpcopy', cls=sid, diff=self.diff(got, want)))
        if self.mcls[sid].level in self.prio and len(self.kept_levels) < 4:
            more = self.call(lambda: footprints.Footprint(fp, nodefault=True))
            self.ctx.expect(more.exc is None, 'fp', lambda: dict(op='nodefault', exc=more.exc, msg=more.msg))
            if more.exc is None:
                self.kept_levels.append((self.mcls[sid].level, [cp['priority']['level'], dico['priority']['level']] + (
                    [more.value.level] if foot.attr or foot.only else [])))
                more.value = None
        for d in cp['attr'].values():
            for x in ('values', 'outcast', 'alias'):
                d[x].add('SPOILT')
            d['remap']['SPOILT'] = 'x'
            d['optional'] = not d['optional']
            d['default'] = 'SPOILT'
        cp['attr']['spoilt'] = dict(cp['attr'].get('kind', {}))
        cp['only']['kind'] = 'SPOILT'
        cp['info'] = dico['info'] = 'SPOILT'
        cp['priority']['level'] = 'SPOILT'
        cp['bind'].append('SPOILT')
        dico['attr'] = {}
        allkeys.add('SPOILT')
        for v in values.values():
            v.append('SPOILT')
        out.value = None

    def op_add_proxy(self, op):
        if op['name'] not in self.proxies:
            obj = self.proxies[op['name']] = ProxyTarget(op['name'])
            for k in op.get('busy', ()):
                setattr(obj, k, 'busy')
            obj.busy_names = set(op.get('busy', ()))
        else:
            obj = self.proxies[op['name']]
        clear = op.get('clear', False)
        if clear:
            obj.busy_names = set()
        out = self.call(lambda: footprints.setup.add_proxy(obj, clear=clear))
        self.ctx.expect(out.exc is None, 'query', lambda: dict(op='add_proxy', got=out.exc))
        self.outcome('add_proxy')

    def op_check_proxies(self, op):
        for n, obj in sorted(self.proxies.items()):
            for tag in sorted(self.colls):
                c = collectors.get(tag=tag)
                for name, want in ((tag, c.load), (tag + 's', c)):
                    got = getattr(obj, name, None)
                    if name in obj.busy_names:
                        continue
                    self.ctx.expect(got == want if name == tag else got is want, 'query',
                                    lambda: dict(op='proxy', proxy=n, name=name, got=repr(type(got))))

    def op_fasttrack(self, op):
        tag = clean_tag(op['tag'])
        if tag not in self.colls:
            raise Skip('no collector')
        coll = collectors.get(tag=tag)

        def func():
            coll.fasttrack = set(op['keys']) if not op.get('aslist') else list(op['keys'])
        out = self.call(func)
        self.ctx.expect(out.exc is None, 'raise', lambda: dict(op='fasttrack', got=out.exc))
        self.colls[tag].fast = bool(op['keys'])
        self.outcome('fasttrack')

    # ------------------------------------------------- settings, priorities ----

    @staticmethod
    def see_setup(s):
        d = s.as_dict()
        out = {k: d[k] for k in ('extended', 'fastmode', 'tag', 'report', 'lreport_len', 'report_style', 'fatal')}
        out.update(fastkeys=list(d['fastkeys']), callback=d['callback'] is not None, proxies=len(d['proxies']))
        out['same'] = dict(d['defaults']) == dict(s.defaults)
        return out

    def op_newsetup(self, op):
        """Other settings: the current ones with some changes. From then on, they have nothing in common."""
        tag, kw = op['tag'], dict(op['kw'])
        mine = {k: dec(v, self, 'r') for k, v in op['defaults'].items()}
        theirs = {k.lower(): dec(v, self, 'm') for k, v in op['defaults'].items()}
        if tag in self.osetups:
            s, _, vals = self.osetups[tag]
            for k, v in mine.items():
                s.defaults[k] = v
            vals.update(theirs)
            got = self.call(lambda: footprints.setup(tag=tag)).value
            self.ctx.expect(got is s, 'settings', lambda: dict(tag=tag, got='other settings'))
        else:
            want = self.see_setup(footprints.setup)
            want.update(kw, tag=tag)
            if mine:
                kw['defaults'] = mine
            out = self.call(lambda: footprints.setup(tag=tag, **kw))
            self.ctx.expect(out.exc is None, 'settings', lambda: dict(got=out.exc))
            s = out.value
            out.value = None
            self.ctx.expect(s is not footprints.setup and footprints.config.get(tag=tag) is s,
                            'settings', 'not other settings')
            self.osetups[tag] = [s, want, theirs if mine else dict(self.setup.defaults)]
            # what the user does afterwards with his own dictionary is no business of the settings
            mine.clear()
        self.outcome('newsetup', tag)

    def op_setup(self, op):
        what, val = op['what'], op.get('val')
        s = footprints.setup
        if what == 'defaults':
            r = {k: dec(v, self, 'r') for k, v in val.items()}
            if op.get('lower'):
                r = LowerCaseDict(r)
            s.defaults = r
            self.setup.defaults = {k.lower(): dec(v, self, 'm') for k, v in val.items()}
            if op.get('spoil'):
                # what the user does afterwards with his own dictionary is no business of the settings
                r.clear()
                r['num' if op['spoil'] > 1 else 'kind'] = 'spoilt'
        elif what == 'defaults_keep':
            self.kept[val] = (s.defaults, self.setup.defaults)
        elif what == 'defaults_back':
            if val not in self.kept:
                raise Skip('nothing kept')
            s.defaults = self.kept[val][0]
            self.setup.defaults = dict(self.kept[val][1])
        elif what == 'defaults_upd':
            for k, v in val.items():
                if op.get('via') == 'update':
                    s.defaults.update({k: dec(v, self, 'r')})
                elif op.get('via') == 'call':
                    s.defaults(**{k: dec(v, self, 'r')})
                else:
                    s.defaults[k] = dec(v, self, 'r')
                self.setup.defaults[k.lower()] = dec(v, self, 'm')
        elif what == 'defaults_del':
            if val.lower() not in self.setup.defaults:
                raise Skip('no default')
            del s.defaults[val.lower()]
            del self.setup.defaults[val.lower()]
        elif what == 'extended':
            s.extended = val
            if val is not None:
                self.setup.extended = bool(val)
        elif what == 'fastmode':
            s.fastmode = val
            self.setup.fastmode = bool(val)
        elif what == 'fastkeys':
            s.fastkeys = tuple(val)
            self.setup.fastkeys = tuple(val)
        elif what == 'callback':
            if val is None:
                s.callback = None
                self.cbvals = None
                self.setup.callback = None
            else:
                self.cbvals = [{k: dec(v, self, 'm') for k, v in x.items()} for x in val]
                rvals = [{k: dec(v, self, 'r') for k, v in x.items()} for x in val]
                self.rcb = rvals
                self.cbcount = 0
                count = [0]

                def cb():
                    n = count[0]
                    count[0] += 1
                    HK('callback', None)
                    got = rvals[n % len(rvals)]
                    # the user may give the very same dictionary every time
                    return got if op.get('same') else dict(got)
                s.callback = cb
        elif what == 'fatal':
            s.fatal = val
        elif what == 'docs':
            s.docstrings = self.docs = val or 0
        elif what == 'shortnames':
            s.shortnames = bool(val)
        elif what == 'report':
            tag = clean_tag(op.get('tag', ''))
            if tag in self.colls:
                collectors.get(tag=tag).report = val
            else:
                s.report = val
        elif what == 'style':
            tag = clean_tag(op.get('tag', ''))
            if tag in self.colls:
                collectors.get(tag=tag).report_style = val
        else:
            raise HarnessError(what)
        self.ctx.ev(self.opi, 'setup', what)

    def op_clock(self, op):
        boot.CLOCK.us += op['us']
        boot.CLOCK.covered += max(0, op['us'])

    def used_levels(self):
        out = {c.level for c in self.mcls.values()}
        out |= {f.fp['priority']['level'] for f in self.mfps.values()}
        out |= {d['priority']['level'] for d in self.mdicts.values() if 'priority' in d}
        return out | {'DEFAULT'}

    def op_prio(self, op):
        top = priorities.top
        how = op['how']
        p = list(self.prio)
        lev = op.get('level')
        if lev is not None and lev not in p and how not in ('insert',):
            raise Skip('no level')
        if how in ('up', 'down', 'top', 'bottom'):
            i = p.index(lev)
            p.remove(lev)
            j = dict(up=i + 1, down=max(0, i - 1), top=len(p) + 1, bottom=0)[how]
            p.insert(j, lev)
            func = lambda: getattr(top.level(lev), how)()
        elif how == 'rerank':
            i = p.index(lev)
            p.remove(lev)
            p.insert(max(0, i + op['n']), lev)
            func = lambda: top.rerank(lev.lower(), op['n'])
        elif how == 'insert':
            ref = op['ref']
            if ref not in p or ref == lev:
                raise Skip('no reference')
            if lev in p:
                p.remove(lev)
            p.insert(p.index(ref) + (1 if op['after'] else 0), lev)
            if op.get('mod'):
                func = lambda: (priorities.set_after if op['after'] else priorities.set_before)(ref, lev)
            else:
                func = lambda: top.insert(tag=lev, **{'after' if op['after'] else 'before': ref})
        elif how == 'remove':
            if lev in self.used_levels():
                raise Skip('used')
            p.remove(lev)
            func = lambda: top.remove(lev)
        elif how == 'freeze':
            self.frozen[op['name']] = list(p)
            func = lambda: top.freeze(op['name'])
        elif how == 'restore':
            if op['name'] not in self.frozen or not self.used_levels() <= set(self.frozen[op['name']]):
                raise Skip('levels in use')
            p = list(self.frozen[op['name']])
            func = lambda: top.restore(op['name'])
        elif how == 'class':
            if op['cls'] not in self.mcls:
                raise Skip('no class')
            fp = self.rcls[op['cls']].footprint_retrieve()
            lv = top.level(lev)

            def func():
                fp.priority['level'] = lv
            self.mcls[op['cls']].foot.fp['priority']['level'] = lev
        else:
            raise HarnessError(how)
        out = self.call(func)
        self.ctx.expect(out.exc is None, 'prio', lambda: dict(op=how, got=out.exc))
        self.prio = p
        self.outcome('prio', how)


def cv_dict(d, w):
    """Canonical form of a definition dictionary."""
    out = {}
    for k, v in d.items():
        if k == 'attr' and isinstance(v, list):
            out[k] = [[[a, cv(x, w)] for a, x in item.items()] for item in v]
        elif k == 'priority':
            lv = v['level']
            out[k] = lv if isinstance(lv, str) else lv.tag
        else:
            out[k] = cv(v, w)
    return out


class ProxyTarget:
    def __init__(self, name):
        self._name = name


class PyBase:
    pass


def deco_mark(name):
    def deco(cls):
        HK('deco', 'mark')
        cls.__decorated__ = cls.__dict__.get('__decorated__', ()) + (name,)
        return cls
    return deco


def mutate(v):
    """Change a value in place, as deep as possible."""
    if isinstance(v, list):
        for x in v:
            mutate(x)
        v.append('spoilt')
    elif isinstance(v, tuple):
        for x in v:
            mutate(x)
    elif isinstance(v, set):
        v.add('spoilt')
    elif isinstance(v, dict):
        for k in sorted(v):
            mutate(v[k])
        v['spoilt'] = 1
    elif isinstance(v, st.Tok):
        v.v = 'spoilt'


def mutable(v):
    return isinstance(v, (list, set, dict, st.Tok)) or isinstance(v, tuple) and any(mutable(x) for x in v)


ACCESS = ('rxx', 'rwx', 'rwd', 'rxx-weak', 'rwx-weak', 'rwd-weak')


def cloneable(mo):
    """A clone re-resolves the values: leave out those that mean something else then."""
    if getattr(mo, 'deleted', False):
        return False
    for k, v in mo.attrs.items():
        if v is None:
            return False
        if isinstance(v, str) and v is not UNKNOWN and ('[' in v or v == 'None'):
            return False
        d = mo.cls.foot.attr[k]
        try:
            if v is not UNKNOWN and v in d['remap']:
                return False
        except TypeError:
            pass
    return True


def cyclic(mo, up=()):
    return any(v is mo or v in up or cyclic(v, up + (mo,)) for v in mo.attrs.values() if isinstance(v, MObj))


def deepable(mo, seen=None):
    seen = set() if seen is None else seen
    if id(mo) in seen:
        return True
    seen.add(id(mo))
    for v in mo.attrs.values():
        if isinstance(v, MWeak):
            return False
        if isinstance(v, MObj) and not deepable(v, seen):
            return False
    return True
