"""
Heart of the simulator: step events, faults, thread scheduler, execution context.

A *run* is a pure function of (plan, PYTHONHASHSEED, code of /repo). The plan is a
JSON document drawn from one seeded generator; it says what is executed, with which
faults and which interleaving. A *step* is one executed source line of the package
(``sys.monitoring`` LINE events): faults and preemptions are placed at given steps.
"""

import dis
import gc
import hashlib
import json
import random
import sys
import threading
import _thread

import boot

PKG = boot.PKG
BRONX = boot.BRONX

_mon = sys.monitoring
_TOOL = 4
POP_EXCEPT = dis.opmap['POP_EXCEPT']


class SimAbort(BaseException):
    """Base of the exceptions that only the simulator raises."""


class SimInterrupt(SimAbort):
    """Asynchronous interrupt (think of KeyboardInterrupt) injected at some step."""


class SimBudget(SimAbort):
    """The operation ran for more steps than any terminating resolution needs."""


class SimDeadlock(SimAbort):
    """No simulated thread may run anymore."""


class UserError(Exception):
    """Injected failure of user code (caller side)."""


class UserAbort(BaseException):
    """Injected failure of user code that no ``except Exception`` stops."""


class StopRun(Exception):
    """The run stops here (violation found, or it diverged for a foreign reason)."""


class HarnessError(Exception):
    """Something is wrong in the harness itself."""


# ------------------------------------------------------------- step events --

class Monitor:
    """Count steps of the package and fire planned actions at some of them."""

    def __init__(self):
        self.scope = {}
        self.on = False
        self.bronx = False
        self.reset()

    def reset(self):
        self.steps = 0          # steps in the current operation
        self.total = 0
        self.budget = None
        self.dead = False
        self.actions = {}       # step -> callable
        self.fired = {}

    def install(self, bronx=False, instr=False):
        self.scope.clear()
        self.bronx = bronx
        if not self.on:
            _mon.use_tool_id(_TOOL, 'verif-sim')
            _mon.register_callback(_TOOL, _mon.events.LINE, self._line)
            self.on = True
        _mon.set_events(_TOOL, _mon.events.LINE)
        _mon.restart_events()

    def _mine(self, code):
        fn = code.co_filename
        r = fn.startswith(PKG) or (self.bronx and fn.startswith(BRONX) and 'loggers' not in fn)
        self.scope[code] = r
        return r

    def _line(self, code, line):
        try:
            ok = self.scope[code]
        except KeyError:
            ok = self._mine(code)
        if not ok:
            return _mon.DISABLE
        sched = boot.SCHED
        if sched is not None:
            sched.step()
        self.steps += 1
        self.total += 1
        if self.dead:
            raise SimBudget()
        if self.budget is not None and self.steps > self.budget:
            self.dead = True
            raise SimBudget()
        if self.actions:
            act = self.actions.pop(self.steps, None)
            if act is not None:
                # CPython forgets to restore the exception state when something is raised
                # right at a POP_EXCEPT (no real signal is ever delivered there)
                if code.co_code[sys._getframe(1).f_lasti] == POP_EXCEPT:
                    self.actions.setdefault(self.steps + 1, act)
                else:
                    act()

    def begin(self, budget):
        self.steps = 0
        self.dead = False
        self.budget = budget
        self.actions = {}

    def end(self):
        self.budget = None
        self.dead = False
        self.actions = {}
        return self.steps


MON = Monitor()


# ---------------------------------------------------------------- scheduler --

class Scheduler:
    """
    Real threads, parked and released one at a time.

    ``schedule`` is a list of [step, thread]: at that global step, control goes to
    that thread (if it can run). A finished or blocked thread gives control to the
    next runnable one in cyclic order.
    """

    def __init__(self, schedule):
        self.schedule = sorted([list(x) for x in schedule])
        self.pos = 0
        self.gstep = 0
        self.threads = []
        self.gates = []
        self.state = []     # 'ready' | 'done'
        self.ids = {}
        self.current = None
        self.switches = 0
        self.trace = []
        self.done_gate = _thread.allocate_lock()
        self.done_gate.acquire()
        self.errors = []

    def is_mine(self):
        return threading.get_ident() in self.ids

    def spawn(self, func):
        idx = len(self.threads)
        gate = _thread.allocate_lock()
        gate.acquire()
        self.gates.append(gate)
        self.state.append('ready')
        self.threads.append((idx, func))
        return idx

    def _body(self, idx, func):
        self.ids[threading.get_ident()] = idx
        self.gates[idx].acquire()
        try:
            func()
        except BaseException as e:  # pragma: no cover - workloads catch everything
            self.errors.append(repr(e))
        self.state[idx] = 'done'
        del self.ids[threading.get_ident()]
        nxt = self._next(idx)
        if nxt is None:
            self.done_gate.release()
        else:
            self.current = nxt
            self.gates[nxt].release()

    def _next(self, idx):
        n = len(self.threads)
        for d in range(1, n + 1):
            j = (idx + d) % n
            if self.state[j] == 'ready' and j != idx:
                return j
        return idx if self.state[idx] == 'ready' else None

    def run(self, wall=60):
        boot.SCHED = self
        try:
            for idx, func in self.threads:
                _thread.start_new_thread(self._body, (idx, func))
            while len(self.ids) < len(self.threads):
                boot.real_sleep(0.0002)
            self.current = 0
            self.gates[0].release()
            if not self.done_gate.acquire(True, wall):
                raise HarnessError('simulated threads did not finish')
        finally:
            boot.SCHED = None

    def _switch(self, me, target):
        self.switches += 1
        self.current = target
        self.gates[target].release()
        self.gates[me].acquire()

    def step(self):
        me = self.ids.get(threading.get_ident())
        if me is None or me != self.current:
            return
        self.gstep += 1
        while self.pos < len(self.schedule) and self.schedule[self.pos][0] <= self.gstep:
            target = self.schedule[self.pos][1] % len(self.threads)
            self.pos += 1
            if target != me and self.state[target] == 'ready':
                self.trace.append([self.gstep, me, target])
                self._switch(me, target)
                return

    def blocked(self):
        me = self.ids[threading.get_ident()]
        nxt = self._next(me)
        self.spins = getattr(self, 'spins', 0) + 1
        if nxt is None or nxt == me or self.spins > 100000:
            raise SimDeadlock()
        self._switch(me, nxt)


# ------------------------------------------------------------------ context --

def canon(obj):
    return json.dumps(obj, sort_keys=True, default=str, separators=(',', ':'))


def digest(obj):
    return hashlib.sha256(canon(obj).encode()).hexdigest()[:16]


class Ctx:
    """What a run writes: event log, counters, states, violations."""

    def __init__(self, prop, own):
        self.prop = prop
        self.own = own            # categories reported as violations of the property
        self.log = hashlib.sha256()
        self.nlog = 0
        self.tail = []
        self.keep = None          # full log (only for replays)
        self.count = {}
        self.states = set()
        self.violation = None
        self.foreign = None
        self.where = None
        self.armed = True         # else differences are nobody's business (yet)
        self.soft = False         # go on in spite of the differences that belong to other properties
        self.softforeign = None

    def ev(self, *a):
        """Record an event: it must be free of addresses, real time and the like."""
        s = canon(a)
        self.log.update(s.encode())
        self.log.update(b'\n')
        self.nlog += 1
        if self.keep is not None:
            self.keep.append(s)

    def inc(self, key, n=1):
        self.count[key] = self.count.get(key, 0) + n

    def state(self, *a):
        self.states.add(digest(a))

    def flag(self, category, detail):
        """Report a difference between what is observed and what is expected."""
        self.ev('FLAG', category, self.where, detail)
        mine = self.own is None or category in self.own
        if self.soft and not mine:
            if self.softforeign is None:
                self.softforeign = dict(category=category, where=self.where, detail=detail)
            self.inc('foreign:' + category)
            return
        if category == 'observe' and self.softforeign:
            mine = False
        if self.armed and mine:
            self.violation = dict(category=category, where=self.where, detail=detail)
        else:
            self.foreign = dict(category=category, where=self.where, detail=detail)
        raise StopRun(category)

    def expect(self, cond, category, detail):
        if not cond:
            self.flag(category, detail() if callable(detail) else detail)

    def result(self):
        return dict(violation=self.violation, foreign=self.foreign or self.softforeign,
                    digest=self.log.hexdigest()[:24], nlog=self.nlog,
                    count=self.count, states=sorted(self.states))


def rng_for(*parts):
    h = hashlib.sha256(':'.join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def collect():
    gc.collect()
