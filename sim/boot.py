"""
Seams of the simulator.

This module must be imported before ``footprints``. It puts under the control of
the simulator every source of nondeterminism the package can meet:

* the clock (``datetime.datetime.now``, ``time.time`` & co),
* the file system seen by ``glob`` below the virtual directory ``/simfs``,
* thread scheduling (locks created by later imported modules know the scheduler;
  preemption itself is decided in ``core``),
* the garbage collector (automatic collections are off, collections are events),
* identity based hashes (see ``simbase``); string hashes are fixed by the
  PYTHONHASHSEED of the interpreter, which is part of the replay file.

The package is imported from the working tree of the repository (VERIF_REPO,
by default /repo), without writing any bytecode there.
"""

import gc
import logging
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = os.path.join(SRC, 'footprints') + os.sep

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/verif-pycache'
for _p in (SRC,):
    if _p in sys.path:
        sys.path.remove(_p)
    sys.path.insert(0, _p)
for _k in ('FOOTPRINT_DOCSTRINGS', 'FOOTPRINT_SHORTNAMES'):
    os.environ.pop(_k, None)

gc.disable()
logging.raiseExceptions = False

# ---------------------------------------------------------------- clock ----

import datetime as _dtmod
import time as _timemod

_real_datetime = _dtmod.datetime
EPOCH = _real_datetime(2026, 1, 1)


class Clock:
    """The simulated clock. Reading it may consume scheduled behaviours."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.us = 0          # current simulated time (microseconds after EPOCH)
        self.tick = 1000     # advance at each reading
        self.script = []     # explicit next advances (may be 0 or negative)
        self.reads = 0
        self.covered = 0     # total simulated time covered (forward moves only)

    def read(self):
        adv = self.script.pop(0) if self.script else self.tick
        self.us += adv
        if adv > 0:
            self.covered += adv
        self.reads += 1
        return EPOCH + _dtmod.timedelta(microseconds=self.us)


CLOCK = Clock()


class _DTMeta(type(_real_datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)


class SimDatetime(_real_datetime, metaclass=_DTMeta):
    """A datetime class whose current time is the simulated one."""

    @classmethod
    def now(cls, tz=None):
        r = CLOCK.read()
        return r if tz is None else r.replace(tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return CLOCK.read()

    @classmethod
    def today(cls):
        return CLOCK.read()


real_time = _timemod.time
real_monotonic = _timemod.monotonic
real_sleep = _timemod.sleep


def _sim_time():
    return (CLOCK.read() - _real_datetime(1970, 1, 1)).total_seconds()


# ----------------------------------------------------------- file system ----

SIMROOT = '/simfs'


class SimFS:
    """
    In-memory directories below /simfs, seen through os.scandir/listdir/stat.

    Each listing is an event: an optional hook is called before and after it
    (concurrent changes), listings may fail, and their order is decided by the plan.
    """

    def __init__(self):
        self.reset()

    def reset(self):
        self.active = False
        self.cwd = SIMROOT
        self.tree = {SIMROOT: set()}       # directory -> names
        self.kinds = {SIMROOT: 'd'}        # path -> 'f' | 'd'
        self.hook = None                   # called as hook(event, path)

    def mk(self, path, kind='f'):
        path = self.norm(path)
        par, name = path.rsplit('/', 1)
        if par not in self.tree:
            self.mk(par, 'd')
        self.tree[par].add(name)
        self.kinds[path] = kind
        if kind == 'd':
            self.tree.setdefault(path, set())

    def rm(self, path):
        path = self.norm(path)
        if path not in self.kinds or path == SIMROOT:
            return
        for sub in list(self.kinds):
            if sub.startswith(path + '/'):
                self.kinds.pop(sub, None)
                self.tree.pop(sub, None)
        self.kinds.pop(path, None)
        self.tree.pop(path, None)
        par, name = path.rsplit('/', 1)
        if par in self.tree:
            self.tree[par].discard(name)

    def norm(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        if not path.startswith('/'):
            path = self.cwd + '/' + path
        return os.path.normpath(path)

    def mine(self, path):
        """Is **path** a simulated path? While active, every relative path is."""
        if not self.active:
            return False
        if isinstance(path, int):
            return False
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = path.decode('utf8', 'replace')
        return not path.startswith('/') or path == SIMROOT or path.startswith(SIMROOT + '/')

    def listing(self, path):
        p = self.norm(path)
        names = None
        if self.hook is not None:
            names = self.hook('list', p)
        if names is None:
            if p not in self.kinds:
                raise FileNotFoundError(2, 'No such file or directory', str(path))
            if self.kinds[p] != 'd':
                raise NotADirectoryError(20, 'Not a directory', str(path))
            names = sorted(self.tree[p])
        fail = None
        if isinstance(names, tuple):
            names, fail = names         # an error after that many entries
        out = [(n, self.kinds.get(p + '/' + n, 'f')) for n in names]
        return out, fail

    def stat(self, path):
        p = self.norm(path)
        if self.hook is not None:
            self.hook('stat', p)
        if p not in self.kinds:
            raise FileNotFoundError(2, 'No such file or directory', str(path))
        mode = 0o040755 if self.kinds[p] == 'd' else 0o100644
        return os.stat_result((mode, 1, 1, 1, 0, 0, 0, 0, 0, 0))


FS = SimFS()


class SimDirEntry:
    def __init__(self, fs, base, name, kind):
        self.name = name
        self._base = base
        self._kind = kind
        self._fs = fs

    @property
    def path(self):
        return os.path.join(self._base, self.name)

    def is_dir(self, follow_symlinks=True):
        return self._kind == 'd'

    def is_file(self, follow_symlinks=True):
        return self._kind == 'f'

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return self._fs.stat(self.path)

    def __fspath__(self):
        return self.path


class _SimScan:
    def __init__(self, entries, fail):
        self._it = iter(entries)
        self._left = fail

    def __iter__(self):
        return self

    def __next__(self):
        if self._left is not None:
            if self._left <= 0:
                raise OSError(5, 'Input/output error')
            self._left -= 1
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


_real_scandir = os.scandir
_real_listdir = os.listdir
_real_stat = os.stat
_real_lstat = os.lstat
_real_getcwd = os.getcwd


def _scandir(path='.'):
    if FS.mine(path):
        names, fail = FS.listing(path)
        return _SimScan([SimDirEntry(FS, path, n, k) for n, k in names], fail)
    return _real_scandir(path)


def _listdir(path='.'):
    if FS.mine(path):
        names, fail = FS.listing(path)
        if fail is not None:
            raise OSError(5, 'Input/output error')
        return [n for n, _ in names]
    return _real_listdir(path)


def _stat(path, *a, **kw):
    if FS.mine(path):
        return FS.stat(path)
    return _real_stat(path, *a, **kw)


def _lstat(path, *a, **kw):
    if FS.mine(path):
        return FS.stat(path)
    return _real_lstat(path, *a, **kw)


def _getcwd():
    return FS.cwd if FS.active else _real_getcwd()


# --------------------------------------------------------------- threads ----

import _thread
import threading

SCHED = None      # current scheduler (see core), if any
_raw_lock = _thread.allocate_lock
_real_RLock = threading.RLock


class SimLock:
    """A lock that lets the simulated scheduler run someone else when it is taken."""

    def __init__(self):
        self._l = _raw_lock()

    def acquire(self, blocking=True, timeout=-1):
        sched = SCHED
        if sched is None or not sched.is_mine():
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking or timeout == 0:
                return False
            sched.blocked()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != threading.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def _install():
    # Third party modules are imported first: they keep the real seams, only the
    # code under test (and what it calls at run time) sees the simulated ones.
    import glob, copy, pickle, re, string, weakref  # noqa: F401
    import xml.dom.minidom  # noqa: F401
    import bronx.fancies.dump  # noqa: F401
    import bronx.fancies.loggers  # noqa: F401
    import bronx.patterns.getbytag  # noqa: F401
    import bronx.patterns.observer  # noqa: F401
    import bronx.stdtypes.catalog  # noqa: F401
    import bronx.stdtypes.date  # noqa: F401
    import bronx.stdtypes.dictionaries  # noqa: F401
    import bronx.syntax.decorators  # noqa: F401
    import concurrent.futures  # noqa: F401
    import queue  # noqa: F401
    _dtmod.datetime = SimDatetime
    _timemod.time = _sim_time
    _timemod.sleep = lambda s: setattr(CLOCK, 'us', CLOCK.us + int(s * 1e6))
    os.scandir = _scandir
    os.listdir = _listdir
    os.stat = _stat
    os.lstat = _lstat
    os.getcwd = _getcwd
    threading.Lock = SimLock
    threading.RLock = SimRLock
    import footprints  # noqa: F401
    logging.disable(logging.CRITICAL)
    return footprints


footprints = _install()
BRONX = os.path.dirname(sys.modules['bronx'].__file__) + os.sep

if not os.path.abspath(footprints.__file__).startswith(os.path.abspath(PKG)):
    raise RuntimeError('footprints was imported from ' + footprints.__file__)
