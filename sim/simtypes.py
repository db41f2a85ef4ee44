"""
User code of the simulated worlds: value types, hooks, base classes.

Everything here stands for what an application built upon footprints provides. Each
call made by the package into it goes through ``HK`` and may fail as planned.
"""

import sys
import types
import weakref
import zlib

import boot
from core import UserError, UserAbort

footprints = boot.footprints
from footprints.stdtypes import FPDict, FPList, FPRegex, FPSet, FPStr, FPTuple  # noqa: E402


class Hooks:
    """Entry point of all the calls from the package to user code."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.enabled = False
        self.calls = {}
        self.faults = []      # [kind, nth, exception class or callable]
        self.fired = []
        self.listener = None

    def __call__(self, kind, name=None):
        if not self.enabled:
            return
        n = self.calls[kind] = self.calls.get(kind, 0) + 1
        for f in self.faults:
            if f[0] == kind and f[1] == n:
                self.fired.append(kind)
                act = f[2]
                if isinstance(act, type) and issubclass(act, BaseException):
                    raise act('planned failure in ' + kind)
                act()
        if self.listener is not None:
            self.listener(kind, name)


HK = Hooks()

EXC = dict(UserError=UserError, UserAbort=UserAbort, RuntimeError=RuntimeError,
           KeyError=KeyError, MemoryError=MemoryError, OSError=OSError)


class Tok:
    """A value type that normalises and validates, compared by value."""

    def __init__(self, v, base=''):
        HK('cast', 'Tok')
        if isinstance(v, Tok):
            v = v.v
        if isinstance(v, (list, dict, set, tuple)):
            raise TypeError('no way')
        v = str(v).lower()
        if v.startswith('bad'):
            raise ValueError('bad token: ' + v)
        self.v = base + v

    def __eq__(self, other):
        return isinstance(other, Tok) and other.v == self.v

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return zlib.crc32(self.v.encode())

    def __lt__(self, other):
        return self.v < other.v

    def __le__(self, other):
        return self.v <= other.v

    def __gt__(self, other):
        return self.v > other.v

    def __ge__(self, other):
        return self.v >= other.v

    def __str__(self):
        HK('repr', 'Tok')
        return 'T' + self.v

    __repr__ = __str__

    @property
    def tail(self):
        return self.v[-1:]


class TokB(Tok):
    """A more specific token, that knows how to be exported."""

    def export_dict(self):
        HK('export', 'TokB')
        return dict(tok=self.v)


class Src:
    """A default value computed on demand (``footprint_value`` protocol)."""

    def __init__(self, v):
        self._v = v

    def footprint_value(self):
        HK('fv', 'Src')
        return self._v

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'Src({!r})'.format(self._v)


class Tgt:
    """Something to be held weakly."""

    def __init__(self, uid):
        if not isinstance(uid, int):
            raise ValueError('not a target')
        self.uid = uid

    @property
    def label(self):
        return 'lab{:d}'.format(self.uid)

    def __str__(self):
        return 'tgt{:d}'.format(self.uid)

    def __hash__(self):
        return 7919 * (self.uid + 1)

    def __eq__(self, other):
        return self is other or getattr(other, 'uid', None) == self.uid


class KRoot:
    """Root of the classes that are used as values (``isclass`` attributes)."""


class KA(KRoot):
    pass


class KB(KA):
    pass


class KOther:
    pass


KCLASSES = dict(KRoot=KRoot, KA=KA, KB=KB, KOther=KOther)


# Salt of identity hashes: it decides the iteration order of sets of classes/objects
class Salt:
    value = 0


def _mix(n):
    n = (n * 2654435761 + Salt.value * 40503 + 12345) & 0xffffffff
    n ^= n >> 15
    n = (n * 2246822519) & 0xffffffff
    return n ^ (n >> 13)


class SimMeta(footprints.FootprintBaseMeta):
    """Metaclass of the simulated worlds: hashes do not depend on addresses."""

    def __hash__(cls):
        return _mix(zlib.crc32((cls.__module__ + '.' + cls.__name__).encode()))


class Live:
    """Every object of the simulated classes, alive or not."""
    n = 0
    refs = {}

    @classmethod
    def reset(cls):
        cls.n = 0
        cls.refs = {}

    @classmethod
    def alive(cls):
        return {k for k, r in cls.refs.items() if r() is not None}


class SimBase(footprints.FootprintBase, metaclass=SimMeta):
    """Base class of all the footprint classes of the simulated worlds."""

    __module__ = 'simcls'
    __slots__ = ('_simid',)
    _abstract = True
    started = None

    def __new__(cls, *a, **kw):
        self = super().__new__(cls)
        Live.n += 1
        self._simid = Live.n
        Live.refs[Live.n] = weakref.ref(self)
        return self

    def __hash__(self):
        return _mix(self._simid * 31 + 7)

    def __init__(self, *a, **kw):
        HK('init', 'pre')
        super().__init__(*a, **kw)
        if self.started is not None:
            # plain attribute that any new object has
            self.note = self.started
        HK('init', 'post')

    def footprint_riseup(self):
        HK('riseup', 'pre')
        super().footprint_riseup()
        HK('riseup', 'post')


def coll_hash(self):
    return _mix(zlib.crc32(self.tag.encode()))


footprints.collectors.Collector.__hash__ = coll_hash

MODULES = ('simcls', 'simcls_ext', 'simpkg', 'simpkg.alpha', 'simpkg.alphabet', 'simpkg.beta')
for _m in MODULES:
    sys.modules[_m] = types.ModuleType(_m)
sys.modules['simcls'].SimBase = SimBase

TYPES = dict(str=str, int=int, float=float, bool=bool, FPRegex=FPRegex, Tok=Tok, TokB=TokB, FPList=FPList, FPSet=FPSet,
             FPTuple=FPTuple, FPDict=FPDict, FPStr=FPStr, Foot=SimBase, Tgt=Tgt, KRoot=KRoot, KA=KA)
TYPENAMES = {v: k for k, v in TYPES.items()}


def method(kind, name):
    """Methods that substitutions may call on objects ([obj:name]), or that export an attribute."""
    if kind == 'const':
        def m(self, guess, extras):
            HK('meth', name)
            return 'mc-' + name
    elif kind == 'num':
        def m(self, guess, extras):
            HK('meth', name)
            return 7
    elif kind in ('zero', 'empty'):
        def m(self, guess, extras, value=0 if kind == 'zero' else ''):
            HK('meth', name)
            return value
    elif kind == 'none':
        def m(self, guess, extras):
            HK('meth', name)
            return None
    elif kind == 'kind':
        def m(self, guess, extras):
            HK('meth', name)
            return 'k_' + str(guess.get('model', 'nomodel'))
    elif kind == 'raise':
        def m(self, guess, extras):
            HK('meth', name)
            raise ValueError('always failing')
    elif kind == 'export':
        def m(self):
            HK('export', name)
            return ['exported', name]
    else:
        raise KeyError(kind)
    m.__name__ = name
    m.sim_kind = kind
    return m
