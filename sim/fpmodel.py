"""
Reference model: a small executable restatement of what footprints promise.

It is written from the documentation and observable behaviour, with plain data
structures, no caching, no index, no shared state and no dependency on hashes.
"""

import copy
import re

from bronx.syntax import dictmerge

import boot
from simtypes import KRoot, Src, TYPES, SimBase

UNKNOWN = boot.footprints.UNKNOWN


class MErr(Exception):
    """The operation is expected to fail."""

    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


class MFail(MErr):
    """A class for which the operation is expected to fail."""


class MFoot:
    """A merged footprint."""

    def __init__(self, parts):
        fp = dict(attr={}, bind=[], info='Not documented', only={},
                  priority={'level': 'DEFAULT'})
        for p in parts:
            if isinstance(p, MFoot):
                if not (p.fp['attr'] or p.fp['only']):
                    continue
                d = p.fp
            else:
                if not p:
                    continue
                d = dict(p)
                for k in ('attr', 'only'):
                    if k in d and isinstance(d[k], (list, tuple)):
                        new = {}
                        for item in d[k]:
                            new.update(item)
                        d[k] = new
            dictmerge(fp, copy.deepcopy(d))
        for a, ad in fp['attr'].items():
            ad.setdefault('default', None)
            ad.setdefault('optional', False)
            ad.setdefault('access', 'rxx')
            ad.setdefault('doc_visibility', 50)
            ad.setdefault('doc_zorder', 0)
            ad['alias'] = set(ad.get('alias', ()))
            ad['remap'] = dict(ad.get('remap', {}))
            auto = ad['remap'].pop('autoremap', None)
            if auto == 'first':
                vals = ad['values']
                if isinstance(vals, set):
                    raise MErr('TypeError')
                for x in vals[1:]:
                    ad['remap'][x] = vals[0]
            t = ad.get('type', str)
            for kind in ('values', 'outcast'):
                out = set()
                for v in ad.get(kind, ()):
                    if not isinstance(v, t):
                        try:
                            v = t(v, **ad.get('args', {}))
                        except Exception as e:
                            raise MErr(type(e).__name__)
                    out.add(v)
                ad[kind] = out
        self.fp = fp

    @property
    def attr(self):
        return self.fp['attr']

    @property
    def only(self):
        return self.fp['only']

    def mandatory(self):
        return {k for k, d in self.attr.items() if not d['optional']}

    def allkeys(self):
        out = set(self.attr)
        for d in self.attr.values():
            out |= d['alias']
        return out


class MClass:
    """A class as the model knows it."""

    def __init__(self, sid, spec, foot, tags, reusable, explicit, methods, py):
        self.sid = sid
        self.spec = spec
        self.name = spec['name']
        self.module = spec['mod']
        self.fullname = self.module + '.' + self.name
        self.abstract = bool(spec.get('abstract', False))
        self.foot = foot
        self.tags = tags
        self.reusable = reusable
        self.explicit = explicit
        self.methods = methods
        self.py = py
        self.note = None         # value of a plain attribute of the class
        self.started = None      # value given to this attribute for each new object
        self.boards = set()      # tags of the collectors notified of new objects

    @property
    def level(self):
        return self.foot.fp['priority']['level']


class MObj:
    """An object as the model knows it."""

    def __init__(self, cls, attrs, simid=None):
        self.cls = cls
        self.attrs = attrs
        self.simid = simid
        self.user = {}
        self.boards = frozenset(getattr(cls, 'boards', ()))     # who was told about it

    def read(self, k):
        v = self.attrs[k]
        return None if v is UNKNOWN else v

    def shallow(self):
        return {k: self.read(k) for k in self.attrs}

    def getattr(self, name):
        """What ``getattr(obj, name, None)`` stands for in substitutions."""
        if name in self.cls.foot.attr:
            if name not in self.attrs:
                return None
            return self.read(name)
        if name in self.cls.methods:
            return ('method', self.cls.methods[name])
        if name in self.user:
            return self.user[name]
        if name == 'note':
            return self.cls.note
        if name == 'realkind':
            return 'footprintbase'
        return None


class MWeak:
    """A weak reference to a target."""

    def __init__(self, tgt):
        self.uid = tgt.uid if isinstance(tgt, MWeak) else tgt.uid

    @property
    def label(self):
        return 'lab{:d}'.format(self.uid)

    def __str__(self):
        return 'tgt{:d}'.format(self.uid)

    def __eq__(self, other):
        return getattr(other, 'uid', None) == self.uid

    def __hash__(self):
        return hash(self.uid)


REPL = re.compile(r'\[(\w+)(?::+([:\w]+))?(?:#(\w+))?(?:%([^\]]+))?\]')


class Wait(Exception):
    """The substitution refers to something that is not known yet."""


class MSetup:
    """Settings."""

    def __init__(self):
        self.defaults = {}
        self.extended = True
        self.fastmode = False
        self.fastkeys = ('kind',)
        self.callback = None      # dict of the values given by the callback
        self.fatal = True


class Diag(list):
    """What a report should say for one class: list of (kind, name, why/only, args)."""


class Resolution:
    def __init__(self, guess, inputs, diag):
        self.guess = guess
        self.inputs = inputs
        self.diag = diag

    @property
    def ok(self):
        return not any(v is None for v in self.guess.values())


def is_type(v, t):
    if isinstance(v, MObj):
        return t is SimBase or t is object
    if isinstance(v, MWeak):
        return t is TYPES['Tgt']
    return isinstance(v, t)


def call_method(kind, name, guess):
    if kind == 'const':
        return 'mc-' + name
    if kind == 'num':
        return 7
    if kind == 'zero':
        return 0
    if kind == 'empty':
        return ''
    if kind == 'none':
        return None
    if kind == 'kind':
        return 'k_' + to_str(guess.get('model', 'nomodel'))
    raise ValueError('always failing')


def to_str(v):
    return str(v)


def fmt(value, f):
    if not f:
        return to_str(value)
    spec = '{0' + f + '}' if (':' in f or '!' in f) else '{0:' + f + '}'
    m = re.match(r'\{0\.(\w+)', spec)
    if m:
        x = getattr(value, m.group(1))
        x = x() if callable(x) else x
        return ('{0' + spec[m.end():]).format(x)
    return spec.format(value)


def follow(value, path, guess, extras, requeue):
    """Value of ``[name:path]``: None when it leads nowhere."""
    cur = value
    for p in re.split(':+', path):
        if isinstance(cur, MObj):
            nxt = cur.getattr(p)
            if nxt is None:
                return None
            if isinstance(nxt, tuple) and len(nxt) == 2 and nxt[0] == 'method':
                try:
                    cur = call_method(nxt[1], p, guess)
                except Exception as e:
                    if requeue:
                        raise Wait()
                    raise MErr(type(e).__name__)
                if cur is None:
                    return None
                continue
            cur = nxt
            continue
        nxt = getattr(cur, p, None)
        if nxt is None:
            return None
        if callable(nxt):
            import types
            try:
                if isinstance(nxt, types.BuiltinFunctionType):
                    cur = nxt()
                else:
                    cur = nxt(guess, extras)
            except Exception as e:
                if requeue and not isinstance(nxt, types.BuiltinFunctionType):
                    raise Wait()
                raise MErr(type(e).__name__)
            if cur is None:
                return None
        else:
            cur = nxt
    return cur


def substitute(text, guess, extras, pending):
    """All the substitutions in **text** (None if one leads nowhere)."""
    n = 0
    while isinstance(text, str):
        m = REPL.search(text)
        if not m:
            break
        n += 1
        if n > 1000:
            raise MErr('FootprintMaxIter')
        name, path, alt, f = m.groups()
        if name in guess:
            if name in pending:
                raise Wait()
            src, requeue = guess[name], False
        elif name in extras:
            src, requeue = extras[name], True
        elif alt:
            text = text[:m.start()] + alt + text[m.end():]
            continue
        else:
            raise MErr('FootprintUnreachableAttr')
        if path:
            src = follow(src, path, guess, extras, requeue)
            if src is None:
                return None
        try:
            rep = fmt(src, f)
        except Exception as e:
            raise MErr(type(e).__name__)
        text = text[:m.start()] + rep + text[m.end():]
    return text


def resolve(foot, desc, setup, fatal=False, extras0=None, fastmode=None):
    """Resolve **desc** against **foot**."""
    fastmode = setup.fastmode if fastmode is None else fastmode
    guess, inputs = {}, set()
    for k, d in foot.attr.items():
        found = False
        for name in [k] + sorted(d['alias']):
            if name in desc and not (d['optional'] and desc[name] is None):
                guess[k] = desc[name]
                inputs.add(k)
                found = True
                break
        if found:
            continue
        if k.lower() in setup.defaults:
            guess[k] = setup.defaults[k.lower()]
            inputs.add(k)
        elif not d['optional']:
            guess[k] = None
        elif d['default'] is None:
            guess[k] = UNKNOWN
        elif isinstance(d['default'], Src):
            guess[k] = d['default']._v
        else:
            guess[k] = d['default']
    extras = dict((setup.callback or {}) if extras0 is None else extras0)
    for v in desc.values():
        if isinstance(v, MObj):
            extras.update(v.shallow())
    more = dict(desc)
    for k in more:
        if k not in extras and k not in guess:
            extras[k] = more[k]
    if setup.extended:
        for k in setup.defaults:
            if k not in extras and k not in guess:
                extras[k] = setup.defaults[k]
    diag = Diag()
    diagnosed = set()
    if any(v is None for v in guess.values()):
        queue = []
    else:
        fast = set(foot.fp.get('fastkeys', ())) | set(setup.fastkeys)
        queue = sorted(foot.attr, key=lambda k: (not foot.attr[k]['optional'], k in fast, k),
                       reverse=True)
    stuck, done = 0, set()
    while queue:
        k = queue.pop(0)
        d = foot.attr[k]
        try:
            new = substitute(guess[k], guess, extras, set(queue))
        except Wait:
            queue.append(k)
            stuck += 1
            if stuck > len(queue) + 1:
                raise MErr('FootprintMaxIter')
            continue
        stuck = 0
        guess[k] = new
        if new is None:
            continue
        done.add(k)
        seen = []
        while True:
            v = guess[k]
            try:
                hash(v)
            except TypeError:
                break
            if v in d['remap'] and v not in seen:
                seen.append(v)
                guess[k] = d['remap'][v]
            else:
                break
        if guess[k] is not UNKNOWN:
            t = d.get('type', str)
            if d.get('isclass', False):
                if not isinstance(guess[k], type) or not issubclass(guess[k], t):
                    diag.append((k, 'why', 'Not a subclass', t.__name__))
                    diagnosed.add(k)
                    guess[k] = None
            elif not is_type(guess[k], t):
                v = guess[k]
                try:
                    if t is SimBase:
                        raise TypeError('abstract')
                    guess[k] = t(v, **d.get('args', {}))
                except (ValueError, TypeError, re.error):
                    diag.append((k, 'why', 'Could not reclass', (t.__name__, to_str(v))))
                    diagnosed.add(k)
                    guess[k] = None
                except Exception as e:
                    raise MErr(type(e).__name__)
            v = guess[k]
            if v is not None and d['values'] and not any(x == v for x in d['values']):
                diag.append((k, 'why', 'Not in values', v))
                diagnosed.add(k)
                guess[k] = None
            v = guess[k]
            if v is not None and d['outcast'] and any(x == v for x in d['outcast']):
                diag.append((k, 'why', 'Outcast value', v))
                diagnosed.add(k)
                guess[k] = None
        if guess[k] is None and (fastmode or k in fast):
            break
    for k, d in foot.attr.items():
        if isinstance(guess[k], str) and guess[k] == 'None':
            guess[k] = None
            if k not in diagnosed:
                diag.append((k, 'why', 'Invalid value', None))
                diagnosed.add(k)
        if guess[k] is None:
            inputs.discard(k)
            if k not in diagnosed:
                diag.append((k, 'why', 'Missing value', None))
            if fatal:
                raise MErr('FootprintFatalError')
        elif 'weak' in d['access'] and k in done and guess[k] is not UNKNOWN:
            if not hasattr(guess[k], 'uid'):
                raise MErr('TypeError')
            guess[k] = MWeak(guess[k])
    return Resolution(guess, inputs, diag)


def check_only(foot, guess, setup):
    """None if all the restrictions hold, else the diagnostic."""
    for k, choices in foot.only.items():
        if isinstance(choices, str) or not hasattr(choices, '__iter__'):
            choices = (choices,)
        name, mode = k, None
        for pre in ('after', 'before'):
            if k.startswith(pre + '_'):
                mode, name = pre, k[len(pre) + 1:]
        v = guess[name] if name in guess else setup.defaults.get(name)
        if v is None or (mode and v is UNKNOWN):
            return (name, 'only', 'No value found', k)
        ok = False
        for c in choices:
            try:
                if mode == 'after':
                    ok = ok or bool(v >= c)
                elif mode == 'before':
                    ok = ok or bool(v < c)
                elif hasattr(c, 'match'):
                    ok = ok or bool(c.match(v))
                else:
                    ok = ok or v == c
            except Exception as e:
                raise MErr(type(e).__name__)
        if not ok:
            return (name, 'only', 'Do not match', choices)
    return None


def couldbe(cls, desc, setup, extras0=None):
    """(resolved values or None, number of inputs, diagnostics)."""
    r = resolve(cls.foot, desc, setup, fatal=False, extras0=extras0)
    if r.ok and r.guess:
        only = check_only(cls.foot, r.guess, setup)
        if only is None:
            return r.guess, len(r.inputs), r.diag
        r.diag.append(only)
    return None, len(r.inputs), r.diag


def track(foot, keys):
    """Keys of a description that belong to a footprint."""
    names = foot.allkeys()
    return [k for k in keys if k in names]
