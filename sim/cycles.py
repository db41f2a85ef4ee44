"""
The world of references: substitution patterns and remappings that refer to each other
in every way, some of them in circles.

Reference model: a recursive evaluation of the graph of references. When no circle can
be reached and every name is known the resolution must succeed, with that very value;
otherwise any answer or error will do, within a bounded number of steps.
"""

import contextlib
import gc
import io
import re
import resource
import signal

import boot
import core
from core import MON, SimBudget, SimInterrupt
from simtypes import HK, UserError

footprints = boot.footprints

BUDGET = 1500000
MAXLEN = 2000000
MAXSUB = 800


def pick(r, seq):
    return seq[r.randrange(len(seq))]


# --------------------------------------------------------------- generation --
#
# nodes: a<i> attributes, e<i> extra values (callback), u<i> extra items of the
# description, d<i> default settings, o<i> attributes or methods of an object

def gen_text(r, targets, objs, n):
    pieces = []
    for _ in range(n):
        if r.random() < 0.5:
            pieces.append(['lit', pick(r, ['x', 'y_', 'z.', '-', 'q'])])
        t = pick(r, targets)
        if t[0] == 'o':
            pieces.append(['obj', t, pick(r, ['a', 'm', 'mg'])])
        else:
            pieces.append(['ref', t, pick(r, ['', '', '', '%!s', '#alt', '%!s:>4'])])
    if r.random() < 0.4:
        pieces.append(['lit', pick(r, ['x', 'y_', '1'])])
    return pieces


def gen(r, tier):
    style = pick(r, ['dag', 'dag', 'dag', 'chain', 'cyclic', 'cyclic', 'ring', 'self', 'late'])
    na = pick(r, [1, 2, 3, 4, 6, 10, 25, 60, 75 if tier == 'quick' else 130])
    if style == 'chain':
        na = pick(r, [5, 20, 51, 60, 80, 100])
    nx = r.randint(0, 5)
    where = dict()
    nodes = ['a{}'.format(i) for i in range(na)]
    kinds = [k for k in 'eudo' if r.random() < 0.6] or ['e']
    for i in range(nx):
        nodes.append(pick(r, kinds) + str(i))
    order = list(nodes)
    r.shuffle(order)
    if style == 'chain':
        order = ['a{}'.format(i) for i in range(na)]
        if r.random() < 0.5:
            order.reverse()
        if r.random() < 0.5:
            for _ in range(r.randint(1, 5)):
                i, j = r.randrange(na), r.randrange(na)
                order[i], order[j] = order[j], order[i]
        order += [x for x in nodes if x[0] != 'a']
    text = {}
    dense = pick(r, [0.2, 0.5, 0.8])
    fan = pick(r, [1, 1, 2, 3])
    for i, n in enumerate(order):
        later = order[i + 1:]
        pieces = [['lit', pick(r, ['v', 'w1', '7', '012', ''])]] if r.random() < 0.9 else []
        if style == 'chain':
            if later:
                pieces = [['ref', later[0], '']] if later[0][0] != 'o' else [['obj', later[0], 'a']]
        elif style in ('dag', 'late'):
            if later and r.random() < dense:
                near = later[:3] if r.random() < .5 else later
                pieces += gen_text(r, near, None, r.randint(1, fan))
        elif style == 'self':
            if r.random() < 0.5:
                pieces += gen_text(r, [n], None, r.randint(1, fan))
        elif style == 'ring':
            pieces += gen_text(r, [order[(i + 1) % len(order)]], None, r.randint(1, fan))
        elif r.random() < dense:
            pieces += gen_text(r, nodes, None, r.randint(1, fan))
        text[n] = pieces
    if style == 'late':
        # one reference backwards, somewhere
        i = r.randrange(len(order))
        j = r.randint(0, i)
        n = order[j]
        text[order[i]] = text[order[i]] + ([['ref', n, '']] if n[0] != 'o' else [['obj', n, pick(r, ['a', 'm'])]])
    attrs = {}
    for n in nodes:
        if n[0] != 'a':
            continue
        a = dict(src=pick(r, ['desc', 'desc', 'desc', 'alias', 'default', 'defaults']), mand=False)
        if a['src'] == 'desc' and r.random() < 0.5:
            a['mand'] = True
        if all(p[0] == 'lit' for p in text[n]) and r.random() < 0.3:
            text[n] = [['lit', pick(r, ['7', '012', '3'])]]
            a['type'] = 'int'
        elif r.random() < 0.3:
            vals = ['v', 'w1', 'vx', 'x', '7', 'k1', 'k2', 'k3']
            if r.random() < 0.4:
                # loops are likely
                vals = ['v', 'k1', 'k2']
            a['remap'] = {pick(r, vals): pick(r, vals) for _ in range(r.randint(1, 5))}
            if r.random() < 0.25:
                a['remap'][pick(r, vals)] = '[' + pick(r, [x for x in nodes if x[0] != 'o']) + ']'
        attrs[n] = a
    for n in nodes:
        where[n] = n[0]
    plan = dict(attrs=attrs, text=text, style=style, extended=r.random() < 0.8 or any(n[0] == 'd' for n in nodes),
                ncls=pick(r, [1, 1, 2]), cfg=dict(salt=0))
    if r.random() < 0.15:
        # an unknown name
        n = pick(r, nodes)
        text[n] = text[n] + [['ref', 'nowhere', pick(r, ['', '#alt'])]]
    keys = [n for n in nodes if n[0] == 'a']
    if r.random() < 0.4:
        plan['fastkeys'] = r.sample(keys, r.randint(0, len(keys))) + ['kind']
    if r.random() < 0.3:
        plan['ownfast'] = r.sample(keys, r.randint(1, len(keys)))
    ops = []
    for _ in range(r.randint(2, 5)):
        k = pick(r, ['load', 'load', 'build', 'find', 'clone', 'reload'])
        op = dict(op=k)
        if r.random() < 0.5:
            kk = list(keys)
            r.shuffle(kk)
            op['order'] = kk[:40]
        if r.random() < 0.25:
            # another text somewhere
            n = pick(r, nodes)
            op['text'] = {n: pick(r, [[['lit', 'v']], text[pick(r, nodes)], [['ref', pick(r, [x for x in nodes if x[0] != 'o']), '']]])}
        if r.random() < 0.15:
            op['fault'] = dict(k='int', frac=round(r.random(), 3))
        elif r.random() < 0.1:
            op['fault'] = dict(k='hook', n=r.randint(1, 4))
        ops.append(op)
    plan['ops'] = ops
    return plan


# -------------------------------------------------------------------- model --

class Circular(Exception):
    """Something that cannot be said: a circle, an unknown name, a lossy value..."""


BRACKETS = re.compile(r'\[(\w+)[^\]]*\]')


class Model:
    """Values of the nodes, by recursion."""

    def __init__(self, attrs, text, known):
        self.attrs = attrs
        self.text = text
        self.known = known         # names that can be reached
        self.memo = {}
        self.busy = set()
        self.tainted = set()       # they depend on a remapping that loops: some value

    def value(self, n):
        """(value, substitutions made on the fly)"""
        if n in self.memo:
            return self.memo[n]
        if n in self.busy:
            raise Circular('circle')
        self.busy.add(n)
        out = ''
        subs = 0
        for p in self.text[n]:
            if p[0] == 'lit':
                out += p[1]
                continue
            subs += 1
            if p[1] not in self.known:
                if p[0] == 'ref' and p[2] == '#alt':
                    out += 'alt'
                    continue
                raise Circular('unknown')
            v, k = self.value(p[1])
            if p[1] in self.tainted:
                self.tainted.add(n)
            if p[1][0] != 'a':
                subs += k
                if p[0] == 'ref' and p[2].startswith('%') and k:
                    raise Circular('format before or after')
            out += '{:>4}'.format(str(v)) if p[0] == 'ref' and p[2] == '%!s:>4' else str(v)
            if len(out) > MAXLEN // 100 or subs > MAXSUB:
                raise Circular('too long')
        if '[' in out:
            raise Circular('substituted again')
        if n in self.attrs:
            a = self.attrs[n]
            seen = []
            while out in a.get('remap', {}):
                seen.append(out)
                out = a['remap'][out]
                if out in seen:
                    self.tainted.add(n)
                    break
            if a.get('type') == 'int':
                if not out.isdigit() or n in self.tainted:
                    raise Circular('type')
                out = int(out)
            if out == 'None':
                raise Circular('null')
        self.busy.discard(n)
        self.memo[n] = (out, subs)
        return out, subs


# -------------------------------------------------------------------- world --

class Holder:
    """Object with attributes and methods that may be referred to."""

    def __init__(self, text):
        self.a = text

    def m(self, guess, extras):
        HK('meth', 'm')
        return self.a

    def mg(self, guess, extras):
        HK('meth', 'mg')
        return str(self.a)


class Stuck(BaseException):
    """The operation did not end."""


class Cycles:

    def __init__(self, plan, ctx):
        self.plan = plan
        self.ctx = ctx

    def raw(self, pieces):
        out = ''
        for p in pieces:
            if p[0] == 'lit':
                out += p[1]
            elif p[0] == 'obj':
                out += '[' + p[1] + ':' + p[2] + ']'
            else:
                out += '[' + p[1] + p[2] + ']'
        return out

    def define(self):
        self.classes = []
        for c in range(self.plan['ncls']):
            attr = {}
            for n, a in self.plan['attrs'].items():
                d = dict(info='attribute ' + n)
                if not a.get('mand'):
                    d['optional'] = True
                    d['default'] = self.raw(self.plan['text'][n])
                if a.get('src') == 'alias':
                    d['alias'] = ['al_' + n]
                if a.get('type') == 'int':
                    d['type'] = int
                if a.get('remap'):
                    d['remap'] = dict(a['remap'])
                attr[n] = d
            fp = dict(info='', attr=attr)
            if self.plan.get('ownfast'):
                fp['fastkeys'] = set(self.plan['ownfast'])
            ns = dict(_footprint=fp, _collector=('cyclic',), _explicit=False, __module__='simcyc.m{}'.format(c))
            self.classes.append(type(footprints.FootprintBase)('Cyc{}'.format(c), (footprints.FootprintBase,), ns))

    def run(self):
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        MON.install()
        self.define()
        self.last = None
        for i, op in enumerate(self.plan['ops']):
            self.ctx.where = [i, op['op']]
            self.do(i, op)
            self.ctx.inc('op:' + op['op'])
        self.ctx.where = ['end', 'end']

    def do(self, i, op):
        ctx = self.ctx
        setup = footprints.setup
        attrs = self.plan['attrs']
        text = dict(self.plan['text'])
        changed = {n: t for n, t in (op.get('text') or {}).items() if n in text}
        text.update(changed)
        if not attrs or self.heavy(text):
            ctx.inc('heavy')
            return
        names = [n for n in (op.get('order') or []) if n in attrs]
        names += [n for n in attrs if n not in names]
        desc, defaults, extras = {}, {}, {}
        for n in names:
            a = attrs[n]
            src = a.get('src', 'desc')
            if n in changed and src == 'default':
                src = 'desc'
            if src == 'desc':
                desc[n] = self.raw(text[n])
            elif src == 'alias':
                desc['al_' + n] = self.raw(text[n])
            elif src == 'defaults':
                defaults[n] = self.raw(text[n])
        holders = []
        for n in text:
            if n[0] == 'e':
                extras[n] = self.raw(text[n])
            elif n[0] == 'u':
                desc[n] = self.raw(text[n])
            elif n[0] == 'd':
                defaults[n] = self.raw(text[n])
            elif n[0] == 'o':
                extras[n] = Holder(self.raw(text[n]))
        known = {n for n in text if (n[0] != 'd' or self.plan.get('extended')) and (n[0] != 'a' or n in attrs)}
        setup.extended = bool(self.plan.get('extended'))
        if 'fastkeys' in self.plan:
            setup.fastkeys = tuple(self.plan['fastkeys'])
        setup.callback = lambda: (HK('callback'), dict(extras))[1]
        for k in list(setup.defaults):
            del setup.defaults[k]
        setup.defaults.update(**defaults)
        model = Model(attrs, text, known)
        want, why = {}, []
        for n in attrs:
            model.busy.clear()
            try:
                want[n] = model.value(n)[0]
            except Circular as e:
                why.append(str(e))
        must = not why
        if model.tainted and must:
            must = not any(BRACKETS.search(x) for a in attrs.values() for x in (a.get('remap') or {}).values())
        k = op['op']
        coll = footprints.collectors.get(tag='cyclic')
        cls = self.classes[0]
        if k == 'build':
            # NB: directly built objects ignore the unknown keys
            func = lambda: cls(**dict(desc))
        elif k == 'find':
            func = lambda: coll.find_all(dict(desc))
        elif k == 'clone':
            if self.last is None:
                return
            new = {n: desc[n] for n in list(desc)[:3] if n in attrs}
            func = lambda: self.last.footprint_clone(extra=new, full=False)
        else:
            func = lambda: coll.load(**dict(desc))
        exc, value = self.call(func, op.get('fault'))
        if exc in ('SimInterrupt', 'UserError'):
            if exc == 'UserError' and not HK.fired:
                ctx.flag('cycle', dict(what='spurious error', exc=exc))
            ctx.ev(i, k, 'cut')
            # again, undisturbed
            exc, value = self.call(func, None)
        ctx.ev(i, k, exc, why)
        ctx.state([self.plan.get('style'), len(attrs), k, exc, sorted(set(why)),
                   sorted((a.get('src'), bool(a.get('remap'))) for a in attrs.values())])
        ctx.inc('expected:' + ('success' if must else 'anything'))
        ctx.inc('outcome:' + (exc or ('none' if value is None else 'ok')))
        if exc is not None:
            if k != 'clone':
                ctx.expect(not must, 'cycle', lambda: dict(what='refused without any circle', exc=exc, op=k))
            return
        if k == 'find':
            if must:
                ctx.expect(len(value) == len(self.classes), 'cycle', lambda: dict(what='not found', n=len(value)))
            return
        if k == 'clone':
            if value is not None:
                self.sizes(value)
            return
        if must:
            ctx.expect(value is not None, 'cycle', 'not loaded')
            want = {n: v for n, v in want.items() if n not in model.tainted}
            got = {n: getattr(value, n) for n in want}
            ctx.expect(got == want, 'cycle', lambda: dict(
                what='values', diff={n: [got[n], want[n]] for n in want if got[n] != want[n]}))
        if value is not None:
            self.last = value
            self.sizes(value)

    def heavy(self, text):
        """Without any circle, values may still get (exponentially) long: no interest."""
        memo = {}

        def weight(n, busy):
            if n in memo:
                return memo[n]
            if n in busy or n not in text:
                return 1
            memo[n] = sum(len(p[1]) if p[0] == 'lit' else 4 + weight(p[1], busy | {n}) for p in text[n])
            return memo[n]
        return any(weight(n, frozenset()) > 20000 for n in text)

    def sizes(self, obj):
        for n in self.plan['attrs']:
            v = getattr(obj, n)
            self.ctx.expect(not isinstance(v, str) or len(v) < MAXLEN, 'hang', lambda: dict(what='grows', attr=n, len=len(v)))

    def steps(self, func):
        from registry import fork_json

        def probe():
            MON.begin(BUDGET)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    func()
            except BaseException:
                pass
            return MON.end()
        return fork_json(probe)

    def call(self, func, fault):
        ctx = self.ctx
        n = self.steps(func) if fault and fault['k'] == 'int' else None
        HK.calls = {}
        HK.fired = []
        HK.faults = []
        HK.enabled = True

        def late(signum, frame):
            raise Stuck()
        signal.signal(signal.SIGVTALRM, late)
        signal.setitimer(signal.ITIMER_VIRTUAL, 5)
        MON.begin(BUDGET)
        if n:
            def act():
                HK.fired.append('int')
                raise SimInterrupt()
            MON.actions[1 + int(fault['frac'] * n)] = act
        elif fault and fault['k'] == 'hook':
            HK.faults = [['meth', fault['n'], UserError], ['callback', fault['n'], UserError]]
        exc = value = None
        stop = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                value = func()
        except SimBudget:
            stop = 'budget'
        except MemoryError:
            stop = 'out of memory'
        except Stuck:
            stop = 'endless'
        except SimInterrupt:
            exc = 'SimInterrupt'
            ctx.inc('fault:int')
        except Exception as e:
            exc = type(e).__name__
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            HK.enabled = False
            ctx.inc('steps', MON.end())
        if HK.fired and exc == 'UserError':
            ctx.inc('fault:hook')
        if stop:
            value = None
            gc.collect()
            # which of the three comes first may depend on the machine
            ctx.flag('hang', 'endless: more than {} steps, 5 s or 3 GB'.format(BUDGET))
        return exc, value
