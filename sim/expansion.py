"""
The expansion world: descriptions are expanded against a simulated file system that
changes, fails or reorders its listings while it is being searched.

Reference model: a depth first search over the first expandable key, files being
looked for in two frozen file systems: *must* (what was there and readable from the
beginning to the end of the call) and *may* (what was there at some time). When both
are the same the answer is exact; otherwise it lies between the two.
"""

import re

import boot
import core
from core import MON, SimBudget, SimInterrupt
from footprints import stdtypes, util

FS = boot.FS
CAP = 400
BUDGET = 3000000

FP = dict(FPList=stdtypes.FPList, FPTuple=stdtypes.FPTuple, FPSet=stdtypes.FPSet,
          FPDict=stdtypes.FPDict, FPStr=stdtypes.FPStr)
CONT = dict(list=list, tuple=tuple, set=set)
REF = re.compile(r'\[glob:(\w+)\]')


def pick(r, seq):
    return seq[r.randrange(len(seq))]


# --------------------------------------------------------------- generation --

TOKENS = ['ab', 'cd', 'x1', '01', '10', '2', 'run', 'a', 'b', 'fc', '7', 'AB', '002']
SEPS = ['_', '_', '.', '.', '-', '+', '(', '$', '^', '|', ' ', '#']
KEYS = ['test', 'niv2', 'niv3', 'fname', 'id', 'n', 'date', 'geo', 'k8']
NAMES = ['i', 'n', 'name', 'x_1', 'j']
PREC = dict(d=[r'\d+', r'\d{2}', r'\d\d?', r'[0-9]+', r'.+'], a=[r'[a-z]+', r'\w+', r'.+', r'(?:ab|cd)', r'[a-z]{2}', r'(\w)\w*'])


def gen_name(r, odd):
    out = ''
    for i in range(r.randint(1, 4)):
        if i:
            out += pick(r, SEPS) if odd else pick(r, SEPS[:4])
        out += pick(r, TOKENS)
    return out


def split_tokens(path):
    return [x for x in re.split(r'([A-Za-z]+|[0-9]+)', path) if x]


def gen_pattern(r, path, names, want_glob=True):
    """A pattern made from an existing path, some of its parts being generalised."""
    pieces = []
    if path.startswith('/simfs/'):
        pieces.append(['lit', '/simfs/'])
        path = path[7:]
    toks = split_tokens(path)
    idx = [i for i, t in enumerate(toks) if t.isalnum()]
    r.shuffle(idx)
    nglob = min(len(idx), len(names), r.randint(1 if want_glob else 0, 3))
    globs = idx[:nglob]
    wild = [i for i in idx[nglob:] if r.random() < 0.35]
    used = []
    for i, t in enumerate(toks):
        if i in globs:
            name = [x for x in names if x not in used][0]
            used.append(name)
            rx = pick(r, PREC['d' if t.isdigit() else 'a'])
            if r.random() < 0.1:
                rx = pick(r, [r'\d+', r'\w+', r'[a-z]+', r'.*'])
            pieces.append(['glob', name, rx])
        elif i in wild:
            if r.random() < 0.5:
                pieces.append(['star'])
            else:
                pieces += [['any']] * len(t)
        else:
            pieces.append(['lit', t])
    return pieces, used


def gen_scalar(r):
    return pick(r, [dict(t='int', v=r.randint(0, 4)), dict(t='str', v=pick(r, TOKENS)), dict(t='str', v=pick(r, TOKENS)),
                    dict(t='none'), dict(t='bool', v=True), dict(t='str', v=''), dict(t='str', v='range(a)'),
                    dict(t='float', v=1.5)])


def gen_value(r, ctx, depth=0):
    """Spec of a value."""
    x = r.random()
    if depth < 3 and x < 0.22:
        t = pick(r, ['list', 'list', 'tuple'] + (['set'] if ctx['sets'] else []))
        items = [gen_value(r, ctx, depth + 1) for _ in range(r.randint(0 if r.random() < .1 else 1, 3))]
        if t == 'set':
            items = [v for v in items if v['t'] in ('int', 'str', 'bool', 'none', 'comma', 'tuple', 'range')
                     and hashable_spec(v)]
        return dict(t=t, v=items)
    if x < 0.34:
        return dict(t='comma', v=[pick(r, TOKENS + ['', 'range(2)']) for _ in range(r.randint(2, 3))])
    if x < 0.44:
        a = r.randint(0, 3)
        args = pick(r, [[a], [a, a + r.randint(0, 2)], [a, a + r.randint(0, 4), r.randint(1, 3)], [2, 0], [4, 1, 2]])
        return dict(t='range', v=args, word=pick(r, ['range', 'range', 'Range', 'RANGE']))
    if x < 0.56 and depth < 2:
        # dictionary of matchings
        dks = []
        for _ in range(r.randint(1, 2)):
            dk = pick(r, KEYS)
            vals = [[str(v), gen_value(r, ctx, depth + 1)] for v in pick(r, [[0, 1, 2, 3, 4], TOKENS, TOKENS + [0, 1, 2, 3, 4, 'None', 'True']])]
            if len(vals) > 6 and r.random() < 0.3:
                vals = vals[:6]
            dks.append([dk, vals])
        return dict(t='match', v=dks)
    if x < 0.68:
        t = pick(r, ['FPList', 'FPTuple', 'FPSet', 'FPDict', 'FPStr'])
        if t == 'FPStr':
            return dict(t=t, v=pick(r, ['a,b', 'range(1,3)', 'x_{glob:i:\\d+}', 'plain', '[glob:i],x']))
        return dict(t=t, v=[pick(r, [1, 2, 'a', 'b', 'a,b'])for _ in range(r.randint(0, 3))])
    if x < 0.78 and ctx['paths'] and depth < 2 and ctx['nglob'] < 2:
        ctx['nglob'] += 1
        path = pick(r, ctx['paths'])
        return gen_glob(r, ctx, path)
    if x < 0.9 and ctx['names']:
        # references to globs
        n = pick(r, ctx['names'] + (['zz'] if r.random() < .1 else []))
        return dict(t='ref', v=[pick(r, ['', 'p_', 'q.']), n, pick(r, ['', '_s', '.z'])], n2=pick(r, [None, None, pick(r, ctx['names'])]))
    return gen_scalar(r)


def gen_glob(r, ctx, path):
    names = [n for n in NAMES]
    r.shuffle(names)
    pieces, used = gen_pattern(r, path, names)
    bad = None
    if r.random() < 0.06:
        bad = pick(r, ['dup', 'regex', 'unbalanced'])
        if bad == 'dup' and used:
            pieces.append(['glob', used[0], r'\d*'])
        elif bad == 'regex':
            pieces.append(['glob', 'zz', '('])
        else:
            pieces.append(['raw', '{glob:zz:abc'])
    ctx['names'] = sorted(set(ctx['names']) | set(used))
    return dict(t='pat', v=pieces)


def hashable_spec(v):
    if v['t'] in ('list', 'set', 'match', 'FPDict', 'FPList', 'FPSet'):
        return False
    if v['t'] == 'tuple':
        return all(hashable_spec(x) for x in v['v'])
    return True


def gen(r, tier):
    odd = r.random() < 0.5
    dirs = ['']
    ops = []
    files = []
    for _ in range(r.randint(0, 2)):
        d = pick(r, dirs) + gen_name(r, odd) + '/'
        if d not in dirs:
            dirs.append(d)
            ops.append(dict(op='mk', path=d.rstrip('/'), kind='d'))
    for _ in range(r.randint(0 if r.random() < .1 else 2, 9)):
        d = pick(r, dirs)
        if files and r.random() < 0.6:
            # like another one, but for a piece
            toks = split_tokens(pick(r, files))
            i = r.randrange(len(toks))
            toks[i] = pick(r, TOKENS + SEPS if odd else TOKENS) if toks[i] != '/' else '/'
            f = ''.join(toks)
            if f.count('/') > 1 or '//' in f or f.endswith('/') or f.startswith('/'):
                continue
        else:
            f = d + gen_name(r, odd)
            if r.random() < 0.06:
                f = d + '.' + gen_name(r, odd)
            elif r.random() < 0.05:
                f += '\n'
        if files and r.random() < .2:
            # a longer name, of which only a part looks like another one
            f = pick(r, files)
            d, _, b = f.rpartition('/')
            x = pick(r, TOKENS) + pick(r, ['', '-', '.', '_'])
            b = pick(r, [x + b, b + x, x + b + x, b + x + b])
            f = (d + '/' if d else '') + b
        if set(f.split('/')) & {'', '.', '..'}:
            continue
        files.append(f)
        ops.append(dict(op='mk', path=f, kind='f' if r.random() < .93 else 'd'))
    dynamic = r.random() < 0.55
    nop = r.randint(2, 6) * (2 if tier == 'thorough' and r.random() < .3 else 1)
    plain = r.random() < 0.3
    for _ in range(nop):
        x = r.random()
        if x < 0.12 and files:
            ops.append(dict(op='rm', path=pick(r, files)))
            continue
        if x < 0.24:
            f = pick(r, dirs) + gen_name(r, odd)
            files.append(f)
            ops.append(dict(op='mk', path=f, kind='f'))
            continue
        absolute = r.random() < 0.2
        paths = [] if plain else [('/simfs/' + f if absolute else f) for f in files if '\n' not in f]
        ctx = dict(paths=paths, names=[], nglob=0, sets=not dynamic and r.random() < 0.4)
        keys = list(KEYS)
        r.shuffle(keys)
        desc = []
        if paths and r.random() < 0.85:
            ctx['nglob'] += 1
            desc.append([keys.pop(), gen_glob(r, ctx, pick(r, paths))])
        for _ in range(r.randint(1, 4)):
            desc.append([keys.pop(), gen_value(r, ctx)])
        r.shuffle(desc)
        op = dict(op='expand', desc=desc)
        if dynamic and r.random() < 0.8:
            ev = []
            for _ in range(r.randint(1, 5)):
                n = r.randint(1, 6)
                k = pick(r, ['mk', 'rm', 'rm', 'err', 'part', 'order', 'order'])
                e = dict(n=n, k=k)
                if k in ('mk', 'rm'):
                    e['path'] = pick(r, files) if files and r.random() < .7 else pick(r, dirs) + gen_name(r, odd)
                elif k == 'err':
                    e['errno'] = pick(r, [13, 5, 2, 24, 20])
                elif k == 'part':
                    e['after'] = r.randint(0, 3)
                else:
                    e['key'] = r.randint(1, 99)
                ev.append(e)
            op['events'] = ev
        if r.random() < 0.12:
            op['fault'] = dict(k='int', frac=round(r.random(), 3))
        ops.append(op)
        if r.random() < 0.15:
            ops.append(dict(op='cwd', path=pick(r, dirs).rstrip('/')))
    return dict(ops=ops, cfg=dict(salt=0))


# -------------------------------------------------------------------- model --

class Refused(Exception):
    """The model says that the expansion fails."""


class TooMany(Exception):
    """More results than worth it."""


class Pat:
    """A string made of pieces, at least one of them being a glob statement."""

    def __init__(self, pieces):
        self.pieces = pieces

    def fill(self, globs):
        return Pat([['lit', fill_str(p[1], globs)] if p[0] == 'lit' else p for p in self.pieces])

    def text(self):
        out = ''
        for p in self.pieces:
            out += dict(lit=lambda: p[1], raw=lambda: p[1], star=lambda: '*', any=lambda: '?',
                        glob=lambda: '{glob:' + p[1] + ':' + p[2] + '}')[p[0]]()
        return out


def fill_str(s, globs):
    return REF.sub(lambda m: globs[m.group(1)] if m.group(1) in globs else m.group(0), s)


def fill(v, globs):
    if isinstance(v, Pat):
        return v.fill(globs)
    if isinstance(v, stdtypes.FPStr):
        return stdtypes.FPStr(fill_str(v, globs))
    if type(v) is str:
        return fill_str(v, globs)
    if type(v) in (list, tuple, set):
        return type(v)(fill(x, globs) for x in v)
    if type(v) is dict:
        return {k: fill(x, globs) for k, x in v.items()}
    return v


def build(spec, real):
    """Value of a spec: for the package (real) or for the model."""
    t = spec['t']
    v = spec.get('v')
    if t in ('int', 'str', 'bool', 'float'):
        return v
    if t == 'none':
        return None
    if t in CONT:
        return CONT[t](build(x, real) for x in v)
    if t == 'comma':
        return ','.join(v)
    if t == 'range':
        return '{}({})'.format(spec['word'], ','.join(str(x) for x in v))
    if t == 'match':
        return {dk: {k: build(x, real) for k, x in vals} for dk, vals in v}
    if t == 'FPDict':
        return FP[t]({'k{}'.format(i): x for i, x in enumerate(v)})
    if t in FP:
        return FP[t](v)
    if t == 'ref':
        return v[0] + '[glob:' + v[1] + ']' + v[2] + ('[glob:' + spec['n2'] + ']' if spec.get('n2') else '')
    if t == 'pat':
        p = Pat(v)
        return p.text() if real or not any(x[0] in ('glob', 'raw') for x in v) else p
    raise core.HarnessError(t)


RANGE = re.compile(r'range\((\d+)(?:,(\d+))?(?:,(\d+))?\)', re.IGNORECASE)


def expandable(v):
    if type(v).__name__ in FP:
        return False
    if isinstance(v, Pat) or isinstance(v, (list, tuple, set, dict)):
        return True
    return isinstance(v, str) and (',' in v or RANGE.fullmatch(v) is not None)


class Model:
    """Expansion against a frozen set of files."""

    def __init__(self, files, cwd, must):
        self.files = files      # absolute paths
        self.cwd = cwd
        self.must = must
        self.globs = 0

    def regex(self, pieces):
        names = [p[1] for p in pieces if p[0] == 'glob']
        if len(set(names)) != len(names):
            raise Refused('duplicate')
        if any(p[0] == 'raw' for p in pieces):
            raise Refused('unbalanced')
        out = ''
        for p in pieces:
            if p[0] == 'lit':
                out += re.escape(p[1])
            elif p[0] in ('star', 'any'):
                out += ('.' if self.must else r'[\s\S]') + ('*' if p[0] == 'star' else '')
            else:
                try:
                    re.compile(p[2])
                except re.error:
                    raise Refused('regex')
                out += '(?P<{}>{})'.format(p[1], p[2])
        return re.compile(out)

    def look(self, pat):
        """Files that match: [(name, pieces captured)]"""
        self.globs += 1
        rx = self.regex(pat.pieces)
        comps = pat.text().count('/')
        absolute = pat.text().startswith('/')
        heads = pat.text().split('/') if comps else [pat.text()]
        found = []
        for f in self.files:
            if absolute:
                name = f
            elif f.startswith(self.cwd + '/'):
                name = f[len(self.cwd) + 1:]
            else:
                continue
            if name.count('/') != comps:
                continue
            m = rx.fullmatch(name)
            if not m:
                continue
            if self.must and any(c.startswith('.') and not h.startswith('.') for c, h in zip(name.split('/'), heads)):
                continue
            found.append((name, m.groupdict()))
        return sorted(found, key=lambda x: x[0])

    def run(self, desc):
        out = []
        self.walk(desc, out, 0)
        return out

    def walk(self, d, out, depth):
        if len(out) > CAP:
            raise TooMany()
        for k, v in d.items():
            if not expandable(v):
                continue
            if depth > 18:
                raise TooMany()
            if isinstance(v, (list, tuple, set)):
                for x in v:
                    self.walk(dict(d, **{k: x}), out, depth + 1)
                return
            if isinstance(v, Pat):
                for name, globs in self.look(v):
                    new = {kk: (vv if kk == k else fill(vv, globs)) for kk, vv in d.items()}
                    new[k] = name
                    self.walk(new, out, depth + 1)
                return
            if isinstance(v, str):
                m = RANGE.fullmatch(v)
                if m:
                    a = [int(x) for x in m.groups() if x is not None]
                    if len(a) == 1:
                        vals = [a[0]]
                    else:
                        step = a[2] if len(a) > 2 else 1
                        vals = []
                        x = a[0]
                        while x <= a[1]:
                            vals.append(x)
                            x += step
                else:
                    vals = v.split(',')
                for x in vals:
                    self.walk(dict(d, **{k: x}), out, depth + 1)
                return
            # a dictionary: the first key of the description that is settled
            for dk in v:
                if dk in d and isinstance(d[dk], stdtypes.FPDict):
                    raise TooMany()     # nothing is said about that
                if dk in d and not expandable(d[dk]) and not isinstance(d[dk], (list, tuple, set)):
                    if str(d[dk]) not in v[dk]:
                        raise Refused('no match')
                    self.walk(dict(d, **{k: v[dk][str(d[dk])]}), out, depth + 1)
                    return
        out.append(d)


# -------------------------------------------------------------------- world --

def show(v):
    """Comparable and printable form of a value: the type matters."""
    t = type(v).__name__
    if isinstance(v, Pat):
        return ['str', v.text()]
    if isinstance(v, (set, frozenset)):
        return [t, sorted((show(x) for x in v), key=repr)]
    if isinstance(v, (list, tuple)):
        return [t, [show(x) for x in v]]
    if isinstance(v, dict):
        return [t, sorted([k, show(x)] for k, x in v.items())]
    return [t, v]


def subsequence(small, big):
    it = iter(big)
    return all(any(x == y for y in it) for x in small)


class Expansion:

    def __init__(self, plan, ctx):
        self.plan = plan
        self.ctx = ctx

    def run(self):
        MON.install()
        FS.reset()
        FS.active = True
        try:
            for i, op in enumerate(self.plan['ops']):
                self.ctx.where = [i, op['op']]
                getattr(self, 'do_' + op['op'])(op)
                self.ctx.inc('op:' + op['op'])
        finally:
            FS.active = False
        self.ctx.where = ['end', 'end']

    def path(self, p):
        return '/simfs/' + p

    def do_mk(self, op):
        if op.get('path') and self.path(op['path']) not in FS.kinds and self.above(op['path']):
            FS.mk(self.path(op['path']), op.get('kind', 'f'))

    def above(self, path):
        """Are the parents directories (or free)?"""
        p = self.path(path)
        if FS.norm(p) != p:
            return False
        while '/' in p[1:]:
            p = p.rsplit('/', 1)[0]
            if FS.kinds.get(p, 'd') != 'd':
                return False
        return True

    def do_rm(self, op):
        FS.rm(self.path(op['path']))
        if FS.cwd not in FS.kinds:
            FS.cwd = boot.SIMROOT

    def do_cwd(self, op):
        p = ('/simfs/' + op['path']).rstrip('/')
        if FS.kinds.get(p) == 'd':
            FS.cwd = p

    def do_expand(self, op):
        ctx = self.ctx
        spec = op['desc']
        desc = {k: build(v, True) for k, v in spec}
        mdesc = {k: build(v, False) for k, v in spec}
        if len(desc) != len(spec):
            return
        before = show(desc)
        order = list(desc)
        hassets = 'set' in repr(spec)
        start = dict(FS.kinds)
        alive = set(FS.kinds)         # there all along
        seen = dict(FS.kinds)         # there at some time
        failed = set()
        events = sorted(op.get('events') or (), key=lambda e: e['n'])
        if hassets:
            events = [e for e in events if e['k'] == 'order']
        # sizes first: huge expansions are of no interest
        try:
            extra = {self.path(e['path']) for e in events if e['k'] == 'mk'}
            Model(sorted(set(seen) | extra), FS.cwd, False).run(mdesc)
        except (Refused, TooMany) as e:
            if isinstance(e, TooMany):
                ctx.inc('too-many')
                return
        calls = [0]
        fired = []

        def hook(kind, path):
            calls[0] += 1
            names = None
            todo = [e for e in events if e['n'] == calls[0]]
            for e in todo:
                if e['k'] == 'mk':
                    p = self.path(e['path'])
                    if p not in FS.kinds and self.above(e['path']):
                        FS.mk(p)
                        seen.update(FS.kinds)
                        fired.append('mk')
                elif e['k'] == 'rm':
                    p = self.path(e['path'])
                    if p in FS.kinds and p != FS.cwd and not FS.cwd.startswith(p + '/'):
                        FS.rm(p)
                        alive.intersection_update(FS.kinds)
                        fired.append('rm')
            for e in todo:
                if e['k'] == 'err':
                    failed.add(path)
                    fired.append('err')
                    raise OSError(e['errno'], 'injected')
                if path in FS.tree and kind == 'list':
                    if e['k'] == 'order':
                        names = sorted(FS.tree[path], key=lambda x: core.digest([x, e['key']]))
                        fired.append('order')
                    elif e['k'] == 'part':
                        failed.add(path)
                        fired.append('part')
                        names = (sorted(FS.tree[path]), e['after'])
            return names
        probe = None
        if op.get('fault'):
            probe = self.count_steps(desc)
        FS.hook = hook
        MON.begin(BUDGET)
        if probe:
            def act():
                raise SimInterrupt()
            MON.actions[1 + int(op['fault']['frac'] * probe)] = act
        exc = got = None
        try:
            got = util.expand(desc)
        except SimBudget:
            MON.end()
            FS.hook = None
            ctx.flag('hang', dict(desc=before))
        except SimInterrupt:
            exc = 'SimInterrupt'
            ctx.inc('fault:int')
        except Exception as e:
            exc = type(e).__name__
        finally:
            ctx.inc('steps', MON.end())
            FS.hook = None
        for f in fired:
            ctx.inc('fault:fs-' + f)
        ctx.inc('fs-calls', calls[0])
        ctx.expect(show(desc) == before and list(desc) == order, 'expand',
                   lambda: dict(what='the description was modified', before=before, after=show(desc)))
        if exc == 'SimInterrupt':
            # nothing was modified; the same call again, undisturbed
            self.do_expand(dict(op, fault=None, events=None))
            return
        must_files = sorted(p for p in alive if p != boot.SIMROOT and not
                            any(p == f or p.startswith(f + '/') for f in failed))
        may_files = sorted(p for p in seen if p != boot.SIMROOT)
        may_model = Model(may_files, FS.cwd, False)
        try:
            may = may_model.run(mdesc)
            must = Model(must_files, FS.cwd, True).run(mdesc)
        except Refused as e:
            try:
                may2 = None
                if start == FS.kinds and not fired:
                    Model(must_files, FS.cwd, True).run(mdesc)
                    may2 = True
            except Refused:
                pass
            else:
                ctx.inc('undecided')
                if may2 is None:
                    return
                return
            ctx.inc('refusals')
            ctx.expect(exc is not None, 'expand', lambda: dict(what='accepted', why=str(e), desc=before,
                                                               got=[show(x) for x in got][:5]))
            ctx.ev('expand', 'refused')
            return
        except TooMany:
            ctx.inc('too-many')
            return
        ctx.expect(exc is None, 'expand', lambda: dict(what='error', exc=exc, desc=before, want=[show(x) for x in must][:5]))
        idx = [x.get('index_expansion') for x in got]
        ctx.expect(idx == list(range(1, len(got) + 1)), 'expand', lambda: dict(what='numbering', got=idx, desc=before))
        plain = [show({k: v for k, v in x.items() if k != 'index_expansion'}) for x in got]
        wmust = [show(x) for x in must]
        wmay = [show(x) for x in may]
        if hassets:
            plain, wmust, wmay = (sorted(x, key=repr) for x in (plain, wmust, wmay))
        ctx.expect(subsequence(plain, wmay), 'expand', lambda: dict(
            what='unexpected', desc=before, got=[x for x in plain if x not in wmay][:3] or plain[:12], want=wmay[:12], fired=fired))
        ctx.expect(subsequence(wmust, plain), 'expand', lambda: dict(
            what='missing', desc=before, want=[x for x in wmust if x not in plain][:3] or wmust[:12], got=plain[:12], fired=fired))
        ctx.inc('results', len(got))
        if may_model.globs:
            ctx.inc('globs')
        if len(must) != len(may):
            ctx.inc('between')
        ctx.ev('expand', plain)
        ctx.state([[v['t'] for _, v in spec], len(may_files), min(len(got), 20), sorted(set(fired)), calls[0]])

    def count_steps(self, desc):
        from registry import fork_json

        def probe():
            MON.begin(BUDGET)
            try:
                util.expand(desc)
            except BaseException:
                pass
            return MON.end()
        return fork_json(probe)
