"""
Plan generator of the registry world (swarm style: every run draws its own mix).

No draw depends on hashes: the same seed gives the same plan in any interpreter.
"""

import copy

import fpmodel as fm
from core import HarnessError
from fpmodel import MWeak
from registry import Skip, dec, dec_part

STR = ['alpha', 'beta', 'gamma', 'delta', 'a1', '5']
# texts that mean something to regular expressions, formats, substitutions or XML
ODD = ['back\\1slash', 'C:\\new\\g<0>', 'a\\', '{0}', '{kind}', '%s', '100%', 'x]y', 'a:b', 'a#b', '(a|b', 'a.*', '^$',
       'two words', " '\"quoted\" ", 'a<b>&c', '\u00fcn\u00ef', 'a,b', '_x', 'ALPHA', '1e3', 'True', '$HOME', '*', 'a/b', '..']
TEMPL = dict(
    kind=dict(type='str', alias=['knd', 'kd']),
    model=dict(type='str', alias=['mod', 'mdl']),
    geo=dict(type='str', alias=[]),
    fmt=dict(type='str', alias=['nativefmt']),
    num=dict(type='int', alias=['nb']),
    lev=dict(type='float', alias=[]),
    date=dict(type='Tok', alias=['dt']),
    sort=dict(type='TokB', alias=[]),
    lst=dict(type='FPList', alias=[]),
    dct=dict(type='FPDict', alias=[]),
    fst=dict(type='FPSet', alias=[]),
    src=dict(type='Foot', alias=[]),
    tgt=dict(type='Tgt', alias=[]),
    kls=dict(type='KRoot', alias=[]),
    flg=dict(type='bool', alias=['flag']),
    tpl=dict(type='FPTuple', alias=[]),
    ref_num=dict(type='int', alias=['ref', 'ref_nb']),
    hereafter_nb=dict(type='int', alias=['herebefore_nb']),
    rgx=dict(type='FPRegex', alias=[]),
)
EXTRA = ['xa', 'xb', 'xn', 'aux']
TAGS = ['coll', 'geom', 'thing', 'Grids', 'boxes']
MODS = ['simcls', 'simcls', 'simcls_ext', 'simpkg.alpha', 'simpkg.alphabet', 'simpkg.beta']
LEVELS = ['NONE', 'DEFAULT', 'TOOLBOX', 'DEBUG']
NEWLEV = ['LOW', 'MID', 'HIGH', 'OPER']
METHODS = dict(mcat='const', mnum='num', mnone='none', mkind='kind', mraise='raise', mzero='zero', mempty='empty')
ACC = ['rxx', 'rwx', 'rwd']
CAUGHT = ['UserError', 'RuntimeError', 'UserAbort', 'KeyError', 'MemoryError', 'OSError']


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


class MTgt:
    uid = 0


class GW:
    """The little the decoder needs to know while generating."""

    def __init__(self):
        self.prio = list(LEVELS)
        self.slots = {}
        self.tgts = {}
        self.mobjs = {}
        self.talive = set()


BASE = dict(
    nops=(8, 24), ncls=(2, 5), attrs=(2, 5), ntags=(1, 2),
    ops=dict(load=10, find=3, build=3, write=2, delattr=1, clone=1, copy=1, drop=2, gc=1,
             cls=2, reg=1, prio=1, setup=2, grep=1, default=1, query=1, fasttrack=0, clock=0,
             note=0, tgt=1, droptgt=0, add_proxy=0, check_proxies=0, fp=0, dict=0,
             save=0, restore=0, export=0, rewrite=0),
    p_subst=0.25, p_remap=0.25, p_values=0.5, p_outcast=0.2, p_alias=0.4, p_optional=0.5,
    p_only=0.25, p_level=0.3, p_bases=0.4, p_abstract=0.15, p_methods=0.4, p_bad=0.05,
    p_list=0.15, p_shared=0.0, p_extra=0.3, p_fault=0.0, p_obj=0.3, p_weak=0.3,
    p_missing=0.08, p_reuse=0.5, p_none=0.03, p_deflt=0.5, p_twin=0.2,
    faults=('hook', 'int'), entries=('coll', 'coll', 'module', 'proxy', 'pickup', 'mpickup', 'almost'),
    fkinds=('cast', 'fv', 'meth', 'callback', 'riseup', 'init'), names=None, nonames=(),
    callback=('vary', 'steady'), redef=True, p_deco=0.0, hidden=0.1, access=ACC,
    p_regexonly=0.3, p_careless=0.25, maxsweep=1, sweepmax=40, fast=(), report=(1, 1, 1, 0, 2, 3), p_env=0.05, p_cache=0,
    modes=(), p_cut=0.0, p_all=0.0, p_args=0.15, p_cont=0.3, p_docs=0.04, p_again=0.06, p_path=0.06, p_odd=0.06,
)


def profile(**kw):
    p = copy.deepcopy(BASE)
    ops = kw.pop('ops', {})
    p['ops'].update(ops)
    p.update(kw)
    return p


SIMPLE = ('str', 'int', 'float', 'Tok', 'TokB', 'bool')


class AnyObj(fm.MObj):
    """An object of which nothing is known."""

    def getattr(self, name):
        return 'alpha'


class Gen:

    def __init__(self, rng, prof):
        self.r = rng
        self.p = prof
        self.w = GW()
        self.classes = {}      # sid -> dict(spec, foot, abstract)
        self.order = []
        self.slotinfo = {}     # slot -> dict(cls, desc)
        self.ops = []
        self.ncls = 0
        self.nslot = 0
        self.nsweep = 0
        self.files = []
        self.fps = {}
        self.lists = {}
        self.sames = []
        self.dicts = {}
        self.docs = 0
        self.frozen = []
        self.envuse = []
        self.defaults = {}
        r = rng
        names = list(prof['names'] or TEMPL)
        names = [n for n in names if n not in prof['nonames']]
        if r.random() > prof['p_obj'] and prof['names'] is None:
            names = [n for n in names if n not in ('src', 'tgt')]
        if r.random() > prof['p_cont'] and prof['names'] is None:
            names = [n for n in names if n not in ('kls', 'dct', 'fst', 'sort', 'lst', 'flg', 'tpl', 'rgx')]
        n = min(len(names), r.randint(*prof['attrs']))
        self.names = sorted(r.sample(names, n), key=list(TEMPL).index)
        if 'kind' not in self.names and r.random() < 0.7 and 'kind' in names:
            self.names.insert(0, 'kind')
        self.tags = TAGS[:r.randint(*prof['ntags'])] if prof['ntags'] else ['coll']
        if r.random() < 0.3:
            r.shuffle(self.tags)
        # swarm: some features are off for this run
        self.f = {}
        for k in prof:
            if k.startswith('p_'):
                v = prof[k]
                c = r.random()
                self.f[k] = 0.0 if c < 0.2 else v if c < 0.8 else min(1.0, v * 2)
        for k in ('p_fault',):
            self.f[k] = prof[k]
        self.acc = [a for a in prof['access'] if r.random() < 0.8] or ['rxx']
        self.lowlev = r.sample(LEVELS, r.randint(1, 4))

    def chance(self, k):
        return self.r.random() < self.f[k]

    # ------------------------------------------------------------- values ----

    def subst(self, name):
        r = self.r
        nm = pick(r, [n for n in self.names] + EXTRA + ['nope'] * (r.random() < 0.15))
        opts = ['[{}]', 'x-[{}]', '[{}]-y', '[{}]_[{}]', '[{}#zz]']
        if nm in ('kind', 'model', 'geo', 'fmt', 'xa'):
            opts += ['[{}:upper]', '[{}::upper]', '[{}:title]', '[{}%5s]', '[{}:nosuch]']
            if r.random() < 0.1:
                opts += ['[{}%03d]', '[{}%.nosuch:s]']
            if r.random() < 0.3:
                opts += ['[{}%.upper:>6s]', '[{}%.title:s]', '[{}%!r:>9s]', '[{}%!s]', '[{}:upper%<7s]']
        elif nm in ('num', 'xn'):
            opts += ['[{}%03d]'] * 3 + ['[{}%+d]', '[{}%.bit_length:02d]', '[{}:bit_length]', '[{}%.real:d]']
        elif nm == 'lev':
            opts += ['[{}%.2f]']
        elif nm in ('date', 'sort'):
            opts += ['[{}:tail]', '[{}%.tail:s]']
        elif nm in ('src', 'aux'):
            opts = ['[{}:mcat]', '[{}:mnum]', '[{}:mkind]', '[{}:mnone]', '[{}:kind]', '[{}:geo]',
                    '[{}:num]', '[{}:realkind]', '[{}:nosuch]', '[{}:mnum%03d]', '[{}:kind:upper]',
                    '[{}:mzero]', '[{}:mempty]', 'v[{}:num]', 'v[{}:note]']
            if r.random() < 0.1:
                opts += ['[{}:mraise]']
        elif nm == 'tgt':
            opts = ['[{}:label]', '[{}]', '[{}:uid]', '[{}%.label:s]']
        elif nm in ('lst', 'dct', 'fst', 'kls', 'flg', 'tpl', 'rgx'):
            opts = ['[kind]', 'plain'] if 'kind' in self.names else ['plain']
        s = pick(r, opts)
        out = s
        while '{}' in out:
            out = out.replace('{}', nm, 1)
            nm = pick(r, ['kind', 'num', 'xa']) if r.random() < 0.3 else nm
        return out

    def raw(self, name, allow_subst=True, subst=None):
        """A raw value for attribute **name**."""
        r = self.r
        t = TEMPL[name]['type'] if name in TEMPL else 'str'
        if allow_subst and t in ('str', 'int', 'float', 'Tok') and self.chance('p_subst'):
            if t == 'int' and r.random() < 0.7:
                return pick(r, ['[xn]', '[num]' if name != 'num' else '[xn#3]', '[xn#2]', '[lst:__len__]'][:3])
            return self.subst(name)
        if r.random() < self.f['p_none']:
            return pick(r, [None, 'None'])
        if t == 'str':
            if self.chance('p_odd'):
                return pick(r, ODD)
            if r.random() < 0.95:
                return pick(r, STR)
            return pick(r, [5, 'back\\1slash', '', 'ALPHA', ['FStr', 'alpha'], ['FStr', 'beta'],
                            ['l', [1, 'a']], ['T', 'alpha']])
        if t == 'int':
            return pick(r, [1, 2, 3, '2', '3', 5, 0, 'x' if r.random() < 0.3 else 4, 2.0 if r.random() < 0.5 else 0])
        if t == 'float':
            return pick(r, [1.5, '2.5', 2, 0.5, 'x' if r.random() < 0.3 else '1.5'])
        if t in ('Tok', 'TokB'):
            return pick(r, ['alpha', 'ALPHA', 'beta', 'Gamma', 'bad1' if r.random() < 0.3 else 'delta',
                            ['T', 'beta'], ['TB', 'alpha'], 5])
        if t == 'FPList':
            return pick(r, [['FL', ['a', 1]], ['FL', ['a']], ['l', ['b', 2]], ['FL', []], 'ab', ['FL', ['a', ['l', [1]]]]])
        if t == 'FPDict':
            return pick(r, [['FD', {'a': 1, 'b': 2}], ['FD', {'a': 1}], ['FD', {}], ['FD', {'a': ['l', [1]]}]])
        if t == 'FPSet':
            return pick(r, [['FS', ['a', 'b', 'c']], ['FS', ['a']], ['l', ['b', 'a']], ['FS', []]])
        if t == 'bool':
            return pick(r, [True, False, True, False, 1, 0, '', 'yes', 'False'])
        if t == 'FPTuple':
            return pick(r, [['FT', ['a', 1]], ['FT', ['a']], ['l', ['b', 2]], ['t', []], 'ab', 5, ['FT', ['a', ['FL', [1]]]]])
        if t == 'FPRegex':
            return pick(r, [['re', 'a.*'], ['re', '[a-z]+'], 'b+', 'b+', 'x(', 5])
        if t == 'Foot':
            if self.slotinfo and r.random() < 0.9:
                return ['o', pick(r, sorted(self.slotinfo))]
            return 'notanobject'
        if t == 'Tgt':
            if r.random() < .12:
                return pick(r, ['notatarget', '[kind]', '[xa]', '[nosuch#x]'])
            return ['w', pick(r, ['t1', 't2', 't3'])]
        if t in ('KRoot', 'KA'):
            if r.random() < .1:
                return pick(r, ['notaclass', '[kind]', 5, ['T', 'beta']])
            return ['c', pick(r, ['KRoot', 'KA', 'KB', 'KB', 'KOther'])]
        raise HarnessError(t)

    def good(self, name, d):
        """A raw value that has a fair chance to be accepted by attribute **d**."""
        r = self.r
        if d.get('rvalues') and r.random() < 0.75:
            return copy.deepcopy(pick(r, d['rvalues']))
        if d.get('rremap') and r.random() < 0.4:
            return copy.deepcopy(pick(r, d['rremap'])[0])
        return self.raw(name)

    # ------------------------------------------------------------ classes ----

    def attr(self, name, override=False):
        r = self.r
        t = TEMPL[name]
        a = {}
        typ = t['type']
        if typ != 'str' and (not override or typ not in ('int', 'float', 'Tok', 'TokB') or r.random() < 0.3):
            a['type'] = typ
        if name == 'date' and r.random() < 0.15:
            a['type'] = 'TokB'
        if name == 'kls':
            a['type'] = pick(r, ['KRoot', 'KA'])
            a['isclass'] = True
        if typ == 'Tok' and 'type' in a and r.random() < self.p['p_args']:
            a['args'] = {'base': pick(r, ['z', 'y', 'x']) if r.random() < 0.4 else 'z'}
        if r.random() < self.f['p_optional'] or (override and r.random() < 0.3):
            a['optional'] = r.random() < 0.85
            if self.chance('p_deflt') and typ not in ('Tgt', 'Foot', 'KRoot'):
                v = self.raw(name)
                a['default'] = v if r.random() < 0.75 else ['fv', v]
        simple = typ in ('str', 'int', 'float', 'Tok', 'TokB', 'bool')
        if self.chance('p_values') and simple:
            pool = {'str': STR, 'int': [1, 2, 3, '2', 5], 'float': [0.5, 1.5, '2.5', 2],
                    'Tok': ['alpha', 'BETA', 'gamma', ['T', 'delta']],
                    'TokB': ['alpha', 'beta'], 'bool': [True, False, 1]}[typ]
            vals = r.sample(pool, r.randint(1, min(4, len(pool))))
            if r.random() < self.f['p_bad'] and typ in ('int', 'Tok'):
                vals.append({'int': 'x', 'Tok': 'bad0'}[typ])
            if typ == 'str' and self.chance('p_odd'):
                vals[0] = pick(r, ODD + ['[xa]'] * 20)
            a['values'] = vals
            if r.random() < 0.2:
                a['asset'] = True
        if typ in ('FPList', 'FPSet', 'FPTuple') and self.f['p_values'] and r.random() < 0.3:
            a['values'] = {'FPList': [['FL', ['a']], ['FL', ['a', 1]], ['FL', ['a', ['FL', [1]]]]],
                           'FPSet': [['FS', ['a']], ['FS', ['c', 'b', 'a']]],
                           'FPTuple': [['FT', ['a']], ['FT', ['a', ['FL', [1]]]], ['t', ['b', 2]]]}[typ]
        if self.chance('p_outcast') and simple:
            a['outcast'] = [pick(r, {'str': STR, 'int': [1, 2, '3'], 'float': [1.5, '2.5'],
                                     'Tok': ['beta', 'delta'], 'TokB': ['beta'],
                                     'bool': [False]}[typ])]
        if self.chance('p_remap') and simple:
            if 'values' in a and 'asset' not in a and r.random() < 0.25 and len(a['values']) > 1 and typ == 'str':
                a['remap'] = [['autoremap', 'first']]
            else:
                src = {'str': STR + ['old'], 'int': ['one', 'two', 5, 1], 'float': ['half', 2],
                       'Tok': ['alpha', 'oldt', 'beta'], 'TokB': ['alpha', 'oldt'],
                       'bool': ['yes', 'no', 1]}[typ]
                keys = r.sample(src, r.randint(1, 2))
                a['remap'] = [[k, self.raw(name, allow_subst=False)] for k in keys]
                a['remap'] = [[k, v] for k, v in a['remap'] if not isinstance(v, list) and v is not None and v != 'None']
                if not a['remap']:
                    del a['remap']
        if t['alias'] and self.chance('p_alias'):
            a['alias'] = r.sample(t['alias'], r.randint(1, len(t['alias'])))
        acc = pick(r, self.acc)
        if typ == 'Tgt':
            acc = acc + '-weak'
        if acc != 'rxx' or typ == 'Tgt' or r.random() < 0.1:
            a['access'] = acc
        if r.random() < self.f['p_bad'] * 0.2:
            a['access'] = 'zzz'
        return a

    def only(self):
        r = self.r
        out = {}
        for _ in range(r.randint(1, 2)):
            nm = pick(r, self.names + ['xa'])
            t = TEMPL[nm]['type'] if nm in TEMPL else 'str'
            if t not in ('str', 'int', 'float', 'Tok'):
                continue
            pre = '' if r.random() < 0.6 and nm != 'ref_num' else pick(r, ['after_', 'before_'])
            if t == 'str':
                if pre:
                    v = pick(r, ['b', 'gamma'])
                elif self.chance('p_regexonly'):
                    v = ['re', pick(r, ['^[ab]', 'a$', 'x'])]
                else:
                    v = pick(r, ['alpha', ['l', ['alpha', 'beta']], ['l', ['gamma', 'a1', 'delta']]])
                    if nm == 'xa':
                        v = pick(r, ['dxa', ['l', ['dxa', 'dxb']], 'alpha'])
            elif t == 'int':
                v = pick(r, [2, 3]) if pre else pick(r, [2, ['l', [1, 2, 3]]])
            elif t == 'float':
                v = pick(r, [1.0, 2.0]) if pre else ['l', [1.5, 2.5]]
            else:
                v = ['T', pick(r, ['b', 'gamma'])] if pre else ['l', [['T', 'alpha'], ['T', 'beta']]]
            out[pre + nm] = v
        return out

    def part(self, names, override=False):
        r = self.r
        part = {}
        if names:
            part['attr'] = {n: self.attr(n, override) for n in names}
            if r.random() < self.f['p_list']:
                part['aslist'] = True
        if self.chance('p_only') and (r.random() < 0.7 or names):
            o = self.only()
            if o:
                part['only'] = o
        if self.chance('p_level'):
            part['level'] = pick(r, [x for x in self.lowlev if x in self.w.prio] or ['DEFAULT'])
        if r.random() < 0.3:
            part['info'] = pick(r, ['First thing', 'Second thing', 'Nice one'])
        if r.random() < 0.08 and names:
            part['fastkeys'] = [pick(r, names)]
        return part

    def mpart(self, p):
        if isinstance(p, list):
            return self.fps[p[1]] if p[0] == 'F' else self.dicts[p[1]]
        return dec_part(p, self.w, 'm')

    def cls(self, fault=None, twin=None):
        r = self.r
        sid = 'C{:d}'.format(self.ncls)
        self.ncls += 1
        bases = []
        cands = [s for s in self.order if s in self.classes]
        if cands and self.chance('p_bases'):
            abst = [s for s in cands if self.classes[s]['spec'].get('abstract')]
            bases = [pick(r, abst if abst and r.random() < 0.5 else cands)]
            while len(cands) > len(bases) < 3 and r.random() < 0.3:
                b2 = pick(r, cands)
                if b2 not in bases:
                    bases.append(b2)
        inh = []
        for b in bases:
            inh += [n for n in self.classes[b]['foot'].attr if n not in inh]
        names = r.sample(self.names, len(self.names) if self.chance('p_all') else r.randint(1, len(self.names)))
        if bases and r.random() < 0.3:
            names = r.sample(self.names, r.randint(0, min(1, len(self.names))))
        names = sorted(names, key=list(TEMPL).index)
        parts = []
        if self.fps and r.random() < self.f['p_shared']:
            parts.append(['F', pick(r, sorted(self.fps))])
            if len(self.fps) > 1 and r.random() < 0.4:
                more = [f for f in sorted(self.fps) if f != parts[0][1]]
                parts.append(['F', pick(r, more)])
        if self.dicts and r.random() < self.f['p_shared']:
            parts.append(['D', pick(r, sorted(self.dicts))])
        own = {}
        for n in names:
            own[n] = None
        part = self.part(names)
        for n in list(part.get('attr', {})):
            if n in inh and r.random() < 0.5:
                part['attr'][n] = self.attr(n, override=True)
        if not parts or r.random() < 0.8:
            parts.append(part)
        if twin is not None and twin in self.classes:
            # nearly the same as another one
            parts = copy.deepcopy(self.classes[twin]['spec']['parts'])
            bases = list(self.classes[twin]['spec']['bases'])
            last = parts[-1]
            if isinstance(last, dict):
                last.pop('level', None)
                if self.chance('p_level'):
                    last['level'] = pick(r, [x for x in self.lowlev if x in self.w.prio] or ['DEFAULT'])
                if r.random() < 0.5 and last.get('attr'):
                    n = pick(r, sorted(last['attr']))
                    last['attr'][n] = self.attr(n)
        if self.lists and r.random() < .2 and twin is None:
            # the very same list of definitions as another class
            lid = pick(r, sorted(self.lists))
            parts = copy.deepcopy(self.lists[lid])
        else:
            lid = None
        spec = dict(sid=sid, name=pick(r, ['Alpha', 'Beta', 'Gamma']) + sid, mod=pick(r, MODS), bases=bases, parts=parts)
        if r.random() < .2 and (spec['mod'] not in self.sames or self.p['redef'] and r.random() < .6):
            # namesakes in several modules, or a class defined once more
            spec['name'] = 'Same'
            self.sames.append(spec['mod'])
        if r.random() < .12:
            spec['started'] = 'st1'
        if self.chance('p_abstract'):
            spec['abstract'] = True
        if not bases or r.random() < 0.2:
            tags = [pick(r, self.tags)]
            if len(self.tags) > 1 and r.random() < 0.3:
                tags = list(self.tags[:2])
            if r.random() < self.f['p_bad'] * 0.5 and self.names:
                tags.append(pick(r, self.names))
            spec['tags'] = tags
        if r.random() < 0.12:
            spec['note'] = pick(r, ['cn1', 'cn1', '', 0])
        if r.random() < 0.1:
            spec['explicit'] = False
        if r.random() < 0.15:
            spec['reusable'] = False
        if r.random() < 0.15:
            # something like an empty container
            spec['empty'] = True
        if self.chance('p_methods'):
            spec['methods'] = {k: METHODS[k] for k in sorted(r.sample(sorted(METHODS), r.choice([3, 4])))}
        if self.p['ops'].get('export') and r.random() < .3:
            spec.setdefault('methods', {})['footprint_export_' + pick(r, self.names)] = 'export'
        if r.random() < self.f['p_bad'] and not spec.get('abstract') and not bases and not lid:
            # explicit class without any mandatory attribute
            for a in (parts[-1].get('attr', {}) if isinstance(parts[-1], dict) else {}).values():
                a['optional'] = True
        if lid or self.f['p_shared'] and r.random() < .3:
            spec['listid'] = lid or 'L{:d}'.format(len(self.lists))
            self.lists[spec['listid']] = copy.deepcopy(parts)
        op = dict(op='cls', spec=spec)
        if fault:
            op['fault'] = fault
        # what would it be?
        try:
            foot = fm.MFoot([self.classes[b]['foot'] for b in reversed(bases)] + [self.mpart(p) for p in parts])
            valid = all(d['access'] != 'zzz' for d in foot.attr.values())
            if not spec.get('abstract') and spec.get('explicit', True) and not foot.mandatory():
                if r.random() < 0.8:
                    spec['explicit'] = False
                else:
                    valid = False
        except (fm.MErr, Skip):
            valid = False
        if valid:
            raws = {}
            for b in bases:
                raws.update(self.classes[b]['raws'])
            for p in parts:
                if isinstance(p, dict):
                    for n, a in p.get('attr', {}).items():
                        x = dict(raws.get(n, {}))
                        if 'values' in a:
                            x['rvalues'] = a['values']
                        if 'remap' in a and a['remap'][0][0] != 'autoremap':
                            x['rremap'] = a['remap']
                        raws[n] = x
            tags = spec.get('tags')
            if tags is None:
                for b in bases:
                    tags = self.classes[b]['tags']
                    break
            self.classes[sid] = dict(spec=spec, foot=foot, raws=raws, tags=tags or ['garbage'])
            self.order.append(sid)
        self.ops.append(op)
        return sid

    # -------------------------------------------------------- descriptions ----

    def desc_for(self, sid, noise=True):
        """A description meant for a class (several attempts to please it)."""
        d = {}
        for _ in range(1 if self.r.random() < self.f['p_careless'] else 6):
            d = self.desc_once(sid, noise)
            if self.pleased(sid, d):
                break
        return d

    def pleased(self, sid, d):
        foot = self.classes[sid]['foot']
        w = self.w
        try:
            m = {k: dec(v, w, 'm') for k, v in d.items() if not (isinstance(v, list) and v[0] in 'ow')}
            if len(m) < len(d):
                # objects and targets: judge the other attributes only
                for k, v in d.items():
                    if k not in m:
                        if k in foot.attr and k == 'tgt':
                            m[k] = MWeak(MTgt)
                        elif k in foot.attr or k == 'src':
                            m[k] = AnyObj(fm.MClass.__new__(fm.MClass), {})
            st = fm.MSetup()
            st.callback = {'xa': 'exa', 'xn': 3}
            r = fm.resolve(foot, m, st)
            return r.ok and fm.check_only(foot, r.guess, st) is None
        except (fm.MErr, Skip, AttributeError):
            return False

    def likely(self, op, sid):
        if 'fault' in op and op['fault']['k'] in ('int', 'hook'):
            return self.r.random() < 0.2
        return self.pleased(sid, op['desc']) or self.r.random() < 0.1

    def desc_once(self, sid, noise=True):
        r = self.r
        c = self.classes[sid]
        out = {}
        items = list(c['foot'].attr.items())
        r.shuffle(items)
        for n, d in items:
            if d['optional']:
                if r.random() > 0.45:
                    continue
            elif r.random() < self.f['p_missing']:
                continue
            key = n
            al = sorted(d['alias'])
            if al and r.random() < 0.35:
                key = pick(r, al)
                if r.random() < 0.1:
                    out[n] = self.good(n, c['raws'].get(n, {}))
                elif len(al) > 1 and r.random() < 0.25:
                    for x in al:
                        out[x] = self.good(n, c['raws'].get(n, {}))
            out[key] = self.good(n, c['raws'].get(n, {}))
            if not noise and isinstance(out[key], str) and '[' in out[key]:
                out[key] = self.raw(n, allow_subst=False)
        if noise and self.slotinfo and self.chance('p_env'):
            # something is to be found in an object of the description, maybe also elsewhere
            s = pick(r, sorted(self.slotinfo))
            out['aux'] = ['o', s]
            theirs = [n for n in sorted(self.classes[self.slotinfo[s]['cls']]['foot'].attr)
                      if n not in c['foot'].attr and n in TEMPL and TEMPL[n]['type'] in ('str', 'int', 'Tok')]
            mine = [n for n in sorted(out) if n in TEMPL and TEMPL[n]['type'] == 'str']
            if theirs and mine:
                their = pick(r, theirs)
                out[pick(r, mine)] = pick(r, ['[{}]', 'y-[{}]', '[{}]_[{}]']).replace('{}', their)
                self.envuse.append((s, their, sid, out))
        if noise and self.slotinfo and self.chance('p_path'):
            # something is reached through an object of the description
            s = pick(r, sorted(self.slotinfo))
            their = self.classes[self.slotinfo[s]['cls']]
            via = pick(r, [n for n in ('src',) if n in c['foot'].attr] + ['aux'])
            mine = [n for n in sorted(out) if n in TEMPL and TEMPL[n]['type'] == 'str']
            if mine:
                out[via] = ['o', s]
                path = pick(r, sorted(n for n in their['foot'].attr if n in TEMPL and TEMPL[n]['type'] in SIMPLE) * 2 +
                            sorted(their['spec'].get('methods', {})) + ['note', 'realkind', 'nosuch', 'kind:upper'])
                out[pick(r, mine)] = pick(r, ['[{}:{}]', 'v[{}:{}]', '[{}::{}]-w', '[{}:{}%>4s]', '[{}:{}#zz]']).format(via, path)
        if noise:
            for x in EXTRA + [n for n in self.names if n not in c['foot'].attr]:
                if r.random() < self.f['p_extra'] * (1.0 if x in EXTRA else 0.3):
                    if x == 'aux':
                        if self.slotinfo and r.random() < 0.7:
                            out[x] = ['o', pick(r, sorted(self.slotinfo))]
                        else:
                            continue
                    elif x == 'xn':
                        out[x] = pick(r, [3, 7, '4'])
                    elif x in EXTRA:
                        out[x] = pick(r, ODD if self.chance('p_odd') else
                                      ['exa', 'alpha', 'q[num]' if r.random() < 0.2 else 'exb'])
                    else:
                        out[x] = self.raw(x, allow_subst=False)
            theirs = [k for k in sorted(out) if k in TEMPL and TEMPL[k]['type'] == 'str' and isinstance(out[k], str)]
            if theirs and self.chance('p_odd'):
                # the same thing, said another way
                k = pick(r, theirs)
                out['xa'], out[k] = out[k], '[xa]'
            if out and r.random() < .03:
                # names differ by their case
                k = pick(r, sorted(out))
                out[k.upper()] = out[k] if r.random() < .5 else out.pop(k)
        return out

    def pick_class(self, concrete=True):
        cs = [s for s in self.order if not (concrete and self.classes[s]['spec'].get('abstract'))]
        return pick(self.r, cs) if cs else None

    def tagof(self, sid):
        t = pick(self.r, self.classes[sid]['tags'])
        if t in TEMPL:
            t = self.classes[sid]['tags'][0]
        return t

    def newslot(self):
        r = self.r
        if self.slotinfo and r.random() < 0.15:
            return pick(r, sorted(self.slotinfo))
        self.nslot += 1
        return 's{:d}'.format(self.nslot)

    def fault(self, what):
        r = self.r
        p = self.p
        if r.random() >= p['p_fault']:
            return None
        k = pick(r, p['faults'])
        if k == 'int':
            return dict(k='int', frac=round(r.random(), 4))
        if k == 'sweep':
            if self.nsweep >= p['maxsweep']:
                return dict(k='int', frac=round(r.random(), 4))
            self.nsweep += 1
            if r.random() < 0.35:
                return dict(k='sweep', hooks=True, exc=pick(r, CAUGHT))
            stride = pick(r, [1, 3, 7, 17])
            return dict(k='sweep', stride=stride, off=r.randrange(stride), max=p['sweepmax'])
        if k == 'hook':
            return dict(k='hook', hook=pick(r, p['fkinds']), n=pick(r, [1, 1, 1, 2, 2, 3, 4, 6]),
                        exc=pick(r, CAUGHT))
        if k == 'gc':
            return dict(k='gc', frac=round(r.random(), 4))
        if k == 'switch':
            if what not in ('load', 'find'):
                return None
            return dict(k='switch', n=pick(r, [1, 1, 2, 3, 5]), val=self.defaults_val(r.randint(0, 3)))
        if k == 'drop':
            if not self.slotinfo:
                return None
            return dict(k='drop', frac=round(r.random(), 4), slot=pick(r, sorted(self.slotinfo)))
        if k == 'droptgt':
            return dict(k='droptgt', frac=round(r.random(), 4), t=pick(r, ['t1', 't2', 't3']))
        raise HarnessError(k)

    # ---------------------------------------------------------------- ops ----

    def add(self, op, what=None):
        f = self.fault(what or op['op'])
        if f:
            op['fault'] = f
            mine = [k for k in sorted(op.get('desc', ())) if k in TEMPL and TEMPL[k]['type'] == 'str']
            if f['k'] == 'switch' and mine and self.r.random() < .4:
                # what is switched matters
                x = pick(self.r, ['xa', 'xb'])
                op['desc'].pop(x, None)
                op['desc'][pick(self.r, mine)] = pick(self.r, ['[{}]', 'v-[{}]']).format(x)
                f['val'][x] = pick(self.r, ['alpha', 'beta', 'dxc'])
        self.ops.append(op)

    def g_load(self):
        r = self.r
        sid = self.pick_class()
        if sid is None:
            return
        entry = pick(r, self.p['entries'])
        op = dict(op='load', entry=entry, tag=self.tagof(sid), desc=self.desc_for(sid))
        if entry == 'almost':
            if not self.slotinfo:
                op['entry'] = 'coll'
            else:
                op['src'] = pick(r, sorted(self.slotinfo))
                op['desc'] = {k: v for k, v in op['desc'].items() if r.random() < 0.3}
        if r.random() < self.p['hidden'] and entry not in ('almost',):
            op['hidden'] = pick(r, [{'_report': False}, {'_emptywarning': False}, {'_foo': 1},
                                    {'_report_style': pick(r, [0, 1, 2, 3])}])
        if op['entry'] == 'almost' and r.random() < 0.5:
            op['spoil'] = True
        if r.random() < 0.15:
            op['keep'] = True
        if op['entry'] == 'coll' and self.p['p_cache'] and r.random() < self.p['p_cache']:
            op['first'] = self.desc_for(self.pick_class())
            if 'desc' in op and r.random() < 0.5:
                op['first'].update({k: v for k, v in op['desc'].items() if isinstance(v, list) and v[0] == 'o'})
        if r.random() < 0.03 and self.slotinfo:
            op['desc'][op['tag'].lower().rstrip('s')] = ['o', pick(r, sorted(self.slotinfo))]
        elif r.random() < 0.03:
            op['desc'][op['tag'].lower().rstrip('s')] = None
        slot = self.newslot() if r.random() < 0.85 else None
        if slot:
            op['slot'] = slot
        if 'first' in op:
            self.ops.append(op)
        else:
            self.add(op)
        if slot and self.likely(op, sid):
            self.slotinfo[slot] = dict(cls=sid, desc=op['desc'], tag=op['tag'])

    def g_find(self):
        sid = self.pick_class()
        if sid is None:
            return
        how = pick(self.r, ['all', 'all', 'best', 'any'])
        op = dict(op='find', how=how, tag=self.tagof(sid), desc=self.desc_for(sid))
        if how != 'all' and self.r.random() < 0.6:
            op['slot'] = self.newslot()
        self.add(op)
        if op.get('slot') and self.likely(op, sid):
            self.slotinfo[op['slot']] = dict(cls=sid, desc=op['desc'], tag=op['tag'])

    def g_build(self):
        sid = self.pick_class(concrete=self.r.random() < 0.95)
        if sid is None:
            return
        slot = self.newslot()
        op = dict(op='build', cls=sid, desc=self.desc_for(sid), slot=slot)
        if self.r.random() < 0.2:
            op['pos'] = True
        if self.r.random() < 0.3:
            op['keep'] = True
        self.add(op)
        if self.likely(op, sid) and not self.classes[sid]['spec'].get('abstract'):
            self.slotinfo[slot] = dict(cls=sid, desc=op['desc'], tag=self.tagof(sid))

    def someslot(self):
        return pick(self.r, sorted(self.slotinfo)) if self.slotinfo else None

    def g_write(self):
        s = self.someslot()
        if s is None:
            return
        c = self.classes[self.slotinfo[s]['cls']]
        if not c['foot'].attr:
            return
        names = sorted(c['foot'].attr, key=list(TEMPL).index)
        n = pick(self.r, names)
        op = dict(op='write', slot=s, attr=n, val=self.good(n, c['raws'].get(n, {})))
        if self.r.random() < 0.04:
            op['forge'] = pick(self.r, ['none', 'wrong', 'name'])
        self.add(op)

    def g_rewrite(self):
        """Write an attribute that was used in a previous description, then use the same description again."""
        use = [u for u in self.envuse if u[0] in self.slotinfo]
        if not use:
            return
        s, n, sid, desc = pick(self.r, use)
        c = self.classes[self.slotinfo[s]['cls']]
        if n not in c['foot'].attr:
            return
        self.ops.append(dict(op='write', slot=s, attr=n, val=self.good(n, c['raws'].get(n, {}))))
        op = dict(op='load', entry='coll', tag=self.tagof(sid), desc=copy.deepcopy(desc), slot=self.newslot())
        self.ops.append(op)
        if self.pleased(sid, desc):
            self.slotinfo[op['slot']] = dict(cls=sid, desc=op['desc'], tag=op['tag'])

    def g_delattr(self):
        s = self.someslot()
        if s is None:
            return
        c = self.classes[self.slotinfo[s]['cls']]
        names = sorted(c['foot'].attr, key=list(TEMPL).index)
        if names:
            op = dict(op='delattr', slot=s, attr=pick(self.r, names))
            if self.r.random() < 0.06:
                op['forge'] = True
            self.add(op)

    def g_note(self):
        s = self.someslot()
        if s:
            self.ops.append(dict(op='note', slot=s, val=pick(self.r, ['n1', 5, 0, '', ['l', [1, 'a']], ['FL', [2]]])))

    def g_clone(self):
        s = self.someslot()
        if s is None:
            return
        c = self.classes[self.slotinfo[s]['cls']]
        extra = {}
        for n in sorted(c['foot'].attr, key=list(TEMPL).index):
            if self.r.random() < 0.25:
                extra[n] = self.good(n, c['raws'].get(n, {}))
        if self.r.random() < 0.12:
            # what was left unset remains so in the clone, whatever the settings say now
            unset = [n for n, d in sorted(c['foot'].attr.items()) if d['optional'] and n not in self.slotinfo[s]['desc'] and
                     n not in extra and TEMPL[n]['type'] in ('str', 'int', 'float')]
            if unset:
                n = pick(self.r, unset)
                v = self.good(n, c['raws'].get(n, {}))
                if v not in (None, 'None'):
                    self.defaults[n] = True
                    self.ops.append(dict(op='setup', what='defaults_upd', val={n: v}, via=pick(self.r, ['set', 'update', 'call'])))
        to = self.newslot()
        op = dict(op='clone', slot=s, extra=extra, to=to)
        if self.r.random() < 0.4:
            op['full'] = True
        if self.r.random() < 0.3:
            op['keep'] = True
        self.add(op)
        self.slotinfo[to] = dict(self.slotinfo[s])

    def g_copy(self):
        s = self.someslot()
        if s is None:
            return
        to = self.newslot()
        how = pick(self.r, ['copy', 'deepcopy', 'pickle'])
        op = dict(op='copy', how=how, slot=s, to=to)
        if how != 'copy' and self.r.random() < 0.3:
            op['spoil'] = True
        if how == 'pickle':
            op['proto'] = pick(self.r, [2, 3, 4, 5])
        self.add(op)
        self.slotinfo[to] = dict(self.slotinfo[s])

    def g_export(self):
        s = self.someslot()
        if s is None:
            return
        op = dict(op='export', slot=s, how=pick(self.r, ['dict', 'dict', 'shallow', 'export', 'undefs', 'has', 'vals']))
        if op['how'] == 'has':
            op['attr'] = pick(self.r, self.names)
        self.add(op)

    def g_save(self):
        s = self.someslot()
        if s is None:
            return
        f = pick(self.r, ['f1', 'f2', 'f3'])
        self.add(dict(op='save', slot=s, file=f, proto=pick(self.r, [2, 4, 5])), 'copy')
        self.files.append((f, s))

    def g_restore(self):
        if not self.files:
            return
        f, s = pick(self.r, self.files)
        if s not in self.slotinfo:
            return
        to = self.newslot()
        op = dict(op='restore', file=f, to=to)
        if self.r.random() < 0.15:
            op['torn'] = round(self.r.random() * 0.97, 3)
        self.add(op, 'copy')
        self.slotinfo[to] = dict(self.slotinfo[s])

    def g_drop(self):
        s = self.someslot()
        if s:
            self.ops.append(dict(op='drop', slot=s))
            del self.slotinfo[s]

    def g_gc(self):
        self.ops.append(dict(op='gc'))

    def g_tgt(self):
        self.ops.append(dict(op='tgt', t=pick(self.r, ['t1', 't2', 't3'])))

    def g_droptgt(self):
        self.ops.append(dict(op='droptgt', t=pick(self.r, ['t1', 't2', 't3'])))

    def g_grep(self):
        r = self.r
        s = self.someslot()
        kw = {}
        if s and r.random() < 0.8:
            c = self.classes[self.slotinfo[s]['cls']]
            for n in sorted(c['foot'].attr, key=list(TEMPL).index):
                if r.random() < 0.35:
                    v = self.slotinfo[s]['desc'].get(n, self.good(n, c['raws'].get(n, {})))
                    if TEMPL[n]['type'] in ('Tok', 'TokB') and isinstance(v, str) and not v.startswith('bad'):
                        v = ['T', v]
                    if TEMPL[n]['type'] == 'int' and isinstance(v, str) and v.isdigit():
                        v = int(v)
                    kw[n] = v
        else:
            for n in self.names:
                if r.random() < 0.3:
                    kw[n] = self.raw(n, allow_subst=False)
        if r.random() < 0.2:
            kw['realkind'] = pick(r, ['footprintbase', 'footprintbase', 'other'])
        if r.random() < 0.15:
            kw['note'] = pick(r, ['n1', 5, 'cn1'])
        if r.random() < 0.03:
            kw['nosuchthing'] = pick(r, [1, None])
        if kw and r.random() < 0.08:
            kw[pick(r, sorted(kw))] = None
        elif r.random() < 0.05:
            kw = {pick(r, self.names): None}
        op = dict(op='grep', kw=kw)
        sid = self.pick_class()
        if sid and r.random() < 0.75:
            op['tag'] = self.tagof(sid)
        self.add(op)

    def g_default(self):
        r = self.r
        s = self.someslot()
        if s and r.random() < self.p['p_reuse'] + 0.3:
            info = self.slotinfo[s]
            desc = {k: v for k, v in info['desc'].items()}
            if r.random() < 0.25 and desc:
                k = pick(r, sorted(desc))
                if r.random() < 0.5:
                    del desc[k]
                elif k in TEMPL:
                    desc[k] = self.raw(k)
            elif r.random() < 0.08 and info['cls'] in self.classes:
                # an undefined value is not what an improper one stands for
                c = self.classes[info['cls']]
                free = [k for k, d in c['foot'].attr.items() if d['access'].startswith('rw') and not d['values'] and
                        TEMPL[k]['type'] in ('int', 'float', 'Tok', 'TokB')]
                if free:
                    k = pick(r, sorted(free))
                    self.ops.append(dict(op='write', slot=s, attr=k, val=None))
                    desc[k] = pick(r, ['improper', 'None'])
            tag = info['tag']
        else:
            sid = self.pick_class()
            if sid is None:
                return
            desc, tag = self.desc_for(sid), self.tagof(sid)
        op = dict(op='default', tag=tag, desc=desc, entry=pick(r, ['coll', 'coll', 'module']))
        if r.random() < .06:
            # something is already there
            op['desc'] = dict(desc)
            op['desc'][tag.lower().rstrip('s')] = (['o', pick(r, sorted(self.slotinfo))]
                                                   if self.slotinfo and r.random() < .7 else None)
        slot = self.newslot()
        op['slot'] = slot
        self.add(op)
        sid = self.slotinfo[s]['cls'] if s else self.pick_class()
        self.slotinfo[slot] = dict(cls=sid, desc=desc, tag=tag)

    def g_cls(self):
        f = None
        r = self.r
        if self.p['p_fault'] and r.random() < self.p['p_fault'] and 'hook' in self.p['faults']:
            f = dict(k='hook', hook=pick(r, ['cast', 'deco'] + ['repr'] * self.docs), n=pick(r, [1, 1, 2, 3]), exc=pick(r, CAUGHT))
        twin = pick(r, self.order) if self.order and self.chance('p_twin') else None
        self.cls(f, twin)

    def g_fp(self):
        r = self.r
        name = 'F{:d}'.format(len(self.fps) + 1)
        names = sorted(r.sample(self.names, r.randint(1, len(self.names))), key=list(TEMPL).index)
        if r.random() < 0.15:
            names = []      # restrictions, a level... but no attribute
        parts = [self.part(names)]
        if not names and self.f['p_only'] and 'only' not in parts[0] and r.random() < 0.7:
            o = self.only()
            if o:
                parts[0]['only'] = o
        if self.fps and r.random() < 0.3:
            parts.insert(0, ['F', pick(r, sorted(self.fps))])
        if self.dicts and r.random() < 0.4:
            parts.insert(r.randint(0, len(parts)), ['D', pick(r, sorted(self.dicts))])
        try:
            self.fps[name] = fm.MFoot([self.mpart(p) for p in parts])
        except (fm.MErr, Skip):
            pass
        op = dict(op='fp', name=name, parts=parts)
        if r.random() < self.f['p_deco']:
            op['deco'] = True
        self.ops.append(op)

    def g_dict(self):
        r = self.r
        name = 'D{:d}'.format(len(self.dicts) + 1)
        names = sorted(r.sample(self.names, r.randint(1, len(self.names))), key=list(TEMPL).index)
        part = self.part(names)
        try:
            self.dicts[name] = dec_part(part, self.w, 'm')
        except Skip:
            return
        self.ops.append(dict(op='dict', name=name, part=part))

    def level(self):
        if self.r.random() < .06:
            return 'NOSUCH'
        return pick(self.r, self.w.prio)

    def g_reg(self):
        r = self.r
        sid = self.pick_class()
        if sid is None:
            return
        tag = self.tagof(sid)
        how = pick(r, self.p.get('reghow') or ['discard', 'discard', 'add', 'discard_package', 'reset_level', 'reset_level',
                                               'pop', 'clear', 'discard_onflag', 'discard_higher', 'discard_lower',
                                               'register'])
        if how in ('clear', 'pop', 'discard_package', 'discard_onflag', 'discard_higher', 'discard_lower') and r.random() < 0.5:
            how = 'add'
        op = dict(op='reg', how=how, tag=tag)
        if how == 'register':
            op['val'] = r.random() < .6
        if how in ('discard', 'add'):
            op['cls'] = sid
        self.fill_query(op)
        if how in ('discard_package', 'discard_onflag'):
            op['verbose'] = r.random() < 0.5
        self.ops.append(op)
        if how == 'clear' and r.random() < .6:
            # some of the classes come back
            sids = [s for s in self.order if s in self.classes and self.tagof(s) == tag]
            for s in r.sample(sids, min(len(sids), r.randint(1, 2))):
                self.ops.append(dict(op='reg', how='add', tag=tag, cls=s))
            for s in sids[:2]:
                self.ops.append(dict(op='find', how='all', tag=tag, desc=self.desc_for(s)))

    def fill_query(self, op):
        r = self.r
        how = op['how']
        if 'package' in how or how == 'reset_level':
            op['pack'] = pick(r, ['simcls', 'simpkg', 'simpkg.alpha', 'simpkg.alphabet', 'simpkg.beta.', 'zzz',
                                  'simcls.Alpha', 'simcls_ext', 'alpha', 'Alpha', 'pkg', 'cls', 'Same'])
        if 'onflag' in how:
            op['flag'] = pick(r, ['footprint_reusable', 'footprint_reusable', 'footprint_abstract', 'footprint_level',
                                  'footprint_clskind', 'no_such_flag'])
            op['val'] = {'footprint_reusable': pick(r, [True, False]), 'footprint_abstract': pick(r, [True, False]),
                         'footprint_level': self.level(), 'footprint_clskind': 'alphac1'}.get(op['flag'], True)
        if 'higher' in how or 'lower' in how or how in ('reset_level', 'reset_package', 'prios'):
            op['level'] = self.level()
            op['aslevel'] = pick(r, [None, True, False])

    def g_query(self):
        r = self.r
        sid = self.pick_class()
        how = pick(r, ['filter_package', 'filter_onflag', 'filter_higher', 'filter_lower', 'get_values',
                       'attrmap', 'proxy', 'collected', 'objectsmap', 'reset_package', 'prios', 'cat', 'objects', 'shows',
                       'fpcopy'] if 'queries' not in self.p else self.p['queries'])
        op = dict(op='query', how=how)
        if how == 'fpcopy':
            op['cls'] = sid
            op['keys'] = r.sample(sorted(TEMPL), 4) + ['nokey']
        if how not in ('collected', 'objectsmap', 'reset_package', 'prios', 'cat', 'objects', 'fpcopy'):
            if sid is None:
                return
            op['tag'] = self.tagof(sid)
        self.fill_query(op)
        if how == 'get_values':
            some = [k for c in self.classes.values() for k, d in sorted(c['foot'].attr.items()) if len(d['values']) > 1]
            op['attr'] = pick(r, some) if some and r.random() < .8 else pick(r, self.names)
        if how == 'cat':
            op['short'] = r.random() < 0.5
        if how == 'shows' and r.random() < 0.5:
            op['only'] = r.sample(self.names, r.randint(0, len(self.names)))
        if how == 'attrmap' and r.random() < 0.5:
            op['only'] = r.sample(self.names, r.randint(0, len(self.names)))
            op['asset'] = pick(r, [True, False, 2, 3])
        if how == 'attrmap' and r.random() < .2:
            op['given'] = r.sample(self.names, min(len(self.names), r.randint(0, 2))) + ['older']
        self.ops.append(op)

    def g_again(self):
        """The same request once more, after some changes."""
        r = self.r
        seen = [op for op in self.ops if op['op'] in ('load', 'find', 'default', 'grep', 'query', 'couldbe', 'view')
                and 'fault' not in op and 'first' not in op]
        if not seen:
            return
        op = copy.deepcopy(pick(r, seen))
        between = [k for k in ('cls', 'reg', 'prio', 'setup', 'write') if self.p['ops'].get(k)]
        tag = op.get('tag')
        if tag and {'cls', 'reg'} <= set(between) and r.random() < .35:
            # a class goes and another one comes
            sids = [s for s in self.order if s in self.classes and self.tagof(s) == tag and not self.classes[s]['spec'].get('abstract')]
            if sids:
                self.ops.append(dict(op='reg', how='discard', tag=tag, cls=pick(r, sids)))
                self.g_cls()
        elif between:
            for _ in range(r.choice([0, 1, 1, 2])):
                getattr(self, 'g_' + pick(r, between))()
        if op.get('slot'):
            old = op['slot']
            op['slot'] = self.newslot()
            if old in self.slotinfo:
                self.slotinfo[op['slot']] = dict(self.slotinfo[old])
        self.ops.append(op)

    def g_newsetup(self):
        r = self.r
        kw = {}
        if r.random() < .5:
            kw['extended'] = r.random() < .5
        if r.random() < .3:
            kw['fastmode'] = r.random() < .5
        if r.random() < .3:
            kw['report'] = pick(r, [0, 1, 2])
        op = dict(op='newsetup', tag=pick(r, ['u1', 'u2']), kw=kw, defaults={})
        if r.random() < .6:
            known = set(self.defaults)
            op['defaults'] = self.defaults_val(r.randint(1, 2))
            self.defaults = {k: True for k in self.defaults if k in known}
        self.ops.append(op)

    def g_add_proxy(self):
        r = self.r
        op = dict(op='add_proxy', name=pick(r, ['p1', 'p2']))
        if r.random() < 0.2:
            tag = self.tags[0].lower().rstrip('s')
            op['busy'] = pick(r, [[tag], [tag + 's'], [tag, tag + 's']])
        if r.random() < 0.2:
            op['clear'] = True
        self.ops.append(op)

    def g_check_proxies(self):
        self.ops.append(dict(op='check_proxies'))

    def g_fasttrack(self):
        r = self.r
        sid = self.pick_class()
        if sid is None:
            return
        keys = r.sample(self.names, r.randint(0, min(3, len(self.names))))
        if r.random() < 0.1:
            keys.append('nosuchattr')
        self.ops.append(dict(op='fasttrack', tag=self.tagof(sid), keys=keys, aslist=r.random() < 0.3))

    def defaults_val(self, n):
        r = self.r
        simple = [n for n in self.names if TEMPL[n]['type'] in ('str', 'int', 'float', 'Tok')] + ['xa', 'xb']
        val = {}
        for k in r.sample(simple, min(n, len(simple))):
            v = self.raw(k) if k in TEMPL else pick(r, ODD if self.chance('p_odd') else ['dxa', 'dxb', '[kind]'])
            if v in (None, 'None'):
                continue
            if r.random() < .06:
                v = dict(str='', int=0, float=0.0).get(TEMPL[k]['type'] if k in TEMPL else 'str', v)
            val[k.upper() if r.random() < 0.2 else k] = v
        for k in val:
            self.defaults[k.lower()] = True
        return val

    def g_setup(self):
        r = self.r
        what = pick(r, self.p.get('setups') or ['defaults', 'defaults_upd', 'defaults_upd', 'defaults_del', 'extended',
                                                'fastmode', 'fastkeys', 'callback', 'report', 'style',
                                                'defaults_keep', 'defaults_back', 'fatal', 'docs', 'shortnames'])
        op = dict(op='setup', what=what)
        if what in ('defaults', 'defaults_upd'):
            val = self.defaults_val(r.randint(0 if what == 'defaults' else 1, 3))
            op['val'] = val
            op['via'] = pick(r, ['set', 'update', 'call'])
            if what == 'defaults' and r.random() < 0.3:
                op['lower'] = True
            if what == 'defaults' and r.random() < 0.3:
                op['spoil'] = pick(r, [1, 2])
            if what == 'defaults_upd' and not val:
                return
        elif what in ('defaults_keep', 'defaults_back'):
            op['val'] = pick(r, ['k1', 'k2'])
        elif what == 'defaults_del':
            if not self.defaults:
                return
            op['val'] = pick(r, sorted(self.defaults))
        elif what == 'docs':
            op['val'] = pick(r, [0, 1, 1, 2, 2, 3])
            self.docs = 4 * bool(op['val'])
        elif what == 'shortnames':
            op['val'] = r.random() < .5
        elif what == 'fatal':
            op['val'] = r.random() < 0.4
        elif what == 'extended':
            op['val'] = pick(r, [True, False, True, False, None, 0, 1])
        elif what == 'fastmode':
            op['val'] = r.random() < 0.4
        elif what == 'fastkeys':
            op['val'] = r.sample(self.names, r.randint(0, min(2, len(self.names))))
        elif what == 'callback':
            if r.random() < 0.15 or not self.p['callback']:
                op['val'] = None
            else:
                n = 1 if pick(r, self.p['callback']) == 'steady' else r.randint(2, 4)
                strs = [x for x in self.names if TEMPL[x]['type'] == 'str']
                if self.chance('p_env'):
                    pool, most = strs + ['xa'], 5
                else:
                    pool, most = EXTRA[:3] + strs, 3
                keys = r.sample(pool, r.randint(1, min(len(pool), most)))
                vals = []
                for i in range(n):
                    vals.append({k: (i + 1 if k == 'xn' else 'cb{:d}{:s}'.format(i, k)) for k in keys})
                    if self.chance('p_odd'):
                        k = pick(r, sorted(vals[-1]))
                        vals[-1][k] = pick(r, ODD) if k != 'xn' else vals[-1][k]
                    if r.random() < .12:
                        # nothing wrong with that
                        k = pick(r, keys)
                        vals[-1][k] = 0 if k == 'xn' else pick(r, ['', 0, False])
                op['val'] = vals
                op['same'] = r.random() < 0.5
        elif what == 'report':
            op['val'] = pick(r, self.p['report'])
            sid = self.pick_class()
            if sid and r.random() < 0.8:
                op['tag'] = self.tagof(sid)
        elif what == 'style':
            op['val'] = pick(r, [0, 1, 2, 3])
            sid = self.pick_class()
            if sid is None:
                return
            op['tag'] = self.tagof(sid)
        self.ops.append(op)

    def g_clock(self):
        self.ops.append(dict(op='clock', us=pick(self.r, [0, 1, 1000, 10 ** 6, 10 ** 10, -1000, -10 ** 9])))

    def g_prio(self):
        r = self.r
        p = self.w.prio
        how = pick(r, ['up', 'down', 'top', 'bottom', 'rerank', 'insert', 'insert', 'remove', 'freeze', 'restore', 'class'])
        op = dict(op='prio', how=how)
        if how in ('up', 'down', 'top', 'bottom', 'rerank', 'remove'):
            op['level'] = pick(r, p)
            if how == 'rerank':
                op['n'] = pick(r, [-2, -1, 0, 1, 2, 5])
        elif how == 'insert':
            op['level'] = pick(r, NEWLEV + p)
            op['ref'] = pick(r, p)
            op['after'] = r.random() < 0.5
            op['mod'] = r.random() < 0.4
            if op['ref'] != op['level'] and op['level'] not in p:
                p.append(op['level'])
                self.lowlev.append(op['level'])
        elif how in ('freeze', 'restore'):
            op['name'] = pick(r, ['fr1', 'fr2'])
        elif how == 'class':
            sid = self.pick_class()
            if sid is None:
                return
            op['cls'] = sid
            op['level'] = pick(r, p)
        self.ops.append(op)

    def generate(self):
        r = self.r
        p = self.p
        if p['ops']['tgt'] and 'tgt' in self.names:
            for t in ('t1', 't2', 't3'):
                self.ops.append(dict(op='tgt', t=t))
        if self.chance('p_docs'):
            # the documentation of everything is built
            self.docs = 4
            self.ops.append(dict(op='setup', what='docs', val=pick(r, [1, 2, 2, 3])))
        if self.chance('p_docs'):
            self.ops.append(dict(op='setup', what='shortnames', val=True))
        for _ in range(r.randint(*p['ncls'])):
            if p['ops']['dict'] and r.random() < 0.3:
                self.g_dict()
            if p['ops']['fp'] and r.random() < 0.4:
                self.g_fp()
            self.g_cls()
        table = []
        for k, wgt in p['ops'].items():
            if wgt and r.random() < 0.85:
                table.append((k, wgt * r.choice([0.5, 1, 1, 2])))
        if not any(k in ('load', 'build', 'find') for k, _ in table):
            table.append(('load', 5))
        tot = sum(w for _, w in table)
        n = r.randint(*p['nops'])
        goal = len(self.ops) + n
        guard = 0
        while len(self.ops) < goal and guard < 10 * n + 50:
            guard += 1
            if self.chance('p_again'):
                self.g_again()
                continue
            x = r.random() * tot
            for k, wgt in table:
                x -= wgt
                if x <= 0:
                    break
            getattr(self, 'g_' + k)()
        return dict(ops=self.ops, cfg=dict(salt=r.randrange(1 << 30), redef=self.p['redef']))


def generate(rng, prof):
    return Gen(rng, prof).generate()
