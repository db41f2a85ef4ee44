"""Which world decides which property."""

import agree
import cases
import conc
import core
import cycles
import expansion
import prio
import reports
import simtypes as st
from regen import BASE, generate, profile
from registry import Registry

ALWAYS = ('hang', 'observe')
ENTRIES = ('coll', 'coll', 'module', 'proxy', 'pickup', 'mpickup', 'almost')


class World:
    """A kind of simulation."""

    name = None

    def __init__(self, prop, own=None):
        self.prop = prop
        self.own = None if own is None else tuple(own) + ALWAYS

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, plan, ctx, inp=None):
        raise NotImplementedError

    def size(self, plan):
        return len(plan.get('ops', ()))

    def nstages(self, plan):
        return len(cases.stages(None, plan, 0))


class RegWorld(World):
    name = 'registry'

    def __init__(self, prop, prof, own, armed=True):
        super().__init__(prop, own)
        self.prof = prof
        self.armed = armed

    def gen(self, rng, tier):
        return generate(rng, self.prof)

    def run(self, plan, ctx, inp=None):
        st.Salt.value = plan.get('cfg', {}).get('salt', 0)
        ctx.armed = self.armed
        world = Registry(plan, ctx)
        try:
            world.run()
        finally:
            ctx.outcomes = world.outcomes
            ctx.nontrivial = ctx.count.get('loaded', 0) + ctx.count.get('built', 0) > 0


class ReportWorld(RegWorld):
    """The registry world, with a model of the reports."""
    name = 'reports'

    def gen(self, rng, tier):
        return reports.generate(rng, self.prof)

    def run(self, plan, ctx, inp=None):
        st.Salt.value = plan.get('cfg', {}).get('salt', 0)
        ctx.armed = self.armed
        world = reports.ReportRegistry(plan, ctx)
        try:
            world.run()
        finally:
            ctx.outcomes = world.outcomes
            ctx.nontrivial = ctx.count.get('entries', 0) > 0


class AgreeWorld(RegWorld):
    """The same history, several times: everything must be the same."""
    name = 'agree'

    def __init__(self, prop, prof):
        super().__init__(prop, prof, None)
        self.own = ('hash',)

    def gen(self, rng, tier):
        return agree.generate(rng, self.prof)

    def nstages(self, plan):
        return plan['variants']

    def run(self, plan, ctx, inp=None):
        agree.run(plan, ctx)


class ConcWorld(RegWorld):
    """Threads and nested calls."""
    name = 'threads'

    def gen(self, rng, tier):
        return conc.generate(rng, self.prof)

    def size(self, plan):
        return len(plan['ops']) + sum(len(x) for x in plan['threads'])

    def run(self, plan, ctx, inp=None):
        st.Salt.value = plan.get('cfg', {}).get('salt', 0)
        world = conc.ConcRegistry(plan, ctx)
        try:
            world.run()
        finally:
            ctx.outcomes = world.outcomes
            ctx.nontrivial = ctx.count.get('compared', 0) > 1


class LivesWorld(RegWorld):
    """The process is restarted: only what was saved on disk survives."""
    name = 'lives'

    def gen(self, rng, tier):
        plan = generate(rng, self.prof)
        plan['multi'] = 'lives'
        plan['lives'] = 2
        r = rng
        files = sorted({o['file'] for o in plan['ops'] if o['op'] == 'save'})
        second = []
        for f in files:
            if r.random() < 0.9:
                op = dict(op='restore', file=f, to='r_' + f)
                if r.random() < 0.2:
                    op['torn'] = round(r.random() * 0.97, 3)
                second.append(op)
                if 'torn' not in op:
                    for _ in range(r.randint(1, 3)):
                        k = r.choice(['copy', 'copy', 'clone', 'save', 'restore', 'grep', 'drop'])
                        to = r.choice(['r_' + f, 'x_' + f])
                        if k == 'copy':
                            second.append(dict(op='copy', how=r.choice(['copy', 'deepcopy', 'pickle']),
                                               slot='r_' + f, to=to))
                        elif k == 'clone':
                            second.append(dict(op='clone', slot='r_' + f, extra={}, to=to, full=r.random() < 0.5))
                        elif k == 'save':
                            second.append(dict(op='save', slot='r_' + f, file=f, proto=r.choice([2, 4, 5])))
                        elif k == 'restore':
                            second.append(dict(op='restore', file=f, to=to))
                        elif k == 'drop':
                            second.append(dict(op='drop', slot='x_' + f))
                        else:
                            second.append(dict(op='grep', kw={}))
        plan['second'] = second
        return plan

    def nstages(self, plan):
        return plan['lives']

    def size(self, plan):
        return len(plan['ops']) + len(plan['second'])

    def run(self, plan, ctx, inp=None):
        st.Salt.value = plan.get('cfg', {}).get('salt', 0) + plan['life']
        ctx.armed = self.armed
        if plan['life']:
            first = plan['ops']
            plan = dict(plan, ops=[o for o in first if o['op'] in ('dict', 'fp', 'cls') or
                                   (o['op'] == 'prio' and o['how'] == 'insert')] + plan['second'])
        world = Registry(plan, ctx)
        if inp:
            world.mount(inp)
            ctx.inc('fault:restart')
        try:
            world.run()
        finally:
            ctx.outcomes = world.outcomes
            ctx.nontrivial = ctx.count.get('op:save', 0) + ctx.count.get('op:restore', 0) > 0
        return world.unmount()


class PrioWorld(World):
    name = 'prio'

    def gen(self, rng, tier):
        return prio.gen(rng, tier)

    def run(self, plan, ctx, inp=None):
        prio.Prio(plan, ctx).run()
        ctx.nontrivial = any(k.startswith('op:') and k not in ('op:lookup', 'op:handle') for k in ctx.count)


class ExpandWorld(World):
    name = 'expand'

    def gen(self, rng, tier):
        return expansion.gen(rng, tier)

    def run(self, plan, ctx, inp=None):
        expansion.Expansion(plan, ctx).run()
        ctx.nontrivial = ctx.count.get('results', 0) > 1


class CycleWorld(World):
    name = 'cycles'

    def gen(self, rng, tier):
        return cycles.gen(rng, tier)

    def run(self, plan, ctx, inp=None):
        cycles.Cycles(plan, ctx).run()
        ctx.nontrivial = any(p[0] != 'lit' for t in plan['text'].values() for p in t)


def _registry():
    """The worlds of each property: {property: [(weight, id, world)]}"""
    out = {}

    def add(prop, weight, wid, world):
        out.setdefault(prop, []).append((weight, wid, world))

    everything = profile(ops=dict(newsetup=.3, fasttrack=1, save=1, restore=1, note=1, fp=1, dict=1, add_proxy=1, check_proxies=1,
                                  droptgt=1, clock=1), p_shared=.3, p_deco=.2, p_fault=.3)
    add('ALL', 1, 'all', RegWorld('ALL', everything, None))
    # ---- P01: which class is chosen
    hist = dict(load=10, find=4, build=2, write=1, delattr=0, clone=0, copy=0, drop=1, gc=.3, cls=3, reg=3, prio=3,
                setup=3, grep=0, default=1, query=.5, tgt=.5)
    add('P01', 3, 'history', RegWorld('P01', profile(ncls=(3, 7), ops=hist, p_twin=.4, p_level=.5, p_cache=.08,
                                                     entries=ENTRIES + ('userproxy',)),
                                      ('select', 'raise', 'weight')))
    add('P01', 1, 'failures', RegWorld('P01', profile(
        ncls=(3, 6), ops=hist, p_twin=.4, p_level=.5, p_fault=.25, faults=('int', 'hook')),
        ('select', 'raise', 'weight')))
    add('P01', 1, 'wide', RegWorld('P01', profile(
        ncls=(4, 9), ops=dict(hist, fp=1, dict=1, add_proxy=.5, note=1, query=1), p_shared=.3, ntags=(1, 4), p_bases=.6,
        entries=ENTRIES + ('userproxy',)),
        ('select', 'raise', 'weight')))

    # ---- P02: which values
    vals = dict(load=10, find=4, build=8, write=1, delattr=.5, clone=1, copy=.5, drop=1, cls=1, reg=.5, prio=.5,
                setup=3, grep=0, default=1, query=0, note=.5)
    own2 = ('value', 'select', 'raise', 'attrs')
    add('P02', 3, 'values', RegWorld('P02', profile(
        ncls=(1, 3), attrs=(3, 7), ops=vals, p_cache=.05, p_subst=.45, p_remap=.4, p_values=.55, p_outcast=.3, p_alias=.5,
        p_methods=.6, p_obj=.6, p_path=.2), own2))
    add('P02', 2, 'environment', RegWorld('P02', profile(
        ncls=(2, 4), attrs=(4, 7), ops=dict(vals, setup=6, rewrite=3), p_env=.6, p_cache=.2, p_subst=.4, p_extra=.4, p_obj=.9, p_values=.2,
        setups=['callback', 'callback', 'callback', 'defaults_upd', 'defaults_upd', 'defaults_del', 'extended'],
        callback=('steady', 'vary'), p_methods=.4, p_remap=.2, p_path=.2), own2))
    add('P02', 1, 'restrict', RegWorld('P02', profile(
        ncls=(2, 4), attrs=(2, 5), ops=vals, p_only=.7, p_subst=.3, p_optional=.6), own2))
    add('P02', 1, 'failures', RegWorld('P02', profile(
        ncls=(1, 3), attrs=(2, 6), ops=vals, p_subst=.4, p_remap=.4, p_fault=.3, faults=('int', 'hook'),
        p_methods=.6, p_obj=.5), own2))

    # ---- P03: nothing depends on orders
    same = dict(load=10, find=6, build=4, write=1, delattr=.3, clone=.6, copy=.6, drop=.5, gc=.2, cls=3, reg=1, prio=1,
                setup=2, grep=1, default=1, query=2, tgt=.2, fasttrack=.5, hash=2, fp=.5, dict=.3)
    regs3 = ['discard', 'add', 'discard_package', 'reset_level', 'discard_onflag', 'discard_higher', 'clear']
    for wid, w, more in (
            ('histories', 2, dict(ncls=(3, 7), p_twin=.3, p_level=.4, p_values=.5, p_alias=.5)),
            ('values', 2, dict(ncls=(1, 4), attrs=(3, 7), p_subst=.45, p_remap=.5, p_values=.7, p_outcast=.4, p_alias=.6,
                               p_methods=.4, p_obj=.4)),
            ('definitions', 1, dict(ncls=(3, 6), p_bases=.6, p_shared=.5, p_deco=.2, p_list=.3, p_level=.4, p_only=.4,
                                    ntags=(1, 3), attrs=(2, 6), p_remap=.4))):
        add('P03', w, wid, AgreeWorld('P03', profile(ops=same, nops=(6, 20), redef=False, reghow=regs3, callback=('steady',), **more)))

    # ---- P04: fast-track index
    fast = dict(load=8, find=8, build=.5, write=.5, delattr=0, clone=0, copy=0, drop=.5, cls=3, reg=3, prio=.5,
                setup=1, grep=0, default=.5, query=0, tgt=.3, fasttrack=3)
    own4 = ('select', 'raise', 'value')
    add('P04', 3, 'fasttrack', RegWorld('P04', profile(
        ncls=(3, 7), attrs=(1, 4), ops=fast, p_values=.8, p_remap=.3, p_alias=.4, p_twin=.4, p_optional=.3,
        p_subst=.2, p_extra=.2, p_odd=.15), own4))
    add('P04', 2, 'strict', RegWorld('P04', profile(
        ncls=(3, 8), attrs=(2, 3), ops=fast, p_values=.95, p_all=.9, p_optional=.05, p_remap=.05, p_alias=.3, p_twin=.3,
        p_subst=.1, p_extra=.1, p_bases=.1, p_args=.5, p_odd=.1, names=('kind', 'model', 'geo', 'num', 'date')), own4))
    add('P04', 1, 'failures', RegWorld('P04', profile(
        ncls=(3, 6), attrs=(1, 4), ops=fast, p_values=.8, p_twin=.3, p_optional=.3, p_fault=.25,
        faults=('int', 'hook')), own4))

    # ---- P05: tracking
    track = dict(load=5, find=1, build=5, write=3, delattr=1, clone=3, copy=4, drop=5, gc=1, cls=1, reg=.5, prio=0,
                 setup=.5, grep=5, default=1, query=1.5, tgt=1, droptgt=1.5, note=2, save=1, restore=1, fasttrack=.2)
    own5 = ('leak', 'track', 'grep')
    add('P05', 2, 'tracking', RegWorld('P05', profile(
        ops=track, queries=['objectsmap', 'objects'], p_obj=.8, p_methods=.2, ntags=(1, 3)), own5))
    add('P05', 3, 'deaths', RegWorld('P05', profile(
        ops=track, queries=['objectsmap', 'objects'], p_obj=.9, p_fault=.4, faults=('gc', 'drop', 'drop', 'droptgt', 'droptgt', 'int', 'hook')), own5))

    # ---- P06: default objects
    dflt = dict(load=5, find=0, build=4, write=2, delattr=1, clone=1, copy=1, drop=1, gc=.3, cls=1, reg=.5, prio=.5,
                setup=2, grep=0, default=10, query=0, tgt=.5, droptgt=.5)
    own6 = ('default', 'reuse', 'select', 'raise', 'value')
    add('P06', 3, 'default', RegWorld('P06', profile(ops=dflt, callback=('steady',), p_obj=.4), own6))
    add('P06', 1, 'failures', RegWorld('P06', profile(
        ops=dflt, callback=('steady',), p_fault=.3, p_obj=.4, faults=('int', 'hook', 'droptgt', 'drop', 'gc')), own6))

    # ---- P07: access rights
    acc = dict(load=3, find=0, build=6, write=12, delattr=4, clone=2, copy=3, drop=1, gc=.5, cls=1, reg=.2, prio=.2,
               setup=.5, grep=.3, default=.3, query=0, tgt=1.5, droptgt=1.5, note=1, save=.5, restore=.5,
               export=1)
    own7 = ('attrs', 'access', 'leak')
    add('P07', 3, 'access', RegWorld('P07', profile(
        ops=acc, ncls=(1, 3), p_values=.6, p_outcast=.4, p_obj=.7, p_deflt=.6,
        access=('rxx', 'rwx', 'rwx', 'rwd', 'rwd')), own7))
    add('P07', 2, 'failures', RegWorld('P07', profile(
        ops=acc, ncls=(1, 3), p_values=.6, p_outcast=.4, p_obj=.7, p_fault=.35,
        faults=('int', 'hook', 'gc', 'droptgt'), fkinds=('cast', 'riseup', 'init'),
        access=('rxx', 'rwx', 'rwx', 'rwd', 'rwd')), own7))

    # ---- P08: copies
    cop = dict(load=3, find=0, build=5, write=5, delattr=2, clone=6, copy=7, drop=2, gc=.5, cls=1, reg=.2, prio=0,
               setup=1, grep=1, default=.5, query=0, tgt=1, droptgt=.5, note=3, save=2, restore=2,
               export=4)
    own8 = ('copy', 'attrs', 'track', 'leak', 'grep')
    entries8 = ('coll', 'coll', 'pickup', 'almost', 'almost')
    access8 = ('rxx', 'rwx', 'rwx', 'rwd', 'rwd')
    add('P08', 3, 'copies', RegWorld('P08', profile(ops=cop, ncls=(1, 3), p_obj=.5, access=access8, p_cont=.7, entries=entries8), own8))
    add('P08', 1, 'failures', RegWorld('P08', profile(
        ops=cop, ncls=(1, 3), p_obj=.5, access=access8, p_cont=.6, entries=entries8, p_fault=.3, faults=('int', 'hook', 'gc', 'droptgt'),
        fkinds=('cast', 'riseup', 'init')), own8))
    add('P08', 2, 'restart', LivesWorld('P08', profile(
        ops=dict(cop, save=6, restore=0, note=3, copy=4, clone=3), ncls=(1, 3), p_obj=.4, access=access8, p_cont=.5, nops=(6, 14), redef=False), own8))

    # ---- P09: definitions
    defs = dict(load=3, find=1, build=2, write=.5, delattr=.2, clone=.3, copy=.3, drop=.5, cls=10, reg=2, prio=2,
                setup=1, grep=0, default=.3, query=1.5, fp=4, dict=3, tgt=.2)
    own9 = ('fp', 'registry', 'define', 'select', 'raise', 'value', 'prio', 'weight')
    add('P09', 3, 'definitions', RegWorld('P09', profile(
        ops=defs, queries=['fpcopy', 'fpcopy', 'get_values', 'attrmap', 'reset_package'], ncls=(3, 6), p_bases=.6, p_shared=.5, p_deco=.2, p_list=.3, p_docs=.3, p_bad=.15, p_level=.4, p_only=.4,
        ntags=(1, 3), attrs=(2, 6), p_remap=.4, p_abstract=.25), own9))
    add('P09', 1, 'failures', RegWorld('P09', profile(
        ops=defs, queries=['fpcopy', 'fpcopy', 'get_values', 'attrmap', 'reset_package'], ncls=(3, 6), p_bases=.6, p_shared=.5, p_deco=.3, p_list=.3, p_docs=.3, p_bad=.15, p_level=.4, p_only=.4,
        ntags=(1, 3), p_fault=.3, faults=('hook', 'int'), fkinds=('cast', 'cast', 'deco', 'fv', 'meth')), own9))

    # ---- P10: priorities
    prios = dict(load=5, find=3, build=1, write=0, delattr=0, clone=0, copy=.5, drop=.3, cls=2, reg=.5, prio=14,
                 setup=.5, grep=0, default=.3, query=3, tgt=.1)
    add('P10', 4, 'sets', PrioWorld('P10'))
    add('P10', 1, 'classes', RegWorld('P10', profile(
        ops=prios, ncls=(2, 5), p_level=.8, p_twin=.5, p_bases=.5, p_fault=.15, faults=('int', 'hook')),
        ('prio', 'weight', 'select', 'query')))

    # ---- P11: operations cut short
    cut = dict(load=8, find=5, build=5, write=4, clone=4, copy=1, delattr=1, default=2, grep=1, cls=1, reg=1, prio=1,
               setup=2, note=.5, fasttrack=.5)
    add('P11', 2, 'points', RegWorld('P11', profile(
        nops=(6, 18), ncls=(2, 4), p_fault=.5, faults=('int', 'hook', 'sweep', 'int'), callback=('steady',), hidden=.3,
        ops=cut), None, armed=False))
    add('P11', 1, 'sweep', RegWorld('P11', profile(
        nops=(5, 12), ncls=(1, 3), p_fault=.4, faults=('sweep',), callback=('steady',), maxsweep=2, sweepmax=60, ops=cut, hidden=.3,
        p_obj=.5), None, armed=False))
    add('P11', 1, 'vary', RegWorld('P11', profile(
        nops=(6, 16), ncls=(2, 5), p_fault=.5, faults=('hook', 'hook', 'int'), callback=('vary',),
        p_subst=.4, p_methods=.6, p_obj=.6, ops=dict(cut, default=0, fp=.5, dict=.5), p_shared=.2), None, armed=False))

    # ---- P12: threads, nested calls
    prep = {k: 0 for k in BASE['ops']}
    prep.update(build=3, setup=3, prio=1, fasttrack=.7, load=.5)
    own12 = ('conc', 'report')
    p12 = dict(redef=False, ops=prep, nops=(0, 6), ncls=(2, 6), attrs=(2, 5), ntags=(1, 2), p_methods=.5, p_subst=.35,
               callback=('steady', 'vary'), p_values=.6, p_obj=.4, p_twin=.3,
               setups=['report', 'report', 'report', 'fastmode', 'fastkeys', 'defaults_upd', 'callback', 'callback'])
    add('P12', 3, 'threads', ConcWorld('P12', profile(modes=('threads', 'threads', 'nested'), **p12), own12))
    add('P12', 1, 'define', ConcWorld('P12', profile(modes=('define',), **p12), own12))
    add('P12', 1, 'interrupt', ConcWorld('P12', profile(modes=('threads', 'nested'), p_cut=.8, **p12), own12))

    # ---- P13: circular references
    add('P13', 1, 'cycles', CycleWorld('P13', ('cycle',)))

    # ---- P14: reports
    rep = dict(load=10, find=6, build=1, write=.3, delattr=0, clone=0, copy=0, drop=.5, gc=.3, cls=2, reg=2, prio=.5,
               setup=2, grep=0, default=1.5, query=0, tgt=.2, fasttrack=.4, clock=2, view=9, rlog=1.5, couldbe=2, fresh=.4)
    add('P14', 3, 'reports', ReportWorld('P14', profile(
        redef=False, ncls=(2, 6), ops=rep, ntags=(1, 3), p_missing=.3, p_only=.4, p_values=.6, p_outcast=.3, p_obj=.2, p_twin=.3,
        setups=['report', 'report', 'report', 'style', 'style', 'fastmode', 'fastkeys', 'defaults_upd', 'callback'],
        nops=(10, 34), hidden=.2), ('report',)))
    add('P14', 1, 'failures', ReportWorld('P14', profile(
        redef=False, ncls=(2, 5), ops=rep, ntags=(1, 2), p_missing=.3, p_only=.4, p_values=.6, p_outcast=.3, p_obj=.2, p_fault=.3,
        faults=('int', 'hook', 'gc'), fkinds=('cast', 'fv', 'meth', 'callback'),
        setups=['report', 'report', 'style', 'fastmode', 'fastkeys', 'defaults_upd', 'callback'],
        nops=(10, 30), hidden=.1), ('report',)))

    # ---- P15: expansions
    add('P15', 1, 'expand', ExpandWorld('P15', ('expand',)))

    # ---- P16: registries
    regs = dict(load=1.5, find=.5, build=1, write=0, delattr=0, clone=0, copy=0, drop=.3, cls=4, reg=7, prio=4,
                setup=.5, grep=0, default=.2, query=12, add_proxy=3, check_proxies=3, tgt=.1)
    own16 = ('query', 'registry', 'prio', 'weight', 'track')
    add('P16', 3, 'queries', RegWorld('P16', profile(
        ops=regs, ncls=(3, 7), ntags=(1, 5), p_level=.6, p_bases=.5, p_abstract=.25, p_twin=.2, p_again=.15), own16))
    add('P16', 1, 'failures', RegWorld('P16', profile(
        ops=dict(regs, load=4, build=2), ncls=(3, 7), ntags=(1, 5), p_level=.6, p_bad=.2, p_fault=.3,
        faults=('hook', 'int')), own16))

    # ---- P17: settings
    env = dict(load=10, find=5, build=3, write=.3, delattr=0, clone=.5, copy=0, drop=.5, cls=1, reg=.5, prio=.3,
               setup=9, grep=0, default=1, query=0, clock=1, tgt=.2, fasttrack=.3, newsetup=.6)
    own17 = ('callback', 'settings', 'value', 'select', 'raise', 'desc')
    add('P17', 3, 'settings', RegWorld('P17', profile(
        ops=env, ncls=(2, 5), p_subst=.6, p_extra=.5, p_only=.3, p_cache=.15, p_methods=.4, callback=('vary', 'vary', 'steady'),
        p_careless=.4), own17))
    add('P17', 1, 'failures', RegWorld('P17', profile(
        ops=env, ncls=(2, 5), p_subst=.6, p_extra=.5, callback=('vary', 'vary', 'steady'), p_fault=.3,
        faults=('hook', 'int'), fkinds=('callback', 'callback', 'cast', 'meth', 'fv', 'init', 'riseup')), own17))
    add('P17', 1, 'switch', RegWorld('P17', profile(
        ops=env, ncls=(2, 5), p_subst=.5, p_extra=.5, p_only=.6, callback=('vary', 'steady'), p_fault=.6,
        faults=('switch',), p_careless=.4), own17))
    return out


PROPS = _registry()


def choose(prop, i):
    """World of case i: in proportion of the weights, in a fixed cycle."""
    ws = PROPS[prop]
    n = sum(w for w, _, _ in ws)
    x = (i * 7 + i // 8) % n
    for w, wid, world in ws:
        if x < w:
            return wid, world
        x -= w
    raise core.HarnessError('no world')


def get(prop, wid):
    return next(world for _, w, world in PROPS[prop] if w == wid)
