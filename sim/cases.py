"""
What each check runs (no package import here), stages of a case, replay of a file.
"""

import json

import runner

BASE_ASSUMPTIONS = [
    'the Python interpreter, the standard library and bronx behave as documented (they run for real, bronx unmodified)',
    'a fault or a preemption may strike between any two executed source lines of the package, not inside one',
    'a clean batch of seeded runs is evidence upon the explored histories, not a proof',
]

REAL = ['footprints (all modules, from the working tree)', 'bronx', 'copy/pickle/glob/re/weakref of the standard library']
STUB = ['clock (datetime.now, time.time, time.sleep): simulated', 'file system below /simfs (os.scandir, os.listdir, '
        'os.stat, os.lstat, os.getcwd): in memory', 'thread scheduling and locks: one thread released at a time by the plan',
        'garbage collector: explicit events only', 'identity hashes of classes and objects: salted by the plan',
        'user code called by the package (types, defaults, methods, callbacks): workload with planned failures']

RULE = ('A run is a history of operations drawn by a swarm generator (every run draws its own mix of features, operations '
        'and faults). It is non-trivial when {}; two runs count as distinct when their plans differ.')

MEASURE = ('distinct digests of the abstract state (classes, order of levels, content of the collectors, live objects, settings, '
           'kind of the last operation) met after an operation')


def info(nontrivial, level='exploration', measure=MEASURE, more=(), real=REAL, stub=STUB):
    return dict(level=level, rule=RULE.format(nontrivial), measure=measure,
                assumptions=BASE_ASSUMPTIONS + list(more), real=list(real), stub=list(stub))


OBJ = 'at least one object was loaded or built'
INFO = dict(
    P01=info(OBJ), P02=info(OBJ), P03=info(OBJ), P04=info(OBJ), P05=info(OBJ), P06=info(OBJ), P07=info(OBJ),
    P08=info(OBJ + ', or one was saved to or restored from the simulated disk'), P09=info(OBJ),
    P10=info('at least one operation changed or tried to change an order', measure=MEASURE + '; or (orders, frozen orders, kind of the last operation) and traces of preemptions'),
    P11=info(OBJ),
    P12=info('at least two operations were compared with what they give alone', measure='distinct traces of preemptions '
             '(step, from, to); abstract states met while setting up'),
    P13=info('some value refers to another one', measure='distinct (shape of the graph, number of attributes, sources of '
             'their values, outcome, reasons why nothing is required) met after a resolution'),
    P14=info('at least one search was reported'),
    P15=info('some description was expanded into several ones', measure='distinct (kinds of values, number of files, number of '
             'results, kinds of file system events, number of file system calls) met after an expansion'),
    P16=info(OBJ), P17=info(OBJ),
    ALL=info('anything'),
)

RUNS = dict(
    P01=dict(quick=6000, thorough=80000),
    P02=dict(quick=6000, thorough=80000),
    P03=dict(quick=1600, thorough=40000),
    P04=dict(quick=5000, thorough=80000),
    P05=dict(quick=5000, thorough=80000),
    P06=dict(quick=5000, thorough=80000),
    P07=dict(quick=6000, thorough=80000),
    P08=dict(quick=5000, thorough=80000),
    P09=dict(quick=4000, thorough=80000),
    P10=dict(quick=6000, thorough=200000),
    P11=dict(quick=1000, thorough=30000),
    P12=dict(quick=4000, thorough=60000),
    P13=dict(quick=2500, thorough=60000),
    P14=dict(quick=4000, thorough=80000),
    P15=dict(quick=9000, thorough=200000),
    P16=dict(quick=6000, thorough=80000),
    P17=dict(quick=5000, thorough=80000),
    ALL=dict(quick=3000, thorough=60000),
)

DEADLINE = dict(quick=500, thorough=3 * 3600)


def stages(wid, plan, i):
    """
    The executions a case consists of: [{plan, hs: which hash seed, needs: stage whose
    output is the input of this one, agree: outcomes must be the same everywhere}]
    """
    kind = plan.get('multi')
    if kind == 'agree':
        return [dict(plan=dict(plan, variant=v), hs=i + v, agree=True) for v in range(plan['variants'])]
    if kind == 'lives':
        return [dict(plan=dict(plan, life=v), hs=i + 3 * v, needs=v - 1 if v else None)
                for v in range(plan['lives'])]
    return [dict(plan=plan, hs=i)]


def replay(path, quiet=False):
    """Execute a replay file in fresh processes: 1 if the violation is there again."""
    with open(path) as f:
        doc = json.load(f)
    workers = {}
    try:
        def at(k):
            hs = runner.hashseed(doc['seed'], k % runner.NHS)
            if hs not in workers:
                workers[hs] = runner.Worker(hs)
            return workers[hs]
        sts = [dict((k, s[k]) for k in ('plan', 'hs', 'needs', 'agree') if k in s) for s in doc['stages']]
        for s in doc['stages']:
            if s['hashseed'] != runner.hashseed(doc['seed'], s['hs'] % runner.NHS):
                raise runner.Broken('inconsistent replay file')
        res = runner.run_stages(at, doc['property'], doc['world'], sts, keep=not quiet)
    finally:
        for w in workers.values():
            w.close()
    if not quiet:
        for line in res.get('keep') or ():
            print(line)
        print('digest', res.get('digest'), 'expected', doc.get('digest'))
        print('violation', json.dumps(res.get('violation')))
        if res.get('harness'):
            print(res['harness'])
    v, w = res.get('violation'), doc.get('violation')
    if not v:
        return 0
    if quiet and (v['category'] != w['category'] or res.get('digest') != doc.get('digest')):
        return 0
    return 1
