#!/usr/bin/env python3
"""
Development tool: systematic small changes of the package. Those that the existing tests do not see are
given to the checks (a few runs of each); what nobody sees is listed for review.

mutate.py list [FILE...]                        print the mutants
mutate.py run OUT.jsonl [--runs N] [FILE...]    screen them (resumes when OUT.jsonl exists)
"""
import ast
import concurrent.futures
import hashlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
sys.path.insert(0, os.path.join(VERIF, 'sim'))
FILES = ['__init__.py', 'collectors.py', 'access.py', 'priorities.py', 'util.py', 'config.py', 'proxies.py',
         'stdtypes.py', 'reporting.py']
PROPS = ['P%02d' % i for i in range(1, 18)]


def mutants(fn, text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = text.encode()
    parents = {}
    for node in ast.walk(tree):
        for kid in ast.iter_child_nodes(node):
            parents[kid] = node

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    def logging(n):
        while n is not None:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id in ('logger',):
                return True
            if isinstance(n, ast.Raise):
                return True
            n = parents.get(n)
        return False

    out = []

    def rep(n, new, kind):
        a, b = span(n)
        new = new if isinstance(new, str) else ast.unparse(new)
        if raw[a:b].decode() == new:
            return
        out.append(dict(file=fn, line=n.lineno, kind=kind, a=a, b=b, old=raw[a:b].decode(), new=new))

    CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
           ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or logging(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, '({} {} {})'.format(src(n.left), CMP[type(n.ops[0])], src(n.comparators[0])), 'cmp')
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                rep(n, '({} {} {})'.format(src(n.left), '==' if isinstance(n.ops[0], ast.Is) else '!=',
                                           src(n.comparators[0])), 'is-eq')
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join('(' + src(v) + ')' for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                keep = [v for j, v in enumerate(n.values) if j != i]
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(' + src(v) + ')' for v in keep) + ')',
                    'bool-drop')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(' + src(n.operand) + ')', 'not')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n.test, (ast.Compare, ast.UnaryOp)):
                rep(n.test, '(not (' + src(n.test) + '))', 'negate')
            if not isinstance(n, ast.While):
                rep(n.test, 'True', 'true')
                rep(n.test, 'False', 'false')
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'const')
                rep(n, str(n.value - 1) if n.value > 0 else '-1', 'const')
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.BitOr)) and \
                not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            rep(n, src(n.left), 'binop-left')
            rep(n, src(n.right), 'binop-right')
            if not isinstance(n.right, ast.Constant) or isinstance(n.right.value, int):
                new = {ast.Add: '-', ast.Sub: '+', ast.BitOr: '&'}[type(n.op)]
                rep(n, '({} {} {})'.format(src(n.left), new, src(n.right)), 'binop')
        if isinstance(n, ast.Call):
            f = src(n.func)
            if f in ('sorted', 'list', 'set', 'dict', 'tuple', 'copy.deepcopy', 'copy.copy', 'str', 'bool', 'hash',
                     'frozenset', 'reversed') and len(n.args) == 1 and not n.keywords:
                rep(n, '(' + src(n.args[0]) + ')', 'unwrap')
                if f == 'copy.deepcopy':
                    rep(n.func, 'copy.copy', 'shallow')
                if f == 'sorted':
                    rep(n.func, 'list', 'unsorted')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'lower', 'upper', 'strip', 'rstrip', 'lstrip') \
                    and not n.keywords:
                rep(n, src(n.func.value), 'unwrap')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('fullmatch', 'match', 'search'):
                for alt in ('fullmatch', 'match', 'search'):
                    if alt != n.func.attr and not src(n.func.value) == 're' or alt == 'match' and n.func.attr == 'search':
                        rep(n.func, src(n.func.value) + '.' + alt, 'match')
            for i, kw in enumerate(n.keywords):
                if kw.arg is None:
                    continue
                c = ast.Call(n.func, n.args, [k for j, k in enumerate(n.keywords) if j != i])
                rep(n, c, 'kw-drop')
            if len(n.args) > 1 and f not in ('isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr'):
                c = ast.Call(n.func, n.args[:-1], n.keywords)
                rep(n, c, 'arg-drop')
            if f in ('min', 'max', 'any', 'all'):
                rep(n.func, dict(min='max', max='min', any='all', all='any')[f], 'minmax')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'appendleft', 'pop', 'popleft', 'startswith',
                                                                     'endswith', 'extend', 'update', 'add', 'discard'):
                alt = dict(append='insert', startswith='__contains__', endswith='__contains__').get(n.func.attr)
                if alt == 'insert' and len(n.args) == 1:
                    rep(n, '{}.insert(0, {})'.format(src(n.func.value), src(n.args[0])), 'append')
                elif alt == '__contains__':
                    rep(n.func, src(n.func.value) + '.' + alt, 'startswith')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            rep(n, src(n.value), 'unslice')
        if isinstance(n, ast.comprehension) or isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if not isinstance(n, ast.comprehension):
                for g in n.generators:
                    for cond in g.ifs:
                        rep(cond, 'True', 'comp-if')
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for i in range(len(n.type.elts)):
                keep = [e for j, e in enumerate(n.type.elts) if j != i]
                rep(n.type, '(' + ', '.join(src(e) for e in keep) + (',)' if len(keep) == 1 else ')'), 'except-drop')
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, (ast.Name, ast.Tuple)):
            rep(n.type, '()', 'except-none')
        if isinstance(n, ast.stmt):
            par = parents.get(n)
            if isinstance(par, (ast.Module, ast.ClassDef)):
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)):
                rep(n, 'pass', 'del-stmt')
            if isinstance(n, ast.Break):
                rep(n, 'continue', 'break')
                rep(n, 'pass', 'break')
            if isinstance(n, ast.Continue):
                rep(n, 'break', 'continue')
                rep(n, 'pass', 'continue')
            if isinstance(n, ast.Return) and n.value is not None and not (
                    isinstance(n.value, ast.Constant) and n.value.value is None):
                rep(n, 'return None', 'return')
    seen = set()
    res = []
    for m in out:
        key = (m['a'], m['b'], m['new'])
        if key in seen:
            continue
        seen.add(key)
        text2 = (raw[:m['a']] + m['new'].encode() + raw[m['b']:]).decode()
        try:
            t2 = ast.parse(text2)
        except SyntaxError:
            continue
        if ast.dump(t2) == ast.dump(tree):
            continue
        m['id'] = '{}:{}:{}:{}'.format(fn, m['line'], m['kind'], len(res))
        res.append(m)
    return res


def everything(files):
    out = []
    for fn in files or FILES:
        out += mutants(fn, open('/repo/src/footprints/' + fn).read())
    return out


def simulate(repo, runs):
    """First property that sees the change."""
    import cases
    import runner
    os.environ['VERIF_REPO'] = repo     # the same for all of the workers of this process
    t0 = time.time()
    pool = runner.Pool(1, 2)
    stuck = 0
    try:
        done = 0
        for upto in [n for n in (8, 48, 160, 400, 1000, 2500) if n < runs] + [runs]:
            for prop in PROPS:
                lim = (done, upto) if prop not in ('P03', 'P11') else (done // 3, max(upto // 3, 2))
                w = pool.workers[0]
                w.post(cmd='batch', prop=prop, seed=1, tier='quick', idx=list(range(*lim)))
                todo = []
                while True:
                    msg = w.line()
                    if 'error' in msg:
                        return dict(by=prop, how='generation', secs=time.time() - t0)
                    if msg.get('end'):
                        break
                    if msg.get('multi'):
                        todo.append(msg)
                        continue
                    res = msg['res']
                    if res.get('stuck'):
                        stuck += 1
                        if stuck > 3:
                            return dict(by=prop, how='stuck', secs=time.time() - t0)
                    if res.get('violation') or res.get('harness') or res.get('died'):
                        got = dict(by=prop, how='violation' if res.get('violation') else 'harness', run=msg['i'],
                                   what=json.dumps(res.get('violation') or res)[:300], secs=time.time() - t0)
                        # the rest of the batch is not wanted
                        return got
                for msg in todo:
                    res = runner.run_stages(lambda k: pool.workers[k % 2], prop, msg['world'],
                                            cases.stages(msg['world'], msg['plan'], msg['i']))
                    if res.get('violation') or res.get('harness') or res.get('died'):
                        return dict(by=prop, how='violation' if res.get('violation') else 'harness', run=msg['i'],
                                    what=json.dumps(res.get('violation') or res)[:300], secs=time.time() - t0)
            done = upto
        return dict(by=None, stuck=stuck, secs=time.time() - t0)
    except runner.Broken as e:
        return dict(by='?', how='broken ' + str(e)[:100], secs=time.time() - t0)
    finally:
        for w in pool.workers:
            w.p.kill()
            w.p.wait()


def slave(work):
    """One process: mutants on stdin, results on stdout."""
    import xml.etree.ElementTree as ET
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC', LANG='C.UTF-8')
    repo = work + '/repo'
    if not os.path.exists(repo):
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])

    def tests(repo):
        out = work + '/junit.xml'
        if os.path.exists(out):
            os.unlink(out)
        try:
            subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '-o',
                            'junit_family=xunit2', '--junitxml=' + out], cwd=repo, env=dict(env, PYTHONPATH=repo + '/src'),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            return ['timeout']
        bad = []
        for tc in ET.parse(out).iter('testcase'):
            if tc.find('failure') is not None or tc.find('error') is not None:
                bad.append('{}::{}'.format(tc.get('classname'), tc.get('name')))
        return bad
    baseline = dict(bad=tests(repo), run=tests)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = screen(req['m'], repo, baseline, req['runs'])
        except Exception as e:
            res = dict(tests='?', error=repr(e)[:300])
        print(json.dumps(res), flush=True)


def screen(m, repo, baseline, runs):
    p = repo + '/src/footprints/' + m['file']
    raw = open('/repo/src/footprints/' + m['file'], 'rb').read()
    open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
    try:
        bad = [b for b in baseline['run'](repo) if b not in baseline['bad']]
        if bad:
            return dict(tests='failed ' + bad[0])
        return dict(tests='pass', **simulate(repo, runs))
    finally:
        open(p, 'wb').write(raw)


def main():
    if sys.argv[1] == 'slave':
        return slave(sys.argv[2])
    args = sys.argv[2:]
    if sys.argv[1] == 'list':
        for m in everything(args):
            print(m['id'], repr(m['old'][:60]), '->', repr(m['new'][:60]))
        return
    outfn = args.pop(0)
    runs = 160
    if args[:1] == ['--runs']:
        runs = int(args[1])
        args = args[2:]
    done = set()
    if os.path.exists(outfn):
        done = {json.loads(x)['id'] for x in open(outfn)}
    todo = queue.Queue()
    # in a random order, the same at each time: any part of it is a fair sample
    for m in sorted(everything(args), key=lambda m: hashlib.md5(m['id'].encode()).digest()):
        if m['id'] not in done:
            todo.put(m)
    print(todo.qsize(), 'to do', flush=True)
    lock = threading.Lock()
    top = tempfile.mkdtemp(prefix='mut-')

    def work(k):
        d = '{}/{}'.format(top, k)
        os.makedirs(d)
        p = None
        while True:
            try:
                m = todo.get_nowait()
            except queue.Empty:
                break
            if p is None or p.poll() is not None:
                p = subprocess.Popen([PY, '-B', os.path.abspath(__file__), 'slave', d], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                     env=dict(os.environ, VERIF_RUN_WALL='20'))
            p.stdin.write(json.dumps(dict(m=m, runs=runs)) + '\n')
            p.stdin.flush()
            line = p.stdout.readline()
            res = json.loads(line) if line else dict(tests='slave died')
            with lock:
                with open(outfn, 'a') as f:
                    f.write(json.dumps(dict(m, **res)) + '\n')
        if p:
            p.stdin.close()
            p.wait()
    n = int(os.environ.get('MUT_JOBS', '7'))
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        list(ex.map(work, range(n)))
    shutil.rmtree(top)


if __name__ == '__main__':
    main()
