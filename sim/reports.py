"""
World of reports: the registry world, where the log of the searches of every collector
is modelled too, and where every view of it is compared with the model.

The clock is under control: it may stand still, go backwards or jump between two
searches or in the middle of one.
"""

import contextlib
import io
import re

import boot
import core
import fpmodel as fm
from fpmodel import MObj, MWeak
from regen import Gen, TAGS, pick
from registry import Registry, Skip, clean_tag, cv
import simtypes as st  # noqa: F401

footprints = boot.footprints
collectors = footprints.collectors
reporting = footprints.reporting

NOT = '(?<![\\w.])'
ANY = ['any']


class MLog:
    """What a report log should hold."""

    def __init__(self, name, maxlen):
        self.name = name
        self.maxlen = maxlen
        self.entries = []

    def push(self, entry):
        self.entries.append(entry)
        if self.maxlen is not None:
            self.entries = self.entries[max(0, len(self.entries) - self.maxlen):]


class ReportRegistry(Registry):

    inplace = False     # the reports hold the values themselves

    def __init__(self, plan, ctx):
        self.mreport = int(footprints.setup.report)
        self.mlen = int(footprints.setup.lreport_len)
        self.mstyle = int(footprints.setup.report_style)
        self.creating = None
        self.mlogs = {}
        self.views = 0
        super().__init__(plan, ctx)

    # ------------------------------------------------------------- the model --

    def coll(self, tag):
        new = tag not in self.colls
        c = super().coll(tag)
        if new:
            o = self.creating or {}
            c.report = o.get('report', self.mreport)
            c.style = o.get('report_style', self.mstyle)
            c.logtag = o.get('report_tag', 'footprint-' + tag)
            if c.logtag not in self.mlogs:
                n = o.get('lreport_len', self.mlen)
                self.mlogs[c.logtag] = MLog(c.logtag, None if c.report == 3 else n)
        return c

    def mdiag(self, diag):
        """Diagnostics of one class, canonical."""
        out = []
        for name, kind, text, args in diag:
            if isinstance(args, (MObj, MWeak)) or isinstance(args, tuple) and any(
                    isinstance(x, str) and 'object at 0x' in x for x in args):
                args = ANY
            elif args is None:
                args = None
            else:
                args = cv(args, self)
            out.append([name, kind, text, args])
        return sorted(out, key=core.canon)

    def rdiag(self, items):
        """The same from an iterable of dictionaries."""
        out = []
        for d in items:
            d = dict(d)
            name = d.pop('name')
            args = d.pop('args', None)
            if len(d) != 1:
                self.ctx.flag('report', dict(odd=sorted(d), attribute=name))
            (kind, text), = d.items()
            if isinstance(args, st.SimBase) or type(args).__name__ == 'weakproxy':
                args = ANY
            else:
                args = cv(args, self)
            out.append([name, kind, text, args])
        return sorted(out, key=core.canon)

    @staticmethod
    def same_diag(got, want):
        if len(got) != len(want):
            return False
        for g, w in zip(got, want):
            if g[:3] != w[:3]:
                return False
            if w[3] != ANY and core.canon(g[3]) != core.canon(w[3]):
                return False
        return True

    def real_entry(self, item):
        """What an entry of the real log says."""
        return dict(name=item.name, classes=[[c.name, self.rdiag(c)] for c in item])

    def searched(self, how, tag, raising, cands, diags, out, hidden=()):
        ctx = self.ctx
        c = self.colls.get(tag)
        if c is None or tag not in collectors.keys():
            return
        log = self.mlogs[c.logtag]
        real = list(collectors.get(tag=tag).report_log)
        ctx.inc('searches')
        full = {self.mcls[s].fullname: self.mdiag(d) for s, d in diags.items()}
        known = {m.fullname for m in c.classes}
        # how many entries ?
        one = partial = False
        if how == 'none' or c.report == 0:
            want = (0,)
        elif out.injected or out.exc == 'SimBudget' or how == 'maybe':
            want, partial = (0, 1), True
        elif out.exc is not None:
            if c.report == 1:
                # the error may come from the second pass only
                want, partial = (0,), True
            else:
                want, partial = (1,), True
        elif c.report == 1:
            want = (1,) if out.value is None or (how == 'all' and out.value == []) else (0,)
        else:
            want, partial = (1,), how == 'any' and out.value is not None
        del one
        if how == 'all' and c.report and not cands and not raising and not out.injected:
            # a search that finds nothing says so, whatever has to be reported
            ctx.expect(out.exc in (None, 'SimBudget'), 'report', lambda: dict(
                mode=c.report, got=out.exc, maxlen=log.maxlen))
        if log.maxlen == 0:
            # a log that keeps nothing
            ctx.expect(not real, 'report', lambda: dict(mode=c.report, how=how, kept=len(real), maxlen=0))
            ctx.inc('searches-without-log')
            if not (out.injected or how in ('none', 'maybe', 'any') or self.lastop not in ('load', 'default')):
                if out.exc is None and out.value is None:
                    known = [n for n in known if self.occurrences(out.printed, n)]
                    ctx.expect(not known, 'report', lambda: dict(printed=known, maxlen=0))
            return
        old = len(log.entries)
        room = log.maxlen is None or old < log.maxlen
        if len(want) > 1 or not room:
            fresh = self.fresh(log, real)
        else:
            fresh = len(real) - old
        ctx.expect(fresh in want, 'report', lambda: dict(
            new=fresh, want=list(want), mode=c.report, how=how, exc=out.exc, before=old, after=len(real), maxlen=log.maxlen))
        if fresh:
            last = self.real_entry(real[-1])
            ctx.expect(last['name'] == tag, 'report', lambda: dict(entry=last['name'], want=tag))
            seen = [x[0] for x in last['classes']]
            ctx.expect(len(set(seen)) == len(seen) and set(seen) <= known, 'report',
                       lambda: dict(classes=seen, want=sorted(known)))
            if not partial:
                if not c.fast:
                    ctx.expect(set(seen) == known, 'report', lambda: dict(classes=seen, want=sorted(known)))
                else:
                    hit = {m.fullname for m, _, _ in cands}
                    ctx.expect(hit <= set(seen), 'report', lambda: dict(classes=seen, found=sorted(hit)))
            elif how == 'any' and out.exc is None and out.value is not None:
                name = self.mcls[self.sid_of[id(type(out.value))]].fullname
                ctx.expect(name in seen, 'report', lambda: dict(classes=seen, found=name))
            if not (partial and (out.exc is not None or how == 'maybe')):
                for name, got in last['classes']:
                    if name in full:
                        ctx.expect(self.same_diag(got, full[name]), 'report', lambda: dict(
                            cls=name, got=got, want=full[name]))
            elif out.exc is not None and not out.injected and c.report > 1:
                # every class but the one that failed was examined to its end
                for name, got in last['classes']:
                    if name in full:
                        ctx.expect(self.same_diag(got, full[name]), 'report', lambda: dict(
                            cls=name, got=got, want=full[name]))
                ctx.expect(any(n not in full for n in seen), 'report', lambda: dict(
                    failing=sorted(known - set(full)), classes=seen))
            log.push(last)
            ctx.inc('entries')
            if not log.entries or log.maxlen == len(log.entries):
                ctx.inc('entries-in-full-logs')
        # what the user is shown
        if out.injected or how in ('none', 'maybe', 'any') or self.lastop not in ('load', 'default'):
            return
        if out.exc is None and out.value is None:
            opts = dict(hidden)
            style = opts.get('_report_style', c.style)
            if opts.get('_emptywarning', True) and opts.get('_report', True) and c.report:
                ctx.inc('printed-reports')
                text = out.printed
                for name, got in last['classes']:
                    n = self.occurrences(text, name)
                    if style == 0:
                        ctx.expect(n == 1, 'report', lambda: dict(printed=n, want=1, cls=name, style=style))
                    else:
                        ctx.expect(n >= len(got), 'report', lambda: dict(printed=n, want=len(got), cls=name, style=style))
                for name in known - {x[0] for x in last['classes']}:
                    ctx.expect(self.occurrences(text, name) == 0, 'report', lambda: dict(
                        printed=name, classes=[x[0] for x in last['classes']]))
            else:
                ctx.expect(out.printed.strip() == '', 'report', lambda: dict(
                    printed=out.printed[:200], hidden=opts, mode=c.report))

    @staticmethod
    def occurrences(text, name):
        return len(re.findall(NOT + re.escape(name) + r'(?![\w.])', text))

    def fresh(self, log, real):
        """Number of entries appended to a log (0 or 1) when its length does not tell."""
        if log.maxlen is None or len(log.entries) < log.maxlen:
            return len(real) - len(log.entries)
        return 0 if real and log.entries and real[-1] is self.tops.get(log.name) else 1

    def do(self, i, op, check=True):
        self.tops = {}
        for t, c in self.colls.items():
            if t in collectors.keys():
                self.tops[c.logtag] = collectors.get(tag=t).report_log.last
        self.lastop = op['op']
        boot.CLOCK.script = list(op.get('ticks', ()))
        if op.get('ticks'):
            self.ctx.inc('fault:clock', len(op['ticks']))
        try:
            super().do(i, op, check)
        finally:
            boot.CLOCK.script = []

    # ------------------------------------------------------------ the views --

    def check_state(self):
        super().check_state()
        ctx = self.ctx
        logs = {}
        for t, c in self.colls.items():
            logs[c.logtag] = collectors.get(tag=t)
        logs['void'] = None
        for name, coll in sorted(logs.items()):
            if name not in self.mlogs:
                continue
            ml = self.mlogs[name]
            real = coll.report_log if coll is not None else reporting.get(tag='void')
            want = ml.entries
            ctx.expect(len(real) == len(want), 'report', lambda: dict(log=name, length=len(real), want=len(want)))
            got = [self.real_entry(x) for x in real]
            for i, (a, b) in enumerate(zip(got, want)):
                ctx.expect(a['name'] == b['name'] and [x[0] for x in a['classes']] == [x[0] for x in b['classes']] and
                           all(self.same_diag(x[1], y[1]) for x, y in zip(a['classes'], b['classes'])),
                           'report', lambda: dict(log=name, entry=i, got=a, want=b))
            for stamp in (False, True):
                self.view_dict(real, want, stamp)

    def view_dict(self, real, want, stamp):
        ctx = self.ctx
        d = real.as_dict(stamp=stamp)
        keys = list(d)
        ctx.expect(len(keys) == len(want) and all(k.startswith(e['name']) for k, e in zip(keys, want)), 'report',
                   lambda: dict(view='dict', stamp=stamp, keys=keys, want=[e['name'] for e in want]))
        for k, e in zip(keys, want):
            self.same_dict(d[k], e, 'dict')

    def same_dict(self, d, e, view):
        """The dictionary of one entry."""
        ctx = self.ctx
        ctx.expect(sorted(d) == sorted(x[0] for x in e['classes']), 'report',
                   lambda: dict(view=view, classes=sorted(d), want=[x[0] for x in e['classes']]))
        for name, items in e['classes']:
            got = self.rdiag([dict(x, name=n) for n, x in d[name].items()])
            ctx.expect(self.same_diag(got, items), 'report',
                       lambda: dict(view=view, cls=name, got=got, want=items))

    def op_view(self, op):
        """Look at a log in some way: nothing changes."""
        how = op['how']
        ctx = self.ctx
        tag = clean_tag(op['tag'])
        if op.get('void'):
            log, ml, coll = reporting.get(tag='void'), self.mlogs.get('void'), None
            if ml is None:
                raise Skip('no log')
        else:
            if tag not in self.colls:
                raise Skip('no collector')
            coll = collectors.get(tag=tag)
            log, ml = coll.report_log, self.mlogs[self.colls[tag].logtag]
        ctx.inc('view:' + how)
        want = ml.entries
        last = want[-1] if want else None
        ctx.expect((log.last is None) == (last is None), 'report', lambda: dict(last=log.last is None, want=last is None))
        if how == 'names':
            ctx.expect(ml.name in list(reporting.keys()), 'report', lambda: dict(missing=ml.name))
            ctx.expect(reporting.get(tag=ml.name) is log, 'report', lambda: dict(not_unique=ml.name))
            return
        if how == 'dict':
            # playing with what is returned is harmless
            d = log.as_dict(stamp=op.get('stamp', True))
            for x in d.values():
                for y in x.values():
                    for z in y.values():
                        z.clear()
                    y.clear()
                x.clear()
            d.clear()
        elif how == 'xml':
            self.view_xml(log, want)
        elif how == 'fulldump':
            text = self.printed(lambda: coll.report_dump(stamp=op.get('stamp', False)) if coll is not None
                                else log.fulldump(stamp=op.get('stamp', False)))
            self.mentions(text, [x for e in want for x in e['classes']], how)
        elif how == 'whynot':
            pat = op['pat']
            got = coll.report_whynot(pat) if coll is not None else log.whynot(pat)
            if last is None:
                ctx.expect(got is None, 'report', lambda: dict(view=how, got=sorted(got)))
                return
            sel = [x for x in last['classes'] if x[1] and re.search(pat, x[0], re.I)]
            self.same_dict(got, dict(classes=sel), how)
            for x in got.values():
                x.clear()
            got.clear()
        elif last is None:
            return
        elif how == 'last':
            self.same_dict(log.last.as_dict(), last, how)
            if coll is not None:
                self.same_dict(coll.report_last.as_dict(), last, how)
        elif how == 'dumplast':
            if coll is None:
                return
            self.mentions(self.printed(coll.report_dumplast), last['classes'], how)
        elif how == 'light':
            text = self.printed(lambda: log.last.lightdump())
            self.mentions(text, last['classes'], how)
            self.parse_light(text, last, self.argstr(log.last))
        elif how == 'flat':
            flat = log.last.as_flat()
            for kind in ('why', 'only'):
                for skip in (True, False):
                    flat.reshuffle([kind, 'attribute'], skip=skip)
                    text = self.printed(flat.fulldump)
                    flat.reshuffle([kind, 'attribute'], skip=skip)
                    ctx.expect(self.printed(flat.fulldump) == text, 'report', lambda: dict(view=how, kind=kind, twice=skip))
                for name, items in last['classes']:
                    n = self.occurrences(text, name)
                    w = sum(1 for x in items if x[1] == kind)
                    ctx.expect(n == w, 'report', lambda: dict(view=how, kind=kind, cls=name, got=n, want=w))
                known = self.argstr(log.last)
                for name, items in last['classes']:
                    for x in items:
                        k = known.get((name, x[0]), ['', ''])[0]
                        if x[1] == kind and k and k.isalnum():
                            leaf = "{:s} = 'args: {:s}'".format(name, k)
                            ctx.expect(leaf in text, 'report', lambda: dict(view=how, missing=leaf))
                for text0 in {x[2] for _, items in last['classes'] for x in items if x[1] == kind}:
                    ctx.expect(kind + ': ' + text0 in text, 'report', lambda: dict(view=how, missing=text0))
        else:
            kw = {}
            if op.get('whyfirst'):
                kw['ordering'] = ((('why', 'only'), ()), (('name', 'kind'), ()))
            tree = coll.report_sorted(**kw) if coll is not None and not op.get('direct') else log.last.as_tree(**kw)
            if how == 'soft':
                text = self.printed(tree.softprint)
            elif how == 'ordered':
                text = self.printed(tree.orderedprint)
            else:
                text = self.printed(lambda: tree.dumper(*op.get('depth', ())))
            rows = re.findall(r'class : (\S+) \((.*)\)$', text, re.M)
            wrows = []
            for name, items in last['classes']:
                for x in items:
                    wrows.append(name)
            ctx.expect(sorted(x[0] for x in rows) == sorted(wrows), 'report', lambda: dict(
                view=how, got=sorted(x[0] for x in rows), want=sorted(wrows)))
            if how != 'dumper':
                self.parse_tree(text, last, how, self.argstr(log.last))
        self.outcome('view', how)

    def printed(self, func):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            func()
        return buf.getvalue()

    def mentions(self, text, classes, how):
        need = {}
        for name, _ in classes:
            need[name] = need.get(name, 0) + 1
        for name, n in need.items():
            got = self.occurrences(text, name)
            self.ctx.expect(got == n, 'report', lambda: dict(view=how, cls=name, got=got, want=n))

    @staticmethod
    def argstr(entry):
        """
        (class, attribute): text of the offending value and of the whole diagnostic, for the classes
        whose name is unique.
        """
        out = {}
        names = [x.name for x in entry]
        for name, items in entry.as_dict().items():
            if names.count(name) == 1:
                for attr, info in items.items():
                    try:
                        out[name, attr] = [str(info.get('args', '')), str(info)]
                    except ReferenceError:
                        pass
        return out

    def parse_light(self, text, last, known):
        """Attributes printed below each class."""
        names = [x[0] for x in last['classes']]
        cur, got = None, {n: [] for n in names}
        for line in text.splitlines():
            word = line.replace('=>', '').strip()
            if word in got:
                cur = word
            elif ' : ' in line and cur is not None:
                attr, info = line.split(':', 1)
                attr, info = attr.strip(), info.strip()
                got[cur].append(attr)
                if (cur, attr) in known:
                    self.ctx.expect(info == known[cur, attr][1], 'report', lambda: dict(
                        view='light', cls=cur, attr=attr, args=[info, known[cur, attr][1]]))
        for name, items in last['classes']:
            want = sorted(x[0] for x in items)
            self.ctx.expect(sorted(got[name]) == want, 'report',
                            lambda: dict(view='light', cls=name, got=sorted(got[name]), want=want))

    def parse_tree(self, text, last, how, known):
        """(attribute, reason, class) of each printed line."""
        attr = why = None
        got = []
        for line in text.splitlines():
            line = line.strip()
            m = re.match(r'class : (\S+) \((.*)\)$', line)
            if m:
                got.append([m.group(1), attr, why])
                w = known.get((m.group(1), attr))
                self.ctx.expect(w is None or w[0] == m.group(2), 'report', lambda: dict(
                    view=how, cls=m.group(1), attr=attr, args=[m.group(2), w]))
            elif line.startswith('attribute_name = '):
                attr = line[17:]
            elif line.startswith('why = '):
                why = line[6:]
            elif line.startswith('only = '):
                why = line[7:]
        want = sorted([name, x[0], x[2]] for name, items in last['classes'] for x in items)
        self.ctx.expect(sorted(got) == want, 'report', lambda: dict(view=how, got=sorted(got), want=want))

    def view_xml(self, log, want):
        ctx = self.ctx
        rep = log.as_xml()
        import xml.dom.minidom
        text = rep.dump_all()
        try:
            doc = xml.dom.minidom.parseString(text)
        except Exception as e:
            ctx.flag('report', dict(view='xml', exc=type(e).__name__))

        def kids(node):
            return [n for n in node.childNodes if n.nodeType == n.ELEMENT_NODE]
        root = doc.documentElement
        colls = kids(root)
        ctx.expect([c.getAttribute('name') for c in colls] == [e['name'] for e in want], 'report', lambda: dict(
            view='xml', got=[c.getAttribute('name') for c in colls], want=[e['name'] for e in want]))
        for node, e in zip(colls, want):
            got = [[c.getAttribute('name'),
                    sorted(([a.getAttribute('name'), 'why' if a.hasAttribute('why') else 'only',
                             a.getAttribute('why') or a.getAttribute('only')] for a in kids(c)), key=core.canon)]
                   for c in kids(node)]
            w = [[name, sorted((x[:3] for x in items), key=core.canon)] for name, items in e['classes']]
            ctx.expect(got == w, 'report', lambda: dict(view='xml', got=got, want=w))
        for node, entry in zip(colls, log):
            known = self.argstr(entry)
            for c in kids(node):
                for a in kids(c):
                    k = known.get((c.getAttribute('name'), a.getAttribute('name')))
                    got = a.getAttribute('args')
                    ctx.expect(k is None or got == k[0], 'report', lambda: dict(view='xml', attr=a.getAttribute('name'),
                                                                                args=[got, k]))
        if want:
            got = sorted([d['classname'], d['name'], d['why']] for d in rep.iter_last())
            w = sorted([name, x[0], x[2] if x[1] == 'why' else ''] for name, items in want[-1]['classes'] for x in items)
            ctx.expect(got == w, 'report', lambda: dict(view='iter', got=got, want=w))
            n = rep.dump_last().count('<attribute ')
            ctx.expect(n == len(w), 'report', lambda: dict(view='dump_last', got=n, want=len(w)))

    # ------------------------------------------------------------- changes ----

    def op_rlog(self, op):
        """clear() or reduce_to_last()."""
        tag = clean_tag(op['tag'])
        if tag not in self.colls:
            raise Skip('no collector')
        log, ml = collectors.get(tag=tag).report_log, self.mlogs[self.colls[tag].logtag]
        out = self.call(log.clear if op['how'] == 'clear' else log.reduce_to_last)
        self.ctx.expect(out.exc is None, 'report', lambda: dict(op=op['how'], got=out.exc))
        ml.entries = [] if op['how'] == 'clear' else ml.entries[-1:]
        self.outcome('rlog', op['how'])

    def op_mkcoll(self, op):
        """Create a collector, with its own way of reporting."""
        tag = clean_tag(op['tag'])
        if tag in self.colls or tag in collectors.keys():
            raise Skip('there')
        kw = dict(op['kw'])
        out = self.call(lambda: collectors.get(tag=tag, **kw))
        self.ctx.expect(out.exc is None, 'observe', lambda: dict(op='mkcoll', got=out.exc))
        # the way of reporting does not come from the settings here
        kw.setdefault('report', 1)
        kw.setdefault('lreport_len', 100)
        kw.setdefault('report_style', 0)
        self.creating = kw
        self.coll(tag)
        self.creating = None
        self.outcome('mkcoll')

    def op_load(self, op):
        if op.get('entry') == 'pickup':
            # a collector created on that occasion does not follow the settings
            self.creating = dict(report=1, lreport_len=100, report_style=0)
        try:
            super().op_load(op)
        finally:
            self.creating = None

    def op_couldbe(self, op):
        """Ask one class directly, with a report of its own."""
        sid = op['cls']
        if sid not in self.mcls:
            raise Skip('no class')
        mc, rc = self.mcls[sid], self.rcls[sid]
        if 'void' not in self.mlogs and op.get('fault', {}).get('k') in ('int', 'swept'):
            # bronx's GetByTag remembers half built objects: out of scope
            raise Skip('first use of a tag')
        rdesc, mdesc = self.desc(op, 'r'), self.desc(op, 'm')
        ex = self.next_extras()
        err = guess = None
        diag = []
        try:
            guess, _, diag = fm.couldbe(mc, mdesc, self.setup, ex)
        except fm.MErr as e:
            err = e.kind
        ml = self.mlogs.setdefault('void', MLog('void', None))
        out = self.call(lambda: rc.footprint_couldbe(rdesc, mkreport=True), op.get('fault'))
        self.cbcount += out.ncallback
        real = list(reporting.get(tag='void'))
        fresh = len(real) - len(ml.entries)
        if out.injected:
            self.faulted = True
            self.ctx.expect(fresh in (0, 1), 'report', lambda: dict(op='couldbe', new=fresh))
        else:
            self.ctx.expect((out.exc is None) == (err is None), 'raise', lambda: dict(got=out.exc, want=err))
            self.ctx.expect(fresh == 1, 'report', lambda: dict(op='couldbe', new=fresh))
            if out.exc is None:
                self.ctx.expect(bool(out.value[0]) == (guess is not None), 'select', lambda: dict(
                    got=bool(out.value[0]), want=guess is not None))
                got = self.real_entry(real[-1])
                want = self.mdiag(diag)
                self.ctx.expect([x[0] for x in got['classes']] == [mc.fullname] and
                                self.same_diag(got['classes'][0][1], want), 'report',
                                lambda: dict(op='couldbe', got=got, want=want))
        if fresh:
            ml.push(self.real_entry(real[-1]))
        out.value = None
        self.outcome('couldbe', err is None)

    def op_setup(self, op):
        super().op_setup(op)
        if op['what'] == 'report':
            tag = clean_tag(op.get('tag', ''))
            if tag in self.colls:
                self.colls[tag].report = op['val']
            else:
                self.mreport = op['val']
        elif op['what'] == 'style':
            tag = clean_tag(op.get('tag', ''))
            if tag in self.colls:
                self.colls[tag].style = op['val']

    def op_rsetup(self, op):
        """The defaults of the collectors still to come."""
        footprints.setup.lreport_len = self.mlen = op['len']
        footprints.setup.report = self.mreport = op['report']
        footprints.setup.report_style = self.mstyle = op['style']
        self.outcome('rsetup')


class ReportGen(Gen):
    """Histories full of searches that fail, and of looks at the reports."""

    def generate(self):
        r = self.r
        head = []
        if r.random() < 0.6:
            head.append(dict(op='rsetup', len=pick(r, [0, 1, 2, 3, 5, 100]), report=pick(r, [0, 1, 1, 1, 2, 2, 3]),
                             style=r.randrange(4)))
        for t in self.tags:
            if r.random() < 0.25:
                kw = dict(report=pick(r, [0, 1, 1, 2, 2, 3]))
                if r.random() < 0.6:
                    kw['lreport_len'] = pick(r, [0, 1, 2, 4])
                if r.random() < 0.3:
                    kw['report_tag'] = 'shared'
                if r.random() < 0.5:
                    kw['report_style'] = r.randrange(4)
                head.append(dict(op='mkcoll', tag=t, kw=kw))
        self.ops += head
        plan = super().generate()
        ops = []
        for op in plan['ops']:
            if op['op'] in ('load', 'find', 'default', 'couldbe') and r.random() < self.tickrate:
                op['ticks'] = [pick(r, [0, 0, 1, -1, -1000, 10 ** 9, -10 ** 9]) for _ in range(r.randint(1, 4))]
            ops.append(op)
        plan['ops'] = ops
        return plan

    def __init__(self, rng, prof):
        super().__init__(rng, prof)
        self.tickrate = pick(rng, [0, 0.3, 0.8])

    def sometag(self):
        sid = self.pick_class()
        return self.tagof(sid) if sid is not None and self.r.random() < 0.9 else pick(self.r, TAGS)

    def g_view(self):
        r = self.r
        op = dict(op='view', how=pick(r, ['dict', 'xml', 'fulldump', 'whynot', 'last', 'dumplast', 'light', 'flat',
                                          'soft', 'ordered', 'dumper', 'names']), tag=self.sometag())
        if r.random() < 0.1:
            op['void'] = True
        if op['how'] in ('dict', 'fulldump'):
            op['stamp'] = r.random() < 0.5
        elif op['how'] == 'whynot':
            op['pat'] = pick(r, ['.', 'alpha', 'ALPHA', 'simcls', 'simpkg.*Beta', '^simcls\\.', '[0-2]$', 'nosuch', ''])
        elif op['how'] in ('soft', 'ordered', 'dumper'):
            op['whyfirst'] = r.random() < 0.4
            op['direct'] = r.random() < 0.4
            if op['how'] == 'dumper' and r.random() < 0.6:
                op['depth'] = [r.randint(0, 3), r.randint(1, 2)]
        self.ops.append(op)

    def g_rlog(self):
        self.ops.append(dict(op='rlog', how=pick(self.r, ['clear', 'reduce']), tag=self.sometag()))

    def g_fresh(self):
        """Searches in a collector that does not exist yet (and may get classes later on)."""
        r = self.r
        tag = pick(r, TAGS)
        sid = self.pick_class()
        if sid is None:
            return
        for _ in range(r.randint(1, 5)):
            self.ops.append(dict(op='load', entry=pick(r, ['module', 'mpickup', 'mpickup', 'pickup']), tag=tag,
                                 desc=self.desc_for(sid)))
        self.g_view()
        if self.ops[-1].get('op') == 'view':
            self.ops[-1]['tag'] = tag

    def g_couldbe(self):
        sid = self.pick_class()
        if sid is None:
            return
        self.add(dict(op='couldbe', cls=sid, desc=self.desc_for(sid)))


def generate(rng, prof):
    return ReportGen(rng, prof).generate()
