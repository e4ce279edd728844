"""C24: diagnostics. Random programs of nested functions with timers are run; what every action prints is recorded
and judged against the state machine of spec/Timers.tla."""
import contextlib
import gc
import io
import random
import re
import time

import algebraixlib.mathobjects as mo
import algebraixlib.util.miscellaneous as misc

from . import gen as G
from .gen import Builder, Gen
from .rec import Recorder

TEXTS = ['', 'plain', 'two\nlines', 'a\n\nb', '{0}', '{x}', '{', '%s', ' lead', 'trail\n', '...', '\n', 'p\n  q\nr', 'x' * 40, '  ', '(s)', ', T s']
NAMES = ['foo', 'bar', 'load_data', '_private', 'x1']
VARS = ['v', 'value', 'result', '_tmp', 'n2']
ARGS = ['a', 'b', 'this', 'data']
TOL = .003
TIMED = re.compile(r'\((used|elapsed) (-?\d+\.\d{3}) s\)')


class Fault(Exception):
    pass


def clocks():
    return {'elapsed': time.perf_counter(), 'used': time.process_time()}


class Run:
    """One history: statements of the generated functions report here what they are about to do."""
    def __init__(self):
        self.out, self.actions, self.texts, self.pending = io.StringIO(), [], [], None
        self.T, self.V, self.begun = {}, {}, {}

    def cut(self):
        """The text printed since the last action began."""
        if self.pending is not None:
            text = self.out.getvalue()
            self.out.seek(0)
            self.out.truncate()
            tid, before = self.pending
            now = clocks()
            if tid is not None and tid in self.begun:
                t0, t1 = self.begun[tid]

                def sub(g):
                    u, x = g.group(1), float(g.group(2))
                    right = before[u] - t1[u] - TOL <= x <= now[u] - t0[u] + TOL
                    return '(%s T s)' % u if right else g.group()
                text = TIMED.sub(sub, text, count=1)
            self.texts.append(text)
            self.pending = None
        elif self.out.getvalue():
            self.texts.append('stray: ' + self.out.getvalue())

    def __call__(self, action, tid=None):
        self.cut()
        self.actions.append(action)
        self.pending = (tid, clocks())

    def started(self, tid):
        self.begun[tid] = (self.pending[1], clocks())

    def said(self, text):
        self.cut()
        self.texts[-1] += text

    @staticmethod
    def spin(seconds):
        end = time.process_time() + seconds
        while time.process_time() < end:
            pass


def length(v):
    try:
        return len(v)
    except Exception:
        return -1


class Program:
    """Generates the source of one history."""
    def __init__(self, rng, g, b):
        self.rng, self.g, self.b = rng, g, b
        self.src, self.values, self.next, self.size = [], [], 0, 0
        self.timers = []                    # ids that exist when a statement is generated, in execution order
        self.quiet = rng.random() < .2

    def value(self):
        r = self.rng
        k = r.random()
        v = (r.choice(TEXTS) if k < .4 else r.choice([0, -3, 2.5, None, True, 10 ** 6]) if k < .6 else
             [r.randint(0, 9) for _ in range(r.choice([0, 1, 3, 30]))] if k < .7 else {'k': 1} if k < .75 else
             'y' * r.choice([9998, 9999, 10000, 10001, 12000]) if k < .77 else self.b(self.g.any()))
        self.values.append(v)
        return len(self.values) - 1

    def lit(self, x):
        """A literal in the generated source."""
        self.values.append(x)
        return 'VAL[%d]' % (len(self.values) - 1)

    def function(self, depth, fault=False):
        """A function: its name, source lines, and the arguments it is called with."""
        r = self.rng
        name = r.choice(NAMES)
        args = r.sample(ARGS, r.randint(0, 3))
        vals = [self.value() for _ in args]
        body = []
        self.size += 1
        scope = {a: i for a, i in zip(args, vals)}
        mine = []
        timed = r.random() < .85
        with_ = timed and r.random() < .3
        ind = '    '
        if timed:
            self.start(body, ind, mine, name, args, vals, first=True, with_=with_)
            if with_:
                ind += '    '
        self.block(body, ind, depth, scope, mine, name, args, vals)
        if with_:
            body.append(ind + 'A(["leave", %d])' % mine[0])
            if fault:
                body.append(ind + 'raise Fault()')
        elif r.random() < .5:
            for t in mine:
                if r.random() < .8:
                    self.end(body, ind, t, scope)
        if fault and not with_:
            body.append(ind + 'raise Fault()')
        src = ['def %s(%s):' % (name, ', '.join(args))] + body + ['    return None']
        return name, src, ', '.join('VAL[%d]' % i for i in vals)

    def start(self, body, ind, mine, name, args, vals, first, with_=False):
        r = self.rng
        tid = self.next
        self.next += 1
        quiet, notime, wall = self.quiet and r.random() < .5, r.random() < .3, r.random() < .5
        main = r.random() < .15
        shown, kw = list(zip(args, vals)), []
        if main:
            kw.append('is_function=False')
            name, shown = '(main)', []
        elif not first or r.random() < .4:
            some = r.sample(args, r.randint(0, len(args)))
            kw.append('args=%r' % some)
            shown = [(a, i) for a, i in shown if a in some]
        for k, v in (('quiet', quiet), ('notime', notime), ('walltime', wall)):
            if v or r.random() < .2:
                kw.append('%s=%r' % (k, v))
        body.append(ind + 'A(["start", %d, %r, %r, %r, %r, [%s]], %d)' % (
            tid, name, quiet, notime, wall, ', '.join('[%r, str(VAL[%d])]' % q for q in shown), tid))
        ctor = 'FunctionTimer(%s)' % ', '.join(kw)
        if with_ and r.random() < .5:
            body.append(ind + 'with %s as T[%d]:' % (ctor, tid))
            body.append(ind + '    R.started(%d)' % tid)
        else:
            body.append(ind + 'T[%d] = %s' % (tid, ctor))
            body.append(ind + 'R.started(%d)' % tid)
            if with_:
                body.append(ind + 'with T[%d]:' % tid)
        mine.append(tid)
        self.timers.append(tid)

    def detail(self, scope, kw):
        """The description of a lap or end, as keyword arguments and as the action shows it."""
        r = self.rng
        k = r.random()
        if k < .25:
            return '["none"]'
        if k < .5:
            t = self.lit(r.choice(TEXTS + [7, None, 'none']))
            if 'None' in t:
                t = '"x"'
            kw.append('desc=%s' % t)
            return '["desc", str(%s)] if %s is not None else ["none"]' % (t, t)
        if not scope:
            return '["none"]'
        var = r.choice(sorted(scope))
        short = r.random() < .3
        most = r.choice([0, 1, 5, 20, 100]) if r.random() < .5 else 10000 if r.random() < .9 else None
        kw.append(r.choice(['variable_name=%r' % var, repr(var)]))
        if kw[-1] == repr(var):
            kw.insert(0, kw.pop())
        if short or r.random() < .2:
            kw.append('short=%r' % short)
        if most != 10000:
            kw.append('max_length=%r' % most)
        return '["var", %r, length(VAL[%d]), str(VAL[%d]), %r, %d]' % (var, scope[var], scope[var], short,
                                                                      -1 if most is None else most)

    def end(self, body, ind, tid, scope):
        kw = []
        d = self.detail(scope, kw)
        body.append(ind + 'A(["end", %d, %s], %d)' % (tid, d, tid))
        body.append(ind + 'T[%d].end(%s)' % (tid, ', '.join(kw)))

    def block(self, body, ind, depth, scope, mine, name, args, vals):
        r = self.rng
        for _ in range(r.randint(1, 6)):
            k = r.random()
            if k < .15:
                v, i = r.choice(VARS), self.value()
                scope[v] = i
                body.append(ind + '%s = VAL[%d]' % (v, i))
            elif k < .4 and self.timers:
                tid = r.choice(self.timers if r.random() < .3 or not mine else mine)
                kw = []
                d = self.detail(scope, kw)
                skip = r.random() < .15
                if skip or r.random() < .1:
                    kw.append('skip=%r' % skip)
                body.append(ind + 'A(["lap", %d, %r, %s], %d)' % (tid, skip, d, tid))
                body.append(ind + 'if T[%d].lap(%s) is not T[%d]: R.said("lap is not the timer")' % (tid, ', '.join(kw), tid))
            elif k < .5 and self.timers:
                tid = r.choice(self.timers)
                ts = [self.lit(r.choice(TEXTS + [0, 1.5, None])) for _ in range(r.randint(0, 3))]
                body.append(ind + 'A(["print", %d, [%s]])' % (tid, ', '.join('str(%s)' % t for t in ts)))
                body.append(ind + 'T[%d].print(%s)' % (tid, ', '.join(ts)))
            elif k < .58 and self.timers:
                self.end(body, ind, r.choice(self.timers if r.random() < .3 or not mine else mine), scope)
            elif k < .63:
                self.start(body, ind, mine, name, args, vals, first=False)
            elif k < .66 and self.timers:
                tid = r.choice(self.timers)
                body.append(ind + 'A(["leave", %d])' % tid)
                body.append(ind + 'T[%d].__exit__(None, None, None)' % tid)
            elif k < .78 and scope:
                self.var(body, ind, scope)
            elif k < .81:
                n = r.randint(0, 2)
                body.append(ind + 'A(["indent", %d])' % n)
                body.append(ind + 'R.said(FunctionTimer.get_indent(%s))' % (n or ''))
            elif k < .84:
                body.append(ind + r.choice(['time.sleep(.006)', 'R.spin(.006)']))
            elif depth > 0 and self.size < 8:
                fault = r.random() < .2
                f, src, call = self.function(depth - 1, fault)
                self.src.append((f, src))
                n = len(self.src) - 1
                if fault:
                    body += [ind + 'try:', ind + '    F[%d](%s)' % (n, call), ind + 'except Fault:', ind + '    pass']
                else:
                    body.append(ind + 'F[%d](%s)' % (n, call))

    def var(self, body, ind, scope):
        r = self.rng
        v = r.choice(sorted(scope))
        short, skip = r.random() < .25, r.random() < .1
        most = r.choice([0, 1, 4, 20, 10000, None])
        app = r.choice(['', '', '', '!', ' end', '\n', '{0}', '{', '}', '{len}', '%s'])
        indent = r.choice([None, None, '', '  ', '> '])
        first = r.choice([None, None, '', '    ', '* '])
        kw = [repr(v)]
        for k, q, dflt in (('short', short, False), ('skip', skip, False), ('max_length', most, 10000), ('append', app, ''),
                           ('indent', indent, None), ('indent_first', first, None)):
            if q != dflt or r.random() < .15:
                kw.append('%s=%r' % (k, q))
        i = indent or ''
        f = i if first is None else first
        body.append(ind + 'A(["var", %r, %r, length(VAL[%d]), str(VAL[%d]), %r, %d, %r, %r, %r])' % (
            skip, v, scope[v], scope[v], short, -1 if most is None else most, app, i, f))
        if r.random() < .25:        # seen from a function further in
            kw.append('frames_up=1')
            body.append(ind + 'further(%s)' % ', '.join(kw))
        else:
            body.append(ind + 'print_var(%s)' % ', '.join(kw))

    def run(self):
        R = Run()
        f, src, call = self.function(3)
        self.src.append((f, src))
        F = {}
        env = {'A': R, 'R': R, 'T': R.T, 'F': F, 'VAL': self.values, 'FunctionTimer': misc.FunctionTimer, 'print_var': misc.print_var,
               'length': length, 'time': time, 'Fault': Fault, 'further': lambda *q, **kw: misc.print_var(*q, **kw)}
        for i, (n, lines) in enumerate(self.src):
            here = {}
            exec(compile('\n'.join(lines), '<history %d>' % i, 'exec'), env, here)
            F[i] = here[n]
        with contextlib.redirect_stdout(R.out):
            try:
                eval('F[%d](%s)' % (len(self.src) - 1, call), env)
            except Exception as e:
                R.said('raised %s' % type(e).__name__)
            drop = self.rng.random() < .05
            env.clear()
            for tid in sorted(R.T):         # whatever is left is ended silently, or dropped
                R(['drop' if drop else 'leave', tid])
                t = R.T.pop(tid)
                if not drop:
                    t.__exit__(None, None, None)
                del t
                if drop:
                    gc.collect()
            R(['indent', 3])
            R.said(misc.FunctionTimer.get_indent(3))
        return R


def stopwatch(rng, quiet, msgs):
    out, texts = io.StringIO(), []
    with contextlib.redirect_stdout(out):
        a = time.perf_counter()
        t = misc.PerformanceTimer(*([quiet] if quiet or rng.random() < .5 else []))
        b, first = time.perf_counter(), None
        for q in msgs:
            if rng.random() < .3:
                time.sleep(.002)
            c0 = time.perf_counter()
            t.end(*([q] if q or rng.random() < .5 else []))
            d = time.perf_counter()
            if first is None:
                first = (c0 - b, d - a, t.get_elapsed_time())
            lo, hi, el = first
            text = out.getvalue()
            out.seek(0)
            out.truncate()
            right = t.get_elapsed_time() == el and lo <= el <= hi and el == t.get_end_time - t.get_start_time and \
                a <= t.get_start_time <= b
            if right:
                text = text.replace(' %.5f seconds' % el, ' T seconds')
            elif quiet:
                text += 'wrong time'
            texts.append(text)
    return texts


def c24(x, rec=None):
    rec = rec or Recorder()
    rng = x.rng
    for i in range(x.n(5000)):
        if i % 20 == 0:
            g, b = Gen(random.Random(rng.random()), size=3), Builder(rng)
        p = Program(rng, g, b)
        r = p.run()
        rec.call('timer.history', lambda _: r.texts, (0,), shown=(r.actions,))
        x.info['histories'] = x.info.get('histories', 0) + 1
        if i % 5 == 0:
            quiet = rng.random() < .3
            msgs = [rng.choice(['', 'load', 'a b', '{0}']) for _ in range(rng.randint(1, 3))]
            rec.call('timer.stopwatch', lambda _: stopwatch(rng, quiet, msgs), (0,), shown=(quiet, msgs))
    return rec
