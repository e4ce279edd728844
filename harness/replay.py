"""Behaviours that TLC generated from ObjectStoreGen, carried out by the real library.

The behaviour says which objects to make, which calls to make on them and what each call has to
answer; after every step all live objects are compared with what the state machine has for them:
their values must not have changed, and what they remember must be true and written only once.
"""
import itertools
import json

import algebraixlib.mathobjects as mo
import algebraixlib.undef as ud

from . import gen as G
from .enc import FLAGS, flags
from .gen import Builder, a, c, m, sv
from .ops import BY_NAME, LOOKUPS, PROTOCOL, COPIES, U
from .rec import Recorder

OPS = dict(BY_NAME)
OPS.update({op.name: op for op in LOOKUPS + PROTOCOL + COPIES})
NAMINGS = [{'p': 'p', 'q': 'q', 'r': 'r'}, {'p': 1, 'q': 2, 'r': 3}, {'p': 1, 'q': '1', 'r': True},
           {'p': 0, 'q': False, 'r': 0.0}, {'p': None, 'q': '', 'r': 'None'}, {'p': (1,), 'q': 2.5, 'r': b'x'}]


def value(j, names):
    """The plain value of the specification's JSON."""
    k = j[0]
    if k == 'a':
        return a(names[j[1]])
    if k == 'c':
        return c(value(j[1], names), value(j[2], names))
    if k == 's':
        return sv(value(e, names) for e in j[1])
    if k == 'm':
        return m({value(e, names): n for e, n in j[1]})
    return tuple(j)


def observed(res, err):
    if err:
        return ('x', err[0])
    if isinstance(res, mo.MathObject):
        try:
            return G.plain(res)
        except RecursionError:
            return ('?', 'object that contains itself')
    if res is U:
        return ('u', 0)
    if isinstance(res, bool):
        return ('b', res)
    return ('?', repr(res)[:100])


class Replay:
    def __init__(self, rec, rng, beh):
        self.rec, self.rng, self.beh = rec, rng, beh
        self.names = rng.choice(NAMINGS)
        self.b = Builder(rng, p_warm=rng.choice([0, 0, .4]))
        self.h, self.vals, self.may, self.fl = [], [], [], []
        self.bad = []

    def fail(self, clause, op, at, what):
        self.bad.append({'sig': '%s %s' % (clause, op), 'clause': clause, 'op': op, 'what': what[:1500],
                         'atoms': {k: repr(v) for k, v in self.names.items()}, 'behaviour': self.beh[:at + 1]})

    def add(self, o, v, t):
        self.h.append(o)
        self.vals.append(v)
        self.may.append(t)
        self.fl.append((0,) * len(FLAGS))

    def observe(self, op, at):
        for n, o in enumerate(self.h):
            f = flags(o)
            if f != self.fl[n]:
                for i, (x, y) in enumerate(zip(self.fl[n], f)):
                    if x and x != y:
                        self.fail('grow', op, at, 'object %d: %s was %d, became %d' % (n + 1, FLAGS[i], x, y))
                    if y and y not in self.may[n][i]:
                        self.fail('flags', op, at, 'object %d = %r remembers %s = %d, true is %r' % (
                            n + 1, o, FLAGS[i], y, self.may[n][i]))
                self.fl[n] = f
            if observed(o, None) != self.vals[n]:
                self.fail('value', op, at, 'object %d was %r, is %r' % (n + 1, self.vals[n], o))
                self.vals[n] = observed(o, None)
        self.rec.flag_obs += len(self.h)

    def run(self):
        level = 0
        try:
            for at, e in enumerate(self.beh):
                if self.bad:
                    return
                if e['e'] == 'level':
                    level = e['n']
                    (ud.RaiseOnUndef.reset if level == 0 else lambda: ud.RaiseOnUndef.set_level(level))()
                    continue
                if e['e'] == 'make':
                    v = value(e['v'], self.names)
                    ud.RaiseOnUndef.reset()
                    self.add(self.b(v), v, e['t'])
                    if level:
                        ud.RaiseOnUndef.set_level(level)
                    self.observe('make', at)
                    continue
                self.call(at, e)
        finally:
            ud.RaiseOnUndef.reset()

    def call(self, at, e):
        rec = self.rec
        op = OPS[e['op']]
        fn = op.fn if op.name != 'mo.copy' else self.rng.choice(COPIES).fn
        args = [self.h[n - 1] for n in e['h']]
        if e['key']:
            k = self.names[e['key'][0][1]] if e['key'][0][0] == 'a' else None
            args.append(k if k is not None and self.rng.random() < .3 and not op.name.endswith('defined_at')
                        else Builder.plain(self.b, value(e['key'][0], self.names)))
        want = value(e['r'], self.names)
        res, err = rec.run(fn, tuple(args))
        got = observed(res, err)
        rec.calls += 1
        rec.op_counts[op.name] = rec.op_counts.get(op.name, 0) + 1
        k = (op.name, 'raise' if err else 'undef' if res is U else 'value')
        rec.outcomes[k] = rec.outcomes.get(k, 0) + 1
        if k[1] == 'value':
            rec.nontrivial.add((op.name, tuple(self.vals[n - 1] for n in e['h']), want))
        if got != want or type(got) is not type(want) or (got[0] == 'b' and got[1] is not want[1]):
            self.fail('call', op.name, at, 'wants %r, got %r' % (want, got if err is None else err))
            return
        if e['new']:
            self.add(res, want, e['t'])
        self.observe(op.name, at)


def replay(x, path):
    rec = Recorder()
    rec.raw = []
    rec.violations = []
    n = 0
    with open(path) as f:
        for line in f:
            if line.startswith('"BEH '):
                r = Replay(rec, x.rng, json.loads(json.loads(line)[4:]))
                r.run()
                rec.violations += r.bad[:3]
                n += 1
                if len(rec.violations) > 300:
                    break
    x.info['replayed'] = n
    return rec
