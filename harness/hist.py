"""Recorded histories: many calls of all kinds over one growing pool of shared objects.

After every step all live objects are observed again (value, remembered answers), so that any side
effect on any of them shows, and hash and printed form are probed repeatedly.
"""
import collections
import json
import random

import algebraixlib.mathobjects as mo
import algebraixlib.partition as partition
import algebraixlib.undef as ud

from . import campaign as K
from . import gen as G
from .enc import flags, reachable
from .gen import Builder, Gen, warm
from .ops import ALL, COPIES, LOOKUPS, MEMBERSHIP, PROPERTIES, PROTOCOL, U
from .rec import Recorder

MAX_LIVE = 40


class History:
    def __init__(self, rec, rng, out):
        self.rec, self.rng, self.out = rec, rng, out
        self.enc = rec.enc
        self.h = []             # live objects
        self.ids = {}           # id -> handle (1-based)
        self.vals, self.flags = [], []
        self.level = 0
        self.calls = []         # calls that can be repeated
        self.sources = []       # mutable collections that live objects were made from
        self.line({'e': 'reset'})

    def line(self, d):
        self.out.append(json.dumps(d))

    def js(self, i):
        return json.loads(self.enc.js[i])

    def register(self, o):
        self.ids[id(o)] = len(self.h) + 1
        self.h.append(o)
        self.vals.append(self.enc.enc(o))
        self.flags.append(flags(o))

    def make(self, o, deep=True):
        for x in (reachable(o).values() if deep else [o]):
            if id(x) not in self.ids and len(self.h) < MAX_LIVE:
                self.register(x)
                self.line({'e': 'make', 'v': self.js(self.vals[-1]), 'f': list(self.flags[-1])})

    def observe(self):
        chg, val = [], []
        for n, o in enumerate(self.h):
            f = flags(o)
            if f != self.flags[n]:
                chg.append([n + 1, list(f)])
                self.flags[n] = f
            v = self.enc.enc(o)
            if v != self.vals[n]:
                val.append([n + 1, self.js(v)])
                self.vals[n] = v
        self.rec.flag_obs += len(self.h)
        return chg, val

    def arg(self, o):
        n = self.ids.get(id(o))
        return ['h', n] if n else self.js(self.enc.enc(o))

    def call(self, op, args, real=None, again=True, fn=None):
        a = [self.arg(x) for x in args]
        real = args if real is None else real
        kw = {}
        if op.has_checked and self.rng.random() < .15 and \
                all(o is not U and K.kind_ok(k, o) for k, o in zip(op.kinds, args)):
            real = args
            kw = {'_checked': False}
        res, err = self.rec.run(fn or op.fn, tuple(real), kw)
        r = self.enc.exc(err[0]) if err else self.enc.enc(res)
        self.count(op.name, err, r)
        rh = self.ids.get(id(res), 0) if err is None else 0
        chg, val = self.observe()
        new = err is None and isinstance(res, mo.MathObject) and not rh and len(self.h) < MAX_LIVE \
            and self.enc.size[r] < 40
        d = {'e': 'call', 'op': op.name, 'a': a, 'r': self.js(r), 'rh': rh, 'new': new,
             'f': list(flags(res)) if new else [], 'chg': chg, 'val': val}
        if new:
            self.register(res)
        self.line(d)
        if new:
            self.make(res)
        if again and op.name not in ('sets.some', 'multisets.some'):
            self.calls.append((op, args, real, kw, fn, r, self.level))
        return None if err else res

    def count(self, name, err, r):
        rec = self.rec
        rec.calls += 1
        rec.op_counts[name] = rec.op_counts.get(name, 0) + 1
        k = (name, 'raise' if err else 'undef' if self.enc.kind[r] == 'u' else 'value')
        rec.outcomes[k] = rec.outcomes.get(k, 0) + 1

    def again(self):
        op, args, real, kw, fn, r, level = self.rng.choice(self.calls)
        if level != self.level:
            return
        res, err = self.rec.run(fn or op.fn, tuple(real), kw)
        s = self.enc.exc(err[0]) if err else self.enc.enc(res)
        self.count(op.name, err, s)
        chg, val = self.observe()
        self.line({'e': 'again', 'op': op.name, 'a': [self.arg(x) for x in args], 'r': self.js(r),
                   's': self.js(s), 'chg': chg, 'val': val})

    def probe(self, n=None):
        n = self.rng.randrange(len(self.h)) if n is None else n
        o = self.h[n]
        parts, err = self.rec.run(lambda: (hash(o), repr(o), str(o)), ())
        chg, val = self.observe()
        self.line({'e': 'probe', 'h': n + 1, 'd': repr(parts or err[0])[:3000], 'chg': chg, 'val': val})

    def make_from(self, v, b):
        """A Set or Multiset made from a mutable collection, which is changed later."""
        rng = self.rng
        direct = rng.random() < .5
        if v[0] == 's':
            es = [b(e) for e in v[1]]
            src = rng.choice([list, set, collections.deque])(es)
            o = mo.Set(src, direct_load=direct)
        else:
            d = {b(e): n for e, n in v[1]}
            src = rng.choice([dict, collections.Counter, collections.OrderedDict])(d)
            o = mo.Multiset(src, direct_load=direct)
        self.make(o)
        self.sources.append((src, self.ids.get(id(o))))

    def mutate(self):
        rng = self.rng
        src, n = rng.choice(self.sources)
        new = rng.choice([mo.Atom('new'), mo.Couplet('new', 1), mo.Set(mo.Couplet('new', 2))])
        if isinstance(src, dict):
            if src and rng.random() < .5:
                src[rng.choice(sorted(src, key=repr))] += 1
            elif src and rng.random() < .4:
                src.clear()
            else:
                src[new] = 2
        elif rng.random() < .3:
            src.clear()
        else:
            (src.add if isinstance(src, set) else src.append)(new)
        self.probe(n and n - 1)

    def set_level(self, n):
        if n == 0 and self.rng.random() < .5:
            ud.RaiseOnUndef.reset()
        else:
            ud.RaiseOnUndef.set_level(n)
        self.level = n
        self.line({'e': 'level', 'n': n, 'got': ud.RaiseOnUndef.get_level()})


def one(rec, rng, out, steps, ops, levels):
    g = Gen(random.Random(rng.random()), nested=rng.choice([0, .1, .3]), size=rng.choice([2, 3]))
    b = Builder(rng)
    h = History(rec, rng, out)
    try:
        for _ in range(rng.randint(3, 6)):
            h.make(b(rng.choice([g.relation, g.relation, g.clan, g.mclan, g.set, g.mset, g.any, g.tower])()))
        for _ in range(steps):
            k = rng.random()
            if k < .08 and h.h:
                h.probe()
            elif k < .18 and h.calls:
                h.again()
            elif k < (.32 if levels == 'often' else .22) and levels:
                h.set_level(rng.randint(0, 3))
            elif k < .25 and h.sources:
                h.mutate()
            elif rng.random() < .05:
                h.make(b(g.any()))
            elif rng.random() < .03:
                h.make_from(rng.choice([g.relation, g.clan, g.mclan, g.set, g.mset])(), b)
            else:
                op = rng.choice(ops[rng.choice(list(ops))])
                args, real = pick(h, op, g, b, rng)
                if args is not None:
                    h.call(op, args, real)
        for n in range(len(h.h)):
            h.probe(n)
    finally:
        ud.RaiseOnUndef.reset()


def pick(h, op, g, b, rng):
    """Arguments: live objects of the right kind, sometimes of any kind or fresh."""
    args = []
    for k in op.kinds:
        x = None
        q = rng.random()
        if q < .04 and op.name[:3] != 'mo.' and not op.name.startswith('properties') \
                and '.is_' not in op.name:
            x = U
        elif q < .75 and h.h:
            cand = [o for o in h.h if K.kind_ok(k, o)]
            if k == 'key' and args and args[0] is not U and rng.random() < .8:
                ls = {id(o): o for o in reachable(args[0]).values() if o.is_couplet}
                cand = [o.left for o in ls.values()] or cand
            x = rng.choice(cand) if cand else None
        elif q < .83 and h.h and op.name[:3] != 'mo.':
            x = rng.choice(h.h)
        if x is None:
            if k == 'func':
                v = g.relation()
                v = G.sv({e[1]: e for e in v[1]}.values())
            else:
                v = g.of_kind(k)
            x = b(v)
        args.append(x)
    if op.name == 'sets.power_set' and args[0] is not U and args[0].is_set and len(args[0]) > 4:
        return None, None
    if any(x is not U and h.enc.size[h.enc.enc(x)] > 60 for x in args):
        return None, None
    real = list(args)
    if op.kinds[-1] == 'key' and isinstance(args[-1], mo.Atom) and rng.random() < .3 \
            and not op.name.endswith('defined_at') and args[-1].value is not None:
        real[-1] = args[-1].value
    return args, real


ALGEBRA_OPS = [op for op in ALL if not op.name.startswith(('mo.', 'properties.')) and '.is_' not in op.name]


def record(x, n, steps, ops, levels=False):
    rec = Recorder()
    out = []
    for _ in range(n):
        one(rec, x.rng, out, steps, ops, levels)
    x.info['histories'] = n
    rec.raw = out
    return rec
