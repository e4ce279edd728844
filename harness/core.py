"""Recorders for queries, undefinedness, identity, structures, collections and constructors."""
import collections
import copy
import datetime
import decimal
import enum
import fractions
import itertools
import pickle
import random

import algebraixlib.algebras.multiclans as multiclans
import algebraixlib.algebras.multisets as multisets
import algebraixlib.extension as extension
import algebraixlib.mathobjects as mo
import algebraixlib.partition as partition
import algebraixlib.structure as st
import algebraixlib.undef as ud

from . import campaign as K
from . import gen as G
from .enc import OpName, Table, children, reachable, struct_json
from .gen import ALGEBRAS, EMPTY, MEMPTY, Builder, Gen, a, c, m, s, sv, warm
from .ops import (ALL, BY_NAME, CLANS, COPIES, COUPLETS, LOOKUPS, MEMBERSHIP, MULTICLANS, MULTISETS,
                  PROPERTIES, PROTOCOL, RELATIONS, SETS, U)
from .rec import Recorder

QUERIES = PROPERTIES + MEMBERSHIP
NAMED_IS = [op for op in ALL if '.is_' in op.name and op not in QUERIES and 'set_of' not in op.name]


def sessions(x, n, every=30, **kw):
    """Indices 0..n-1 with a generator and a builder that are renewed now and then."""
    g = b = None
    for i in range(n):
        if i % every == 0:
            g = Gen(random.Random(x.rng.random()), **dict({'nested': x.rng.choice([0, .1, .3])}, **kw))
            b = Builder(x.rng)
        yield i, g, b


# ------------------------------------------------------------------ C02: queries
def towers():
    r1, r2, r3 = s(c(K.A1, K.A2)), s(c(K.A1, K.A1)), s(c(K.A1, K.A2), c(K.A2, K.A1))
    rels = [EMPTY, r1, r2, r3, s(c(K.A2, K.A2))]
    clans = [sv(q) for k in range(0, 3) for q in itertools.combinations(rels, k)]
    out = [sv(q) for k in (1, 2) for q in itertools.combinations(clans, k)]
    out += [s(q) for q in out[:40]]
    out += [s(q, K.A1) for q in out[:6]] + [s(q, MEMPTY) for q in out[:6]] + [s(EMPTY, MEMPTY), s(MEMPTY)]
    return out


def query_universe():
    vals3 = [K.A1, K.A2, K.A3]
    rels = K.small_relations()
    mixed = [K.A1, a('x'), c(K.A1, K.A2), EMPTY, MEMPTY, s(K.A1), s(c(K.A1, K.A2)), s(c(K.A1, s(K.A1))),
             s(s(c(K.A1, K.A2))), m({K.A1: 2}), m({s(c(K.A1, K.A1)): 2}), m({c(K.A1, K.A1): 1})]
    colls = [sv(q) for k in (1, 2) for q in itertools.combinations(mixed, k)] + \
            [m({q: n for q, n in zip(p, (1, 2))}) for k in (1, 2) for p in itertools.combinations(mixed, k)]
    return (G.couplets_over(vals3) + [c(x, y) for x in mixed for y in mixed] + rels + K.small_clans(2) +
            K.small_mclans() + colls + towers() + K.small_sets() + mixed)


def c02(x, rec=None):
    rec = rec or Recorder()
    vals3 = [K.A1, K.A2, K.A3]
    rels3 = list(G.relations_over(vals3, 4)) + x.rng.sample(list(G.relations_over(vals3)), 60)
    x.info['universe'] = K.exhaustive(rec, x.rng, QUERIES, {'mo': query_universe()}, x.n(26000))
    x.info['relations over 3'] = K.exhaustive(
        rec, x.rng, PROPERTIES + [op for op in NAMED_IS if op.kinds == ('rel',)], {'mo': rels3, 'rel': rels3}, x.n(7000))
    rels = K.small_relations()
    clans3 = list(G.clans_over(rels, 3))
    x.info['clans of 3'] = K.exhaustive(
        rec, x.rng, PROPERTIES + [op for op in NAMED_IS if op.kinds == ('clan',)], {'mo': clans3, 'clan': clans3}, x.n(6000))
    mcl = K.small_mclans()
    K.exhaustive(rec, x.rng, [op for op in NAMED_IS if op.kinds in (('mclan',), ('cpl',))],
                 {'mclan': mcl, 'cpl': G.couplets_over(vals3)}, x.n(2500))
    K.random_ops(rec, x.rng, QUERIES, x.n(16000), pool_p=0)
    K.random_ops(rec, x.rng, NAMED_IS, x.n(9000), pool_p=.2)
    K.large(rec, x.rng, QUERIES + NAMED_IS, x.n(700))
    # the same object asked everything, in several orders
    for i, g, b in sessions(x, x.n(700)):
        o = b(x.rng.choice([g.relation, g.clan, g.mclan, g.tower, g.any])())
        qs = [op for op in QUERIES if x.rng.random() < .6] * 2
        x.rng.shuffle(qs)
        for op in qs:
            rec.call(op.name, op.fn, (o,))
    return rec


def hist_query(x):
    from . import hist as H
    return H.record(x, x.n(300), 40, {
        'q': PROPERTIES, 'q2': MEMBERSHIP, 'named': NAMED_IS, 'ops': H.ALGEBRA_OPS, 'lookups': LOOKUPS}, levels=False)


# ------------------------------------------------------------------ C08: undefined
WITH_KINDS = [op for op in ALL if not op.name.startswith('mo.')]


def wrong(k, g, b, rng):
    """An object that is not of kind k (or Undef)."""
    if rng.random() < .35:
        return U
    for _ in range(20):
        v = rng.choice([g.any, g.relation, g.clan, g.mclan, g.set, g.mset, g.couplet, g.tower, g.comp])()
        o = b(v)
        if not K.kind_ok(k, o):
            return o
    return U


def c08(x, rec=None):
    rec = rec or Recorder()
    rng = x.rng
    for i, g, b in sessions(x, x.n(34000)):
        op = rng.choice(WITH_KINDS)
        vals = K.gen_args(op, g)
        if op.name == 'sets.power_set':
            vals = [sv(sorted(vals[0][1], key=repr)[:4])]
        args = [b(v) for v in vals]
        if rng.random() < .6:
            for j in range(len(args)):
                if rng.random() < .65:
                    args[j] = wrong(op.kinds[j], g, b, rng) if op.kinds[j] not in ('mo', 'key', 'any') else \
                        (U if '.is_' not in op.name else args[j])
        if '.is_' in op.name and op.kinds == ('mo',) and not op.name.startswith('properties') and any(o is U for o in args):
            continue
        kw = {}
        if op.has_checked and rng.random() < .12 and all(K.kind_ok(k, o) for k, o in zip(op.kinds, args) if o is not U) \
                and not any(o is U for o in args):
            kw['_checked'] = False
        rec.call(op.name, op.fn, tuple(args), rng.randint(0, 3), kw)
    _variadic_undef(rec, x)
    _singleton(rec, x)
    return rec


def _variadic_undef(rec, x):
    rng = x.rng
    for i, g, b in sessions(x, x.n(2500)):
        p = rng.choice(['relations', 'clans', 'multiclans'])
        mod = ALGEBRAS[p]
        keys = [U if rng.random() < .25 else b(g.comp()) for _ in range(rng.randint(0, 3))]
        lv = rng.randint(0, 3)
        k = rng.random()
        if k < .4:
            rec.call(p + '.diag', mod.diag, tuple(keys), lv, shown=(keys,))
        elif k < .8 and p != 'relations':
            o = b(g.clan() if p == 'clans' else g.mclan())
            if rng.random() < .3:
                o = wrong('clan' if p == 'clans' else 'mclan', g, b, rng)
            rec.call(p + '.project', mod.project, (o,) + tuple(keys), lv, shown=(o, keys))
        else:
            args = keys[:2] or [U]
            rec.call('ctor.make_couplet', mo.make_couplet, tuple(args), lv)
            rec.call('ctor.make_couplet', mo.make_couplet_unchecked, tuple(args), lv)
            rec.call('ctor.set', mo.make_set, tuple(keys), lv, shown=(keys,))
            rec.call('ctor.set', mo.make_set_unchecked, tuple(keys), lv, shown=(keys,))


def _singleton(rec, x):
    """The undefined value itself."""
    things = [ud.Undef(), None, 1, 'x', mo.Atom(1), mo.Set(), mo.Couplet(1, 2), mo.Multiset(), ud.Undef]
    for lv in range(4):
        for t in things:
            for name, f in (('eq', lambda: ud.Undef() == t), ('ne', lambda: ud.Undef() != t),
                            ('bool', lambda: bool(ud.Undef())), ('not', lambda: not ud.Undef()),
                            ('if', lambda: 1 if ud.Undef() else 2)):
                rec.call('undef.refuse', lambda q, f=f: f(), (name,), lv)
        for name, f in (('new', lambda: ud.Undef()), ('copy', lambda: copy.copy(U)),
                        ('deepcopy', lambda: copy.deepcopy([U, (U, mo.Atom(1))])[1][0]),
                        ('made', ud.make_undef), ('eval', lambda: eval(repr(U), {'Undef': ud.Undef})),
                        *[('pickle%d' % p, lambda p=p: pickle.loads(pickle.dumps(U, p))) for p in range(5)]):
            rec.call('undef.same', lambda q, f=f: f() is ud.Undef(), (name,), lv)
        for n in range(0, 5):
            rec.call('undef.make', ud.make_or_raise_undef, (n,), lv)
        rec.call('undef.make', lambda q: ud.make_or_raise_undef(), (1,), lv)
        rec.call('undef.make', lambda q: ud.make_or_raise_undef2(U), (2,), lv)
        for t in things[1:]:
            rec.call('undef.make', lambda q: ud.make_or_raise_undef2(t), (1,), lv)
        rec.call('undef.kinds', lambda q: [U.is_atom, U.is_couplet, U.is_set, U.is_multiset], (0,), lv)


def hist_level(x):
    from . import hist as H
    return H.record(x, x.n(260), 40, {
        'ops': H.ALGEBRA_OPS, 'ops2': H.ALGEBRA_OPS, 'q': QUERIES, 'named': NAMED_IS, 'lookups': LOOKUPS},
        levels='often')


# ------------------------------------------------------------------ C09: identity and order
class Color(enum.Enum):
    RED = 1
    BLUE = 2


class Sub(int):                 # a type of its own, which prints as what it is
    def __repr__(self):
        return 'Sub(%d)' % self


class SubStr(str):
    def __repr__(self):
        return 'SubStr(%s)' % str.__repr__(self)


D = datetime.date
ORDER_POOLS = G.POOLS + [
    [decimal.Decimal('1'), decimal.Decimal('-2.5'), fractions.Fraction(1, 2), 1, 1.0],
    [D(2020, 1, 2), D(2019, 12, 31), datetime.timedelta(days=1), 'a'],
    [complex(1, 2), complex(0, 1), 1, (1, 2), (1,), ()],
    [b'a', 'a', b'', '', 'b', "it's", 'q"uote', 'back\\slash', 'new\nline', '\u00e9', '\U0001d54f'],
    [10**20, -10**20, -1, 0, 1e300, -1e-300, float('inf'), 2**61 - 1, -2**61],
    [None, True, False, 0, 1, 'None', 'True'],
    [Color.RED, Color.BLUE, 1, 2],
    [-1, -2, -3, 2, 10, 9, 100],
    ['A', 'a', 'B', 'b', 'aa', 'ab', 'Z'],
]
EQ_POOLS = [
    [1, Sub(1), True, 1.0], [SubStr('a'), 'a', b'a'], [frozenset([1]), frozenset([1, 2]), (1, 2)],
    [(1,), (2, 'x'), ((1,),), ()],
]


def c09(x, rec=None):
    rec = rec or Recorder()
    rng = x.rng
    ns = {k: getattr(mo, k) for k in ('Atom', 'Couplet', 'Set', 'Multiset')}
    ns.update(Decimal=decimal.Decimal, Fraction=fractions.Fraction, datetime=datetime, inf=float('inf'))
    for i in range(x.n(600)):
        ordered = rng.random() < .85
        pool = rng.choice(ORDER_POOLS if ordered else EQ_POOLS)
        g = Gen(random.Random(rng.random()), pool=pool, nested=rng.choice([.1, .3]), size=3)
        b1, b2 = Builder(rng), Builder(rng, reuse=0)
        kind = rng.choice(['any', 'any', 'atoms', 'couplet', 'relation', 'clan', 'mset', 'set', 'near', 'near', 'near'])
        vals = []
        for _ in range(rng.randint(3, 5)):
            vals.append({'any': g.any, 'atoms': g.comp, 'couplet': g.couplet, 'relation': g.relation, 'clan': g.clan,
                         'mset': g.mset, 'set': g.set, 'near': g.any}[kind]())
        if kind == 'near':
            if rng.random() < .5:
                vals = [rng.choice([g.mset, g.mset, g.mclan, g.clan, g.relation])()]
                if rng.random() < .3:
                    vals = [rng.choice([lambda v: s(v), lambda v: c(v, v), lambda v: m({v: 2})])(vals[0])]
            vals = vals[:1] + [perturb(vals[0], g) for _ in range(4)]
            vals.append(perturb(rng.choice(vals), g))
        if kind == 'atoms':
            vals = [a(v) for v in rng.sample(pool, min(len(pool), 6))]
        objs = [b1(v) for v in vals] + [b2(v) for v in rng.sample(vals, min(3, len(vals)))]
        rng.shuffle(objs)
        order_event(rec, objs, ordered)
        if i % 4 == 0:
            for o in objs[:4]:
                plain = rng.choice([1, 'x', None, (), frozenset(), set(), [], {}, 2.5, True])
                rec.call('mo.eq', lambda p, q: p == q, (o, plain), shown=(o, '<plain>'))
                rec.call('mo.ne', lambda p, q: p != q, (o, plain), shown=(o, '<plain>'))
        if ordered and not any(isinstance(v, enum.Enum) for v in pool):
            for o in objs:
                rec.call('mo.copy', lambda q: eval(repr(q), dict(ns)), (o,))
        elif not ordered and pool is EQ_POOLS[1]:
            for o in objs:
                rec.call('mo.copy', lambda q: eval(repr(q), dict(ns, SubStr=SubStr)), (o,))
        # a Set or dict of the objects finds them all by value
        for o, v in zip(objs, objs[1:]):
            rec.call('mo.contains', lambda q, e: e in q, (mo.Set([o]), v))
    return rec


def order_event(rec, objs, ordered):
    calls = []

    def first(f):
        out, err = rec.run(lambda: [f(o) for o in objs], ())
        if err:
            calls.append(err)
            return list(range(len(objs)))
        seen = {}
        return [seen.setdefault(y, i) for i, y in enumerate(out)]

    def matrix(f):
        out = []
        for p in objs:
            row = []
            for q in objs:
                r, err = rec.run(f, (p, q))
                if err or not isinstance(r, bool):
                    calls.append(err)
                    r = False
                row.append(r)
            out.append(row)
        return out
    ev = {'vs': [json_of(rec, o) for o in objs], 'ordered': ordered,
          'eq': matrix(lambda p, q: p == q), 'ne': matrix(lambda p, q: p != q)}
    for n, f in (('lt', lambda p, q: p < q), ('le', lambda p, q: p <= q), ('gt', lambda p, q: p > q),
                 ('ge', lambda p, q: p >= q)):
        ev[n] = matrix(f) if ordered else []
    ev['hash'], ev['repr'], ev['str'] = first(hash), first(repr), first(str)
    ev['failed'] = len(calls)
    # the equality seen by containers
    ev['dict'] = first(lambda o: o)
    rec.calls += 6 * len(objs) ** 2
    rec.op_counts['order'] = rec.op_counts.get('order', 0) + 1
    rec.nontrivial.add(('order', len(rec.events)))
    rec.raw_event('order', ev)


def json_of(rec, o):
    import json
    return json.loads(rec.enc.js[rec.enc.enc(o)])


def perturb(v, g):
    """A value that differs from v in one place."""
    r = g.rng
    if v[0] == 'a':
        return g.comp()
    if v[0] == 'c':
        return c(perturb(v[1], g), v[2]) if r.random() < .5 else c(v[1], perturb(v[2], g)) \
            if r.random() < .8 else c(v[2], v[1])
    es = sorted(v[1], key=repr)
    if v[0] == 's':
        if not es or r.random() < .3:
            return sv(es + [g.comp()]) if r.random() < .8 else MEMPTY
        i = r.randrange(len(es))
        return sv(es[:i] + es[i + 1:] + ([perturb(es[i], g) if r.random() < .8 else s(es[i])] if r.random() < .7 else []))
    if not es:
        return EMPTY
    d = dict(es)
    if len(es) > 1 and r.random() < .4:          # the same elements and total, other multiplicities
        ns = [n for _, n in es]
        if r.random() < .5:
            return m({e: n for (e, _), n in zip(es, ns[1:] + ns[:1])})
        i, j = r.sample(range(len(es)), 2)
        if ns[i] > 1:
            ns[i], ns[j] = ns[i] - 1, ns[j] + 1
        return m({e: n for (e, _), n in zip(es, ns)})
    e = r.choice(es)[0]
    n = d.pop(e)
    if r.random() < .5:
        d[e] = n + 1
    else:
        d[perturb(e, g)] = n
    return m(d) if r.random() < .8 else sv(d)


# ------------------------------------------------------------------ C11: structures
def rand_struct(rng, depth, n_ok=True):
    k = rng.random()
    if depth == 0 or k < .3:
        return rng.choice([('g', 'A'), ('g', 'A'), ('g', 'M'), ('g', 'N'), ('e',)])
    if k < .55:
        return ('cp', rand_struct(rng, depth - 1), rand_struct(rng, depth - 1))
    if k < .8:
        return ('p', rand_struct(rng, depth - 1))
    return ('un', tuple(rand_struct(rng, depth - 1) for _ in range(rng.randint(1, 3))))


def build_struct(t, rng):
    if t[0] == 'g':
        return {'A': st.GenesisSetA, 'M': st.GenesisSetM, 'N': st.GenesisSetN}[t[1]]()
    if t[0] == 'e':
        return st.Structure()
    if t[0] == 'cp':
        return st.CartesianProduct(build_struct(t[1], rng), build_struct(t[2], rng))
    if t[0] == 'p':
        return st.PowerSet(build_struct(t[1], rng))
    ms = [build_struct(q, rng) for q in t[1]]
    rng.shuffle(ms)
    if len(ms) > 1 and rng.random() < .3:
        ms = [ms[0], st.Union(ms[1:])]
    if rng.random() < .2:
        ms.append(ms[0])
    r = st.Union(ms)
    if rng.random() < .2:
        r = st.Union([r])
    return r


def small_structs():
    base = [('g', 'A'), ('g', 'M'), ('g', 'N'), ('e',)]
    one = base + [('p', q) for q in base[:2] + base[3:]] + \
        [('cp', q, r) for q in base[:2] for r in base[:3]] + [('un', (base[0], ('p', base[0])))]
    two = one + [('p', q) for q in one[4:]] + [('cp', q, r) for q in one[4:8] for r in (base[0], base[2])]
    two += [('un', (q, r)) for q in one for r in (base[0], ('p', base[0]), ('cp', base[0], base[0])) if q != r]
    return two


def relatives(t, rng):
    """Structures near t."""
    if t[0] == 'g' or t[0] == 'e':
        return rng.choice([('g', 'M'), ('g', 'A'), t, ('un', (t, ('p', t)))])
    if rng.random() < .15:
        return ('g', 'M')
    if rng.random() < .15:
        return ('un', (t, rand_struct(rng, 1)))
    if t[0] == 'cp':
        return ('cp', relatives(t[1], rng), t[2] if rng.random() < .5 else relatives(t[2], rng))
    if t[0] == 'p':
        return ('p', relatives(t[1], rng))
    q = list(t[1])
    i = rng.randrange(len(q))
    if rng.random() < .4 and len(q) > 1:
        del q[i]
    else:
        q[i] = relatives(q[i], rng)
    return ('un', tuple(q))


def as_tuple(j):
    return tuple(as_tuple(q) if isinstance(q, list) else q for q in j)


def struct_pair(rec, p, q):
    rec.call('struct.le', lambda y, z: y <= z, (p, q))
    rec.call('struct.le', lambda y, z: y.is_subset(z), (p, q))
    rec.call('struct.eq', lambda y, z: y == z, (p, q))
    rec.call('struct.eq', lambda y, z: y.is_same(z), (p, q))
    rec.call('struct.ne', lambda y, z: y != z, (p, q))
    rec.call('struct.hash_agrees', lambda y, z: not (y == z) or hash(y) == hash(z), (p, q))
    rec.call('struct.level', lambda y, z: y.get_powerset_level(z), (p, q))


def c11(x, rec=None):
    rec = rec or Recorder()
    rng = x.rng
    ns = {k: getattr(st, k) for k in ('Structure', 'GenesisSetA', 'GenesisSetM', 'GenesisSetN',
                                      'CartesianProduct', 'PowerSet', 'Union')}
    small = small_structs()
    pairs = [(p, q) for p in small for q in small]
    rng.shuffle(pairs)
    for p, q in pairs[:x.n(2500)]:
        struct_pair(rec, build_struct(p, rng), build_struct(q, rng))
    gs = {n: alg.get_ground_set() for n, alg in ALGEBRAS.items()}
    ags = {n: alg.get_absolute_ground_set() for n, alg in ALGEBRAS.items()}
    for n, alg in ALGEBRAS.items():
        rec.call('struct.algebra', lambda q, alg=alg: alg.get_ground_set(), (n,))
        rec.call('struct.absolute', lambda q, alg=alg: alg.get_absolute_ground_set(), (n,))
    for i in range(x.n(5000)):
        t = rand_struct(rng, rng.randint(1, 3))
        u = relatives(t, rng) if rng.random() < .7 else rand_struct(rng, 2)
        p, q = build_struct(t, rng), build_struct(u, rng)
        struct_pair(rec, p, q)
        struct_pair(rec, p, build_struct(t, rng))
        ms = [p, q] + [build_struct(rand_struct(rng, 1), rng) for _ in range(rng.randint(0, 2))]
        perm = ms[:]
        rng.shuffle(perm)
        rec.call('struct.union', lambda z: st.Union(list(perm)), (ms,))
        rec.call('struct.evalrepr', lambda z: eval(repr(z), dict(ns)), (p,))
        rec.call('struct.str_agrees', lambda y, z: str(y) == str(z),
                 (p, build_struct(t, rng)))
    objs = query_universe()
    rng.shuffle(objs)
    gen = sessions(x, x.n(7000), size=rng.choice([3, 3, 6]))
    for (i, g, b), v in itertools.zip_longest(gen, objs[:x.n(1500)]):
        if b is None:
            break
        o = b(v if v is not None else g.any())
        gso = o.get_ground_set()
        rec.call('struct.ground', lambda q: q.get_ground_set(), (o,))
        base = as_tuple(struct_json(gso))
        ts = [build_struct(relatives(base, rng), rng) for _ in range(3)]
        ts += [rng.choice(list(gs.values())), rng.choice(list(ags.values())), build_struct(rand_struct(rng, 2), rng)]
        for t in ts:
            rec.call('struct.in', lambda q, z: q.get_ground_set() <= z, (o, t))
        rec.call('struct.level', lambda y, z: y.get_powerset_level(z), (gso, rng.choice(list(gs.values()))))
    return rec


# ------------------------------------------------------------------ C12: partitions
def classifiers(rng, o):
    elems = list(o.data)
    salt = rng.random()

    def rnd(e):
        return random.Random(repr((salt, repr(e))))
    mixed = rng.sample([0, 1, True, 1.0, '1', None, '', (), (1,), mo.Atom(1), mo.Set(), mo.Multiset(), mo.Couplet(1),
                        mo.Set(1), mo.Set([mo.Set()]), 'x'], rng.randint(1, 4))
    return [
        lambda e: rnd(e).choice(mixed), lambda e: rnd(e).choice(mixed), lambda e: rnd(e).choice([1, 1.0, True]),
        lambda e: 0, lambda e: e, lambda e: mo.Set([e]),
        lambda e: len(reachable(e)) % 2, lambda e: e.is_set,
        lambda e: e.left if e.is_couplet else None, lambda e: e.right if e.is_couplet else e,
        lambda e: e.get_left_set() if e.is_set and all(q.is_couplet for q in e.data) else 0,
        lambda e: e.cardinality if e.is_set or e.is_multiset else -1,
        lambda e: e.is_empty if e.is_set or e.is_multiset else False,
        lambda e: rnd(e).choice(elems),
    ]


def c12(x, rec=None):
    rec = rec or Recorder()
    rng = x.rng
    small = K.small_sets() + K.small_msets() + K.small_clans(2) + K.small_mclans()
    rng.shuffle(small)
    small = small[:x.n(700)]
    for (i, g, b) in sessions(x, x.n(9000)):
        v = small.pop() if small else rng.choice([g.coll, g.coll, g.relation, g.clan, g.mclan, g.tower])()
        if rng.random() < .15 and v[0] == 's':
            v = sv(list(v[1]) + [g.any(2) for _ in range(6)])
        o = b(v)
        f = rng.choice(classifiers(rng, o))
        t = Table(lambda e: mo.auto_convert(f(e))).cover(rec.enc, [(e,) for e in o.data])
        for name, fn in (('partition.partition', partition.partition),
                         ('partition.labeled', partition.make_labeled_partition)):
            rec.call(name, fn, (o, f), shown=(o, t))
        if i % 20 == 0:
            bad = b(g.couplet() if rng.random() < .5 else g.comp())
            if not (bad.is_set or bad.is_multiset):
                for name, fn in (('partition.partition', partition.partition),
                                 ('partition.labeled', partition.make_labeled_partition)):
                    rec.call(name, fn, (bad, f), shown=(bad, t))
        if i % 3 == 0:      # parts can be partitioned again
            p, err = rec.run(partition.partition, (o, f))
            if not err:
                h = lambda e: e.cardinality
                t2 = Table(lambda e: mo.auto_convert(h(e))).cover(rec.enc, [(e,) for e in p.data])
                rec.call('partition.partition', partition.partition, (p, h), shown=(p, t2))
    return rec


# ------------------------------------------------------------------ C13: ordered slices
def as_pairs(r):
    return r if r is U else [[q, n] for q, n in r]


def c13(x, rec=None):
    rec = rec or Recorder()
    rng = x.rng
    INF = float('inf')
    for (i, g, b) in sessions(x, x.n(4500)):
        n = rng.choice([0, 1, 2, 3, 3, 4, 5])
        v = m({r: rng.choice([1, 1, 2, 3, 5]) for r in (g.rels(n) if rng.random() < .7 else
                                                         [s(c(a('k'), a(j))) for j in rng.sample(range(9), n)])})
        o = b(v)
        rows = list(o.data)
        salt = rng.random()
        mode = rng.choice(['distinct', 'ties', 'size', 'same', 'reverse'])
        ranks = {}
        for j, r in enumerate(sorted(rows, key=repr)):
            ranks[rec.enc.enc(r)] = {'distinct': j, 'ties': random.Random(repr((salt, repr(r)))).randint(0, 2),
                                     'size': len(r.data), 'same': 0, 'reverse': -j}[mode]
        rk = lambda r: ranks[rec.enc.enc(r)]
        wrap = rng.random() < .8
        less = lambda p, q: mo.Atom(rk(p) < rk(q))
        t = Table(rk).cover(rec.enc, [(r,) for r in rows])
        total = sum(k for _, k in v[1])
        for _ in range(3):
            off = rng.choice([0, 0, 1, 2, rng.randint(0, total + 2), total, total + 1])
            lim = rng.choice([INF, INF, 0, 1, 2, rng.randint(0, total + 3), total])
            sh = [off, 'inf' if lim == INF else lim]
            ro = mo.Atom(off) if rng.random() < .6 else off
            rl = mo.Atom(lim) if rng.random() < .6 else lim
            target = o
            kw = {}
            lv = 0
            if rng.random() < .12:
                lv = rng.randint(0, 3)
                k = rng.randrange(3)
                badv = rng.choice([U, mo.Atom('x'), 'x', mo.Atom(1.5), 1.5, None, mo.Set(1), mo.Couplet(1, 1)])
                if k == 0:
                    target = rng.choice([U, mo.Set(), mo.Atom(1), mo.Multiset(['a'])])
                elif k == 1:
                    ro, sh[0] = badv, bad_shown(badv)
                else:
                    rl, sh[1] = badv, bad_shown(badv)
            elif isinstance(ro, mo.Atom) and isinstance(rl, mo.Atom) and rng.random() < .4:
                kw['_checked'] = False
            rec.call('slice.listgen', multiclans.multiclan_to_listgen, (target, ro, rl), lv, kw,
                     shown=(target, sh[0], sh[1]), post=as_pairs)
            rec.call('slice.order_listgen', multiclans.order_slice_to_listgen, (target, less, ro, rl), lv, kw,
                     shown=(target, t, sh[0], sh[1]), post=as_pairs)
            rec.call('slice.order', multiclans.order_slice, (target, less, ro, rl), lv, kw,
                     shown=(target, t, sh[0], sh[1]))
        size = rng.randint(1, 3)

        def pages(mc):
            acc = {}
            for k in range(0, total + size, size):
                page = multiclans.order_slice(mc, less, mo.Atom(k), mo.Atom(size))
                for r, cnt in page.data.items():
                    acc[r] = acc.get(r, 0) + cnt
            return mo.Multiset(acc)
        if i % 2 == 0:
            rec.call('mo.copy', pages, (o,))
    return rec


def bad_shown(v):
    return v if v is U or isinstance(v, (mo.MathObject, str)) else '<%s>' % type(v).__name__


# ------------------------------------------------------------------ C20: lifting and trusted variants
def unary_fns(rng, elems):
    salt = rng.random()

    def rnd(*es):
        return random.Random(repr((salt, [repr(e) for e in es])))
    consts = [mo.Atom(0), mo.Atom('r'), mo.Set(), mo.Couplet(1, 2), mo.Atom(1), mo.Atom(True)]
    one = [lambda e: rnd(e).choice(consts), lambda e: rnd(e).choice(consts + [U, U]), lambda e: e, lambda e: U,
           lambda e: e if rnd(e).random() < .5 else U, lambda e: mo.Set([e]), lambda e: consts[0],
           lambda e: mo.Couplet(e.right, e.left) if e.is_couplet else U]
    two = [lambda p, q: rnd(p, q).choice(consts), lambda p, q: rnd(p, q).choice(consts + [U, U]), lambda p, q: p,
           lambda p, q: q, lambda p, q: U, lambda p, q: mo.Couplet(p, q), lambda p, q: mo.Set([p, q]),
           lambda p, q: p if rnd(p, q).random() < .5 else U,
           lambda p, q: mo.Couplet(q.left, p.right) if p.is_couplet and q.is_couplet and p.left == q.right else U]
    return one, two


def c20(x, rec=None):
    rec = rec or Recorder()
    rng = x.rng
    for (i, g, b) in sessions(x, x.n(7000)):
        p = b(g.set() if rng.random() < .5 else g.mset())
        lv = rng.choice([0, 0, 0, 1, 2, 3])
        q = b((g.set if p.is_set else g.mset)())
        one, two = unary_fns(rng, p.data)
        f1, f2 = rng.choice(one), rng.choice(two)
        kw = {'_checked': False} if rng.random() < .4 else {}
        t1 = Table(f1).cover(rec.enc, [(e,) for e in p.data])
        t2 = Table(f2).cover(rec.enc, [(e, h) for e in p.data for h in q.data])
        if rng.random() < .12:
            bad = rng.choice([U, b(g.couplet()), b(g.comp())] + ([] if kw else [mo.Set('s'), mo.Multiset('s')]))
            if kw and bad is not U:
                kw = {}
            if rng.random() < .5:
                p = bad
            else:
                q = bad
            t1, t2 = Table(f1), Table(f2)
            if isinstance(p, (mo.Set, mo.Multiset)):
                t1.cover(rec.enc, [(e,) for e in p.data])
            if isinstance(p, (mo.Set, mo.Multiset)) and isinstance(q, (mo.Set, mo.Multiset)):
                t2.cover(rec.enc, [(e, h) for e in p.data for h in q.data])
        p_set, q_set = isinstance(p, mo.Set), isinstance(q, mo.Set)
        if not kw or p_set or p is U:
            rec.call('extension.unary_extend', extension.unary_extend, (p, f1), lv, kw, shown=(p, t1))
        if not kw or ((p_set or p is U) and (q_set or q is U)):
            rec.call('extension.binary_extend', extension.binary_extend, (p, q, f2), lv, kw, shown=(p, q, t2))
        rec.call('extension.unary_multi_extend', extension.unary_multi_extend, (p, f1), lv, kw, shown=(p, t1))
        if not kw or (not p_set and not q_set):
            rec.call('extension.binary_multi_extend', extension.binary_multi_extend, (p, q, f2), lv, kw, shown=(p, q, t2))
    ops = [op for op in ALL if op.has_checked]
    for (i, g, b) in sessions(x, x.n(16000)):
        op = rng.choice(ops)
        b2 = Builder(rng)
        vals = K.gen_args(op, g)
        one_, two_ = [b(v) for v in vals], [b2(v) for v in vals]
        lv = rng.choice([0, 0, 0, 1, 2])
        if not all(K.kind_ok(k, o) for k, o in zip(op.kinds, one_)):
            continue
        if rng.random() < .05 and not op.name.startswith('properties') and '.is_' not in op.name \
                and not op.name.endswith('defined_at'):
            j = rng.randrange(len(vals))
            if op.kinds[j] != 'key':
                one_[j] = two_[j] = U
        ud.RaiseOnUndef.set_level(lv)
        try:
            r1, e1 = rec.run(op.fn, tuple(one_))
            r2, e2 = rec.run(op.fn, tuple(two_), {'_checked': False})
        finally:
            ud.RaiseOnUndef.reset()
        k1 = rec.enc.exc(e1[0]) if e1 else rec.enc.enc(r1)
        k2 = rec.enc.exc(e2[0]) if e2 else rec.enc.enc(r2)
        rec.calls += 2
        rec.op_counts[op.name] = rec.op_counts.get(op.name, 0) + 2
        oc = (op.name, 'raise' if e1 else 'undef' if r1 is U else 'value')
        rec.outcomes[oc] = rec.outcomes.get(oc, 0) + 1
        rec.pair(op.name, one_, k1, k2, lv)
        if not e1 and r1 is not U:
            rec.nontrivial.add((op.name, k1, i))
    return rec


# ------------------------------------------------------------------ C21: constructors
PLAIN = [0, 1, True, 1.0, 'x', '', 'abc', None, (), (1, 2), b'', b'b', 2.5, frozenset(), 'None', Sub(1)]


def c21(x, rec=None):
    rec = rec or Recorder()
    rng = x.rng
    for (i, g, b) in sessions(x, x.n(6500)):
        def item():
            v = rng.choice(PLAIN) if rng.random() < .6 else None
            if v is None or rng.random() < .2:
                o = b(g.any(2))
                return o, o
            return v, mo.Atom(v)
        items = [item() for _ in range(rng.randint(0, 4))]
        items += rng.sample(items, rng.randint(0, len(items)))
        raw, obj = [p for p, _ in items], [q for _, q in items]
        for ctor, name, cls in (('ctor.set', 'Set', mo.Set), ('ctor.mset', 'Multiset', mo.Multiset)):
            forms = [('list', list), ('tuple', tuple), ('gen', iter), ('deque', collections.deque)]
            fname, form = rng.choice(forms)
            rec.call(ctor, lambda q: cls(form(raw)), (0,), shown=(obj,))
            rec.call(ctor, lambda q: cls(form(obj), direct_load=True), (0,), shown=(obj,))
            if len(items) != 1:
                rec.call(ctor, lambda q: cls(*raw), (0,), shown=(obj,))
                rec.call(ctor, lambda q: cls(*obj, direct_load=True), (0,), shown=(obj,))
            elif isinstance(raw[0], (mo.MathObject, str, int, float, type(None))):
                rec.call(ctor, lambda q: cls(raw[0]), (0,), shown=(obj,))
            o = b(g.any(2))
            rec.call(ctor, lambda q: cls(o), (0,), shown=([o],))
            rec.call(ctor, lambda q: cls(o, direct_load=True), (0,), shown=([o],))
            dist = dedup(rec, items)
            rawset = frozenset(p for p, _ in dist) if len(set(p for p, _ in dist)) == len(dist) else None
            if rawset is not None:
                rec.call(ctor, lambda q: cls(rawset), (0,), shown=([q for _, q in dist],))
                rec.call(ctor, lambda q: cls(set(rawset)), (0,), shown=([q for _, q in dist],))
                if cls is mo.Set:
                    rec.call(ctor, lambda q: cls(dict.fromkeys(rawset, 1)), (0,), shown=([q for _, q in dist],))
            k = rng.randint(0, 4)
            rec.call(ctor, lambda q: cls(range(k)), (0,), shown=([mo.Atom(j) for j in range(k)],))
        # multisets from counts
        counts = {}
        shown = []
        for p, q in items:
            n = rng.choice([1, 1, 2, 3, 7]) if rng.random() < .93 else rng.choice([0, -1, 1.5, 'x', None])
            counts[p] = n
        keys = {}
        for p, n in counts.items():
            shown += [mo.auto_convert(p), n if type(n) is int else '<bad>']
        kind = rng.choice([dict, collections.Counter, collections.OrderedDict])
        if kind is collections.Counter and any(type(n) is not int for n in counts.values()):
            kind = dict
        rec.call('ctor.mset_counts', lambda q: mo.Multiset(kind(counts)), (0,), shown=(shown,))
        if all(type(n) is int and n > 0 for n in counts.values()):
            dd = {}
            for p, n in counts.items():
                dd[mo.auto_convert(p)] = n
            sh2 = [y for p in dd.items() for y in p]
            rec.call('ctor.mset_counts', lambda q: mo.Multiset(dd, direct_load=True), (0,), shown=(sh2,))
        # atoms and couplets
        (p, q), (r, t) = item(), item()
        if r is None:
            r = t
        rec.call('ctor.couplet', mo.Couplet, (p, r), shown=(q, t))
        rec.call('ctor.couplet', lambda u, w: mo.Couplet(left=u, right=w), (p, r), shown=(q, t))
        rec.call('ctor.couplet', mo.Couplet, (p,), shown=(q,))
        rec.call('ctor.couplet', lambda u, w: mo.Couplet(u, w, direct_load=True), (q, t))
        rec.call('ctor.couplet', lambda u: mo.Couplet(u, direct_load=True), (q,))
        rec.call('ctor.atom', mo.Atom, (p,), shown=(q,))
        rec.call('ctor.convert', mo.auto_convert, (p,), shown=(q,))
        v = rng.choice(PLAIN)
        if v is not None:
            rec.call('ctor.atom', lambda u: mo.Atom(v, direct_load=True), (v,), shown=(mo.Atom(v),))
            rec.call('ctor.value', lambda u: [mo.Atom(u).value is u or mo.Atom(u).value == u,
                                              type(mo.Atom(u).value) is type(u), mo.Atom(u).type is type(u)], (v,), shown=('v',))
        un = rng.choice([[], {}, [1], bytearray(b'x'), {1: 2}])
        rec.call('ctor.reject', mo.Atom, (un,), shown=('unhashable',))
        rec.call('ctor.reject', lambda u: mo.Set([u]), (un,), shown=('unhashable',))
        rec.call('ctor.reject', lambda u: mo.Couplet(1, u), (un,), shown=('unhashable',))
    # the protocol describes the value
    for (i, g, b) in sessions(x, x.n(9000)):
        op = rng.choice(PROTOCOL)
        vals = K.gen_args(op, g)
        args = [b(v) for v in vals]
        if len(args) == 2 and rng.random() < .5 and args[0] is not U:
            ch = children(args[0])
            if ch:
                args[1] = rng.choice(ch)
        real = args
        if op.name == 'mo.contains' and isinstance(args[1], mo.Atom) and rng.random() < .5:
            real = [args[0], args[1].value]
        rec.call(op.name, op.fn, tuple(real), shown=args)
        if op.name in ('mo.has_element', 'mo.multiplicity') and i % 4 == 0:
            rec.call('ctor.reject', lambda q: op.fn(q, 1), (args[0],))
    for lv in (0, 1):
        for cls in (mo.Set, mo.Multiset):
            rec.call('ctor.set' if cls is mo.Set else 'ctor.mset', lambda q: cls(), (0,), lv, shown=([],))
    return rec


def dedup(rec, items):
    seen = {}
    for p, q in items:
        seen.setdefault(rec.enc.enc(q), (p, q))
    return list(seen.values())


# ------------------------------------------------------------------ C22: copies
def to_plain(v):
    """A plain value as lists, for pickling."""
    if v[0] == 'a':
        return ['a', v[1]]
    if v[0] == 'c':
        return ['c', to_plain(v[1]), to_plain(v[2])]
    if v[0] == 's':
        return ['s', [to_plain(e) for e in v[1]]]
    return ['m', [[to_plain(e), n] for e, n in v[1]]]


def from_plain(j):
    if j[0] == 'a':
        return a(j[1])
    if j[0] == 'c':
        return c(from_plain(j[1]), from_plain(j[2]))
    if j[0] == 's':
        return sv(from_plain(e) for e in j[1])
    return m({from_plain(e): n for e, n in j[1]})


def copy_value(rng):
    pool = rng.choice(G.POOLS + [['x', b'y', 1.5, (1, 'a'), None, True], [D(2020, 1, 2), decimal.Decimal('1.5'), 'x']])
    g = Gen(random.Random(rng.random()), pool=pool, nested=.3)
    return g, rng.choice([g.any, g.relation, g.clan, g.mclan, g.mset, g.set, g.tower, g.couplet])()


def stir(o, rng):
    """Let an object remember hashes, answers and lookup plans."""
    if rng.random() < .7:
        warm(o, rng, rng.randint(1, 12))
    for p in list(reachable(o).values()):
        if rng.random() < .3:
            warm(p, rng, 3)
    if rng.random() < .5:
        hash(o), repr(o)
    for f in (lambda: o(1), lambda: o[1], lambda: o.get_left_set()):
        if rng.random() < .5:
            try:
                f()
            except Exception:
                pass
    return o


def same_object(rec, rng, fresh, made, g=None, lv=0):
    """made must be indistinguishable from a freshly built equal object."""
    def facts(q):
        return [made == fresh, fresh == made, not made != fresh, hash(made) == hash(fresh), made in {fresh}, fresh in {made},
                made in mo.Set([fresh]), fresh in mo.Multiset([made]), repr(made) == repr(fresh), str(made) == str(fresh),
                mo.Set([made, fresh]).cardinality == 1, type(made) is type(fresh),
                not (made < fresh or fresh < made) and made <= fresh]
    rec.call('copy.same', facts, (fresh,))
    if isinstance(made, (mo.Set, mo.Multiset)):
        def inner(q):
            return [all(e in made for e in fresh), all(e in fresh for e in made), len(made) == len(fresh),
                    *[made.has_element(e) for e in list(fresh.data)[:5]], *[fresh.has_element(e) for e in list(made.data)[:5]]]
        rec.call('copy.same', inner, (fresh,))
    for op in rng.sample(QUERIES, 4) + rng.sample(LOOKUPS, 2):
        args = [made]
        if len(op.kinds) == 2:
            ch = [e.left for e in reachable(fresh).values() if e.is_couplet]
            args.append(rng.choice(ch) if ch else mo.Atom(1))
        rec.call(op.name, op.fn, tuple(args))
    if g is not None:
        kinds = K.kinds_of(made)
        ops = [op for op in ALL if op.kinds and op.kinds[0] in kinds and op.name != 'sets.power_set' and not op.name.startswith('mo.')]
        op = rng.choice(ops)
        vals = [G.plain(made)] + [K.related(G.plain(made), g) if k == op.kinds[0] else g.of_kind(k) for k in op.kinds[1:]]
        rec.call(op.name, op.fn, (made,) + tuple(G.build(v) for v in vals[1:]))


def c22(x, rec=None):
    rec = rec or Recorder()
    rng = x.rng
    ways = [copy.copy, copy.deepcopy, lambda o: copy.deepcopy([o, o])[1], lambda o: copy.deepcopy({'k': (o,)})['k'][0]] + \
        [lambda o, p=p: pickle.loads(pickle.dumps(o, p)) for p in range(pickle.HIGHEST_PROTOCOL + 1)] + \
        [lambda o: pickle.loads(pickle.dumps({o: [o]}, 2)).popitem()[1][0],
         lambda o: pickle.loads(pickle.dumps([o, o, mo.Set([o])], 4))[2].data.__iter__().__next__()]
    for i in range(x.n(2600)):
        g, v = copy_value(rng)
        o = stir(Builder(rng)(v), rng)
        way = rng.choice(ways)
        rec.call('mo.copy', way, (o,))
        made, err = rec.run(way, (o,))
        if err:
            continue
        if rng.random() < .2:
            made, err = rec.run(rng.choice(ways), (made,))
            if err:
                continue
        same_object(rec, rng, G.build(v), made, g)
        if rng.random() < .3:
            same_object(rec, rng, G.build(v), o, g)      # the original is none the worse
    across(rec, x)
    return rec


def across(rec, x):
    """Objects pickled by another process, with other string hashes."""
    import os
    import subprocess
    import sys
    rng = x.rng
    n = x.n(2000)
    for seed in (str(rng.randint(1, 10**6)), '0'):
        path = os.path.abspath('dump-%s' % seed)
        env = dict(os.environ, PYTHONHASHSEED=seed)
        subprocess.run([sys.executable, '-m', 'harness.dump', str(rng.random()), str(n), path], env=env, check=True, timeout=600)
        with open(path, 'rb') as f:
            for _ in range(n):
                js, data = pickle.load(f)
                v = from_plain(js)
                g = Gen(random.Random(rng.random()))
                fresh = G.build(v)
                made, err = rec.run(pickle.loads, (data,))
                rec.call('mo.copy', lambda q: pickle.loads(data), (fresh,))
                if err:
                    continue
                if isinstance(made, list):
                    made = made[0]
                same_object(rec, rng, fresh, made, g)


def dump(seed, n, path):
    rng = random.Random(seed)
    with open(path, 'wb') as f:
        for _ in range(n):
            g, v = copy_value(rng)
            o = stir(Builder(rng)(v), rng)
            pickle.dump((to_plain(v), pickle.dumps(o, rng.randint(0, pickle.HIGHEST_PROTOCOL))), f)


# ------------------------------------------------------------------ C01: remembered answers
class Witness(Builder):
    """Builds each value once, and asks the objects everything with probability `ask`."""
    def __init__(self, rng, ask):
        super().__init__(rng, p_warm=.3, reuse=.5)
        self.ask = ask

    def __call__(self, v):
        o = super().__call__(v)
        if v[0] != 'a' and self.rng.random() < self.ask:
            ask_all(o)
        return o


def ask_all(o):
    for op in QUERIES:
        try:
            op.fn(o)
        except Exception:
            pass
    return o


def c01(x, rec=None):
    from . import docs as Docs
    from . import drivers as Dr
    rec = Recorder(watch_flags=True, keep_calls=False)
    rng = x.rng
    scale = x.scale
    # everything the other recorders do, with flags observed
    for name, share in (('c03', .12), ('c04', .15), ('c05', .2), ('c06', .12), ('c07', .2), ('c12', .25), ('c13', .15),
                        ('c19', .1), ('c20', .08), ('c21', .04), ('c22', .12), ('c14', .05), ('c15', .3), ('c16', .1),
                        ('c17', .25), ('c18', .3)):
        x.scale = scale * share
        getattr(Docs if hasattr(Docs, name) else Dr, name)(x, rec)
    x.scale = scale
    # operands that know everything about themselves
    rels, clans, mcl = K.small_relations(), K.small_clans(2), K.small_mclans()
    for ops, uni, n in ((RELATIONS + COUPLETS, {'rel': rels, 'func': [v for v in rels if G.is_func(v)],
                                                'cpl': G.couplets_over([K.A1, K.A2]), 'key': [K.A1, K.A2, K.A3]}, 3500),
                        (CLANS, {'clan': clans, 'key': [K.A1, K.A2]}, 6000),
                        (MULTICLANS, {'mclan': mcl, 'key': [K.A1, K.A2]}, 6000),
                        (SETS, {'set': rels + clans[:40] + K.small_sets(), 'sos': clans}, 4500),
                        (MULTISETS, {'mset': mcl + K.small_msets(), 'som': [s(q) for q in mcl] + [s(q, mcl[3]) for q in mcl[4:30]]}, 3500)):
        b = Witness(rng, 1)
        jobs = K.exhaustive_jobs(rng, ops, uni, x.n(n))
        for i, (op, vals) in enumerate(jobs):
            if i % 400 == 0:
                b.made = {}
            args = [b(v) for v in vals]
            res = rec.call(op.name, op.fn, tuple(args))
            if isinstance(res, mo.MathObject) and rng.random() < .3:
                ask_all(res)
                rec.watch([res])
                rec.watch(args)
    ops = [op for op in ALL if not op.name.startswith(('mo.', 'properties'))]
    for i, g, _ in sessions(x, x.n(12000)):
        if i % 30 == 0:
            b = Witness(rng, rng.choice([.2, .6, 1]))
        op = rng.choice(ops)
        vals = K.gen_args(op, g)
        if op.name == 'sets.power_set':
            vals = [sv(sorted(vals[0][1], key=repr)[:4])]
        args = [b(v) for v in vals]
        args, res = K.do_call_objs(rec, op, args, rng, 0, rng.random() < .2)
        if isinstance(res, mo.MathObject) and rec.enc.size[rec.last] < 60:
            for q in rng.sample(QUERIES, 5):
                rec.run(q.fn, (res,))
            rec.watch([res] + args)
    return rec


def hist_flags(x):
    from . import hist as H
    return H.record(x, x.n(200), 40, {
        'ops': H.ALGEBRA_OPS, 'ops2': H.ALGEBRA_OPS, 'q': QUERIES, 'named': NAMED_IS, 'lookups': LOOKUPS, 'copies': COPIES},
        levels=False)
