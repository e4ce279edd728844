"""What each property's recorder does with the real library."""
import random

from . import campaign as K
from . import gen as G
from .gen import Builder, Gen, a, c, s, sv, m
from .ops import *      # noqa: F401,F403
from .ops import ALL, BY_NAME, CLANS, COUPLETS, MULTICLANS, MULTISETS, RELATIONS, SETS, U
from .rec import Recorder


class Ctx:
    def __init__(self, seed, part, parts, scale):
        self.seed, self.part, self.parts, self.scale = seed, part, parts, scale
        self.rng = random.Random('%s/%s' % (seed, part))
        self.info = {}

    def n(self, quick):
        """Iterations of this process, for a total of `quick` (times the tier's scale)."""
        return max(1, int(quick * self.scale / self.parts))


def c03(x, rec=None):
    rec = rec or Recorder()
    x.info['universe'] = K.exhaustive(rec, x.rng, SETS, {
        'set': K.small_sets(), 'sos': [v for v in K.small_sets() if all(e[0] == 's' for e in v[1])]},
        x.n(9000))
    K.random_ops(rec, x.rng, SETS, x.n(40000))
    K.large(rec, x.rng, SETS, x.n(600))
    _restrict(rec, x)
    return rec


def _restrict(rec, x):
    from .enc import OpName, Table
    import algebraixlib.algebras.sets as sets
    import algebraixlib.algebras.multisets as multisets
    rng = x.rng
    for i in range(x.n(3000)):
        if i % 25 == 0:
            g, b = Gen(random.Random(rng.random()), nested=.2), Builder(rng)
        o = b(g.set())
        preds = [lambda e: e.is_atom, lambda e: e.is_couplet, lambda e: True, lambda e: False,
                 lambda e: e.is_set and len(e) > 1, lambda e: e.is_couplet and e.left == e.right]
        salt = rng.random()
        preds.append(lambda e: random.Random(repr((salt, repr(e)))).random() < .5)
        t = Table(rng.choice(preds)).cover(rec.enc, [(e,) for e in o])
        rec.call('sets.restrict', lambda q: sets.restrict(q, t), (o,), shown=(o, t))
        if i % 2 == 0:
            which = rng.choice(['union', 'intersect', 'munion', 'madd', 'mintersect', 'runion', 'symdiff', 'symdiff', 'cross'])
            if which in ('union', 'intersect'):
                v = b(g.set_of_sets() if rng.random() < .8 else g.set())
                nm, fn, mem = 'sets.' + which, getattr(sets, which), sets.is_member
                mn = 'sets.is_member'
            elif which == 'runion':
                import algebraixlib.algebras.relations as relations
                v = b(g.clan() if rng.random() < .8 else g.set())
                nm, fn, mem, mn = 'sets.union', sets.union, relations.is_member, 'relations.is_member'
            elif which == 'symdiff':             # grows and shrinks: no early end is right
                v = b(g.set_of_sets() if rng.random() < .9 else g.set())
                if rng.random() < .6:
                    es = [a(1), a('x'), s(), c(a(1), a(2))][:rng.randint(2, 4)]
                    v = b(sv(sv(e for e in es if rng.random() < .5) for _ in range(rng.randint(1, 8))))
                nm, mem, mn = 'sets.symmetric_difference', sets.is_member, 'sets.is_member'
                fn = lambda p, q: sets.union(sets.minus(p, q), sets.minus(q, p))
            elif which == 'cross':
                import algebraixlib.algebras.clans as clans
                v = b(sv(sv(sv(c(l, g.comp()) for l in [g.comp()]) for _ in range(rng.randint(0, 2))) for _ in range(rng.randint(0, 3))))
                nm, fn, mem, mn = 'clans.cross_union', clans.cross_union, clans.is_member, 'clans.is_member'
            else:
                v = b(g.set_of_msets() if rng.random() < .8 else g.set())
                nm = 'multisets.' + which[1:]
                fn, mem, mn = getattr(multisets, which[1:]), multisets.is_member, 'multisets.is_member'
            rec.call('sets.chain_binary_operation', sets.chain_binary_operation, (v, fn, mem),
                     shown=(v, OpName(nm, fn), OpName(mn, mem)))


def c04(x, rec=None):
    rec = rec or Recorder()
    vals = [K.A1, K.A2]
    rels = K.small_relations()
    x.info['universe'] = K.exhaustive(rec, x.rng, COUPLETS + RELATIONS, {
        'cpl': G.couplets_over([K.A1, K.A2, K.A3]), 'rel': rels,
        'func': [v for v in rels if G.is_func(v)], 'key': vals + [K.A3]}, x.n(9000))
    K.random_ops(rec, x.rng, COUPLETS + RELATIONS * 2, x.n(40000))
    K.large(rec, x.rng, RELATIONS, x.n(600))
    K.variadic(rec, x.rng, 'relations', x.n(2000), ['diag', 'from_dict'])
    return rec


def c05(x, rec=None):
    rec = rec or Recorder()
    x.info['universe'] = K.exhaustive(rec, x.rng, CLANS, {
        'clan': K.small_clans(2), 'key': [K.A1, K.A2, K.A3]}, x.n(9000))
    K.random_ops(rec, x.rng, CLANS, x.n(30000))
    K.large(rec, x.rng, CLANS, x.n(500))
    K.variadic(rec, x.rng, 'clans', x.n(3000), ['diag', 'from_dict', 'from_set', 'project', 'project'])
    return rec


def c06(x, rec=None):
    rec = rec or Recorder()
    ms = K.small_msets()
    x.info['universe'] = K.exhaustive(rec, x.rng, MULTISETS, {
        'mset': ms, 'som': [sv(q) for q in ([], *[[p] for p in ms], *[[p, q] for p in ms for q in ms if p != q])]},
        x.n(9000))
    K.random_ops(rec, x.rng, MULTISETS, x.n(40000))
    K.large(rec, x.rng, MULTISETS, x.n(600))
    return rec


def c07(x, rec=None):
    rec = rec or Recorder()
    x.info['universe'] = K.exhaustive(rec, x.rng, MULTICLANS, {
        'mclan': K.small_mclans(), 'key': [K.A1, K.A2, K.A3]}, x.n(9000))
    K.random_ops(rec, x.rng, MULTICLANS, x.n(30000))
    K.large(rec, x.rng, MULTICLANS, x.n(400))
    K.variadic(rec, x.rng, 'multiclans', x.n(3000), ['diag', 'from_dict', 'project', 'project'])
    return rec


def hist(x):
    """Histories over everything (C10)."""
    from . import hist as H
    return H.record(x, x.n(420), 40, {
        'ops': H.ALGEBRA_OPS, 'ops2': H.ALGEBRA_OPS, 'queries': PROPERTIES + MEMBERSHIP, 'lookups': LOOKUPS,
        'protocol': PROTOCOL, 'copies': COPIES}, levels=True)


def hist_lookup(x):
    """Histories dominated by lookups and queries (C19)."""
    from . import hist as H
    named = [BY_NAME[n] for n in ('relations.get_rights_for_left', 'relations.get_right',
                                  'relations.get_left', 'relations.get_lefts', 'relations.get_rights',
                                  'multiclans.get_rights_for_left', 'clans.get_lefts', 'clans.get_rights')]
    return H.record(x, x.n(420), 40, {
        'lookups': LOOKUPS, 'lookups2': LOOKUPS, 'named': named, 'queries': PROPERTIES + MEMBERSHIP,
        'ops': H.ALGEBRA_OPS, 'copies': COPIES}, levels=False)


def c19(x, rec=None):
    """Lookups on every kind of object, each asked twice and with wrapped and plain keys."""
    rec = rec or Recorder()
    rels, keys = K.small_relations(), [K.A1, K.A2, K.A3]
    objs = rels + K.small_clans(2) + K.small_mclans()[:60] + K.small_sets() + K.small_msets() + \
        list(G.msets_over(G.couplets_over([K.A1, K.A2]), 2, (1, 2))) + [K.A1, c(K.A1, K.A2)]
    x.info['universe'] = K.exhaustive(rec, x.rng, LOOKUPS, {'mo': objs, 'key': keys}, x.n(6000))
    named = [BY_NAME[n] for n in ('relations.get_rights_for_left', 'relations.get_right',
                                  'relations.get_left', 'multiclans.get_rights_for_left')]
    K.random_ops(rec, x.rng, LOOKUPS * 2 + named, x.n(20000), pool_p=.1)
    K.large(rec, x.rng, LOOKUPS + named, x.n(600))
    _alike(rec, x, LOOKUPS + named)
    return rec


ALIKE = [[1, True, 1.0, '1'], [0, False, 0.0, '', None], [2, 2.0, (2,), '2']]


def _alike(rec, x, ops):
    """One object, asked for keys that Python takes for equal, one after the other and plain."""
    rng = x.rng
    for _ in range(x.n(1200)):
        ks = rng.choice(ALIKE)
        g = Gen(random.Random(rng.random()), pool=ks, nested=0, size=4)
        b = Builder(rng, p_warm=.2)
        k = rng.choice(['relation', 'relation', 'func', 'clan', 'mclan', 'mset', 'set'])
        v = sv(c(a(y), g.comp()) for y in ks if rng.random() < .8) if k == 'func' else getattr(g, k)()
        o = b(v)
        mine = [op for op in ops if kinds_fit(op, o)]
        for _ in range(6):
            y = rng.choice(ks)
            op = rng.choice(mine)
            plain = y is not None and rng.random() < .75 and not op.name.endswith('defined_at')
            key = y if plain else G.build(a(y))
            rec.call(op.name, op.fn, (o, key), shown=(o, G.build(a(y))))


def kinds_fit(op, o):
    return len(op.kinds) == 2 and op.kinds[1] == 'key' and K.kind_ok(op.kinds[0], o)


from .core import *      # noqa: E402,F401,F403
from .show import c23      # noqa: E402,F401
from .diag import c24      # noqa: E402,F401
from .docs import c14, c15, c16, c17, c18      # noqa: E402,F401


def replay(x):
    """Behaviours that TLC generated (sys.argv[7] is the prefix of their files)."""
    import sys
    from .replay import replay as run
    return run(x, '%s-%d' % (sys.argv[7], x.part))
