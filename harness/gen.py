"""Generation of values (plain nested tuples) and of library objects that have them.

A plain value: ('a', python value) | ('c', l, r) | ('s', frozenset) | ('m', frozenset of (e, n)).
The same value is built along different paths (constructors, operations, with questions asked
before and after), so that the objects differ in what they remember about themselves.
"""
import itertools
import random

import algebraixlib.algebras.clans as clans
import algebraixlib.algebras.couplets as couplets
import algebraixlib.algebras.multiclans as multiclans
import algebraixlib.algebras.multisets as multisets
import algebraixlib.algebras.properties as properties
import algebraixlib.algebras.relations as relations
import algebraixlib.algebras.sets as sets
import algebraixlib.mathobjects as mo

PROPS = ('is_functional', 'is_right_functional', 'is_bijective', 'is_reflexive', 'is_symmetric',
         'is_transitive', 'is_equivalence_relation', 'is_regular', 'is_right_regular')
ALGEBRAS = {'couplets': couplets, 'sets': sets, 'relations': relations, 'clans': clans,
            'multisets': multisets, 'multiclans': multiclans}


class AtomV(tuple):
    """('a', value) that compares by type and value, as atoms do."""
    def __new__(cls, value):
        return tuple.__new__(cls, ('a', value))

    def __eq__(self, o):
        return (isinstance(o, tuple) and len(o) == 2 and o[0] == 'a' and type(self[1]) is type(o[1])
                and self[1] == o[1])

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('a', type(self[1]).__name__, self[1]))


def a(v): return AtomV(v)
def c(l, r): return ('c', l, r)
def s(*es): return ('s', frozenset(es))
def sv(es): return ('s', frozenset(es))
def m(d): return ('m', frozenset(d.items() if isinstance(d, dict) else d))


EMPTY = s()
MEMPTY = m({})
POOLS = [
    [1, 2, 3],
    ['x', 'y', 'z', 'w'],
    [1, True, 1.0, '1'],
    [0, False, '', None],
    ['a', 1, 2.5, b'q', (1, 2)],
    list(range(6)),
]


class Gen:
    def __init__(self, rng, pool=None, nested=0.15, size=3):
        self.rng = rng
        self.pool = pool if pool is not None else rng.choice(POOLS)
        self.nested = nested
        self.size = size
        self.inner = min(size, 9)   # the size of the collections inside collections
        self._comp = None
        self._cols = None           # column names that tables share
        self.theme = None           # a property that all relations are to have
        self.mults = [1, 1, 2, 3]
        self.contrast = False       # whether operands are to differ from the first in one respect

    # components of couplets: mostly atoms, sometimes nested values
    def comp(self):
        r = self.rng
        if r.random() >= self.nested:
            return a(r.choice(self.pool))
        if self._comp is None:
            self._comp = [s(), s(a(self.pool[0])), c(a(self.pool[0]), a(self.pool[1])),
                          s(c(a(self.pool[0]), a(self.pool[1]))), m({a(self.pool[0]): 2}), MEMPTY,
                          c(c(a(self.pool[0]), a(self.pool[0])), a(self.pool[1])),
                          s(s(c(a(self.pool[1]), a(self.pool[0]))))]
        return r.choice(self._comp)

    def couplet(self):
        if self.rng.random() < .25:
            x = self.comp()
            return c(x, x)
        return c(self.comp(), self.comp())

    def relation(self, n=None):
        r = self.rng
        n = r.randint(0, self.size) if n is None else n
        if self.theme and r.random() < .9:
            return self.themed(self.theme, n)
        style = r.random()
        if style < .45:
            return sv(self.couplet() for _ in range(n))
        if style < .6:                                       # functional
            return sv({l: c(l, self.comp()) for l in (self.comp() for _ in range(n))}.values())
        if style < .7:                                       # right functional
            return sv({y: c(self.comp(), y) for y in (self.comp() for _ in range(n))}.values())
        if style < .8:                                       # diagonal
            return sv(c(x, x) for x in (self.comp() for _ in range(n)))
        base = {self.couplet() for _ in range(min(n, 3))}
        if style < .87:                                      # symmetric closure
            base |= {c(x[2], x[1]) for x in base}
        elif style < .94:                                    # transitive closure
            while True:
                more = {c(x[1], y[2]) for x in base for y in base if x[2] == y[1]} - base
                if not more:
                    break
                base |= more
        else:                                                # equivalence on a few elements
            xs = [self.comp() for _ in range(min(n, 3))]
            base = {c(x, y) for x in xs for y in xs}
        return sv(base)

    THEMES = ('refl', 'sym', 'trans', 'preorder', 'equiv', 'tolerance', 'func', 'rfunc', 'bij', 'perm', 'diag',
              'absolute', 'order', 'cycle')

    def themed(self, theme, n):
        """A relation that has the property (over few elements, so that relations overlap)."""
        r = self.rng
        if theme in ('func', 'rfunc', 'bij'):
            out = {}
            for _ in range(n):
                x = self.couplet()
                if theme != 'rfunc' and any(y[1] == x[1] for y in out):
                    continue
                if theme != 'func' and any(y[2] == x[2] for y in out):
                    continue
                out[x] = 1
            return sv(out)
        if theme in ('perm', 'cycle', 'diag', 'order'):
            xs = list({self.comp(): 1 for _ in range(n)})
            if theme == 'diag':
                return sv(c(x, x) for x in xs)
            if theme == 'order':
                return sv(c(x, y) for i, x in enumerate(xs) for y in xs[i + 1:])
            ys = xs[1:] + xs[:1]
            if theme == 'perm':
                r.shuffle(ys)
            return sv(c(x, y) for x, y in zip(xs, ys))
        base = {self.couplet() for _ in range(min(n, 3))}
        if theme == 'absolute':
            return sv(c(a(r.choice(self.pool)), a(r.choice(self.pool))) for _ in range(n))
        if theme in ('sym', 'equiv', 'tolerance'):
            base |= {c(x[2], x[1]) for x in base}
        if theme in ('refl', 'preorder', 'equiv', 'tolerance'):
            base |= {c(y, y) for x in base for y in x[1:]}
        if theme in ('trans', 'preorder', 'equiv'):
            while True:
                more = {c(x[1], y[2]) for x in base for y in base if x[2] == y[1]} - base
                if not more:
                    break
                base |= more
        return sv(base)

    def table(self, n, cols=None):
        """Rows over some of the shared columns; values are few, so that rows of different tables match."""
        r = self.rng
        if self._cols is None:
            self._cols = [a(x) for x in r.choice([['id', 'k', 'v'], [0, 1, 2], ['id', 1, 'v']])]
            self._few = [a(x) for x in self.pool[:3]]
        if cols is None:
            cols = r.sample(self._cols, r.choice([1, 2, 2, 2, 3]))
        return [sv(c(l, r.choice(self._few)) for l in cols) for _ in range(n)]

    def rels(self, n):
        r = self.rng
        if n and r.random() < (.25 if not self.theme else .1):
            return self.table(n)
        style = r.random() * (1 if not self.theme else .6)
        if style < .45:
            out = [self.relation(r.randint(0, self.inner)) for _ in range(n)]
        elif style < .75:                                    # same lefts: (nearly) regular
            ls = [self.comp() for _ in range(r.randint(1, 3))]
            out = [sv(c(l, self.comp()) for l in set(ls)) for _ in range(n)]
            if r.random() < .2 and out:
                out[0] = self.relation(r.randint(0, self.inner))
        elif style < .85:                                    # same rights
            ls = [self.comp() for _ in range(r.randint(1, 3))]
            out = [sv(c(self.comp(), l) for l in set(ls)) for _ in range(n)]
        else:                                                # subsets of one relation
            base = sorted(self.relation(self.inner + 1)[1], key=repr)
            out = [sv(x for x in base if r.random() < .6) for _ in range(n)]
        if r.random() < .12:
            out.append(EMPTY)
        return out

    def clan(self, n=None):
        return sv(self.rels(self.rng.randint(0, self.size) if n is None else n))

    def mult(self):
        return self.rng.choice(self.mults)

    def mclan(self, n=None):
        return m({x: self.mult() for x in self.rels(self.rng.randint(0, self.size) if n is None else n)})

    def set(self, n=None):
        r = self.rng
        n = r.randint(0, self.size) if n is None else n
        style = r.random()
        if style < .35:
            return sv(a(r.choice(self.pool)) for _ in range(n))
        if style < .5:
            return self.relation(n)
        if style < .65:
            return self.clan(n)
        return sv(self.any(2) for _ in range(n))

    def set_of_sets(self):
        return sv(self.set() for _ in range(self.rng.randint(0, 3)))

    def mset(self, n=None):
        r = self.rng
        n = r.randint(0, self.size) if n is None else n
        style = r.random()
        if style < .4:
            return m({a(r.choice(self.pool)): self.mult() for _ in range(n)})
        if style < .6:
            return self.mclan(n)
        if style < .7:
            return m({self.couplet(): self.mult() for _ in range(n)})
        return m({self.any(2): self.mult() for _ in range(n)})

    def coll(self):
        return self.set() if self.rng.random() < .5 else self.mset()

    def set_of_msets(self):
        return sv(self.mset() for _ in range(self.rng.randint(0, 3)))

    def tower(self, depth=None):
        """Higher power sets over relations."""
        d = self.rng.randint(1, 2) if depth is None else depth
        if d == 0:
            return self.clan()
        return sv(self.tower(d - 1) for _ in range(self.rng.randint(1, 2)))

    def any(self, depth=3):
        r = self.rng
        k = r.random()
        if depth <= 0 or k < .3:
            return a(r.choice(self.pool))
        if k < .45:
            return c(self.any(depth - 1), self.any(depth - 1))
        if k < .55:
            return self.relation()
        if k < .62:
            return self.clan()
        if k < .68:
            return self.mclan()
        if k < .74:
            return self.tower()
        if k < .88:
            return sv(self.any(depth - 1) for _ in range(r.randint(0, self.inner)))
        return m({self.any(depth - 1): self.mult() for _ in range(r.randint(0, self.inner))})

    def of_kind(self, k):
        return {'cpl': self.couplet, 'rel': self.relation, 'func': self.relation, 'clan': self.clan,
                'mclan': self.mclan, 'set': self.set, 'mset': self.mset, 'sos': self.set_of_sets,
                'som': self.set_of_msets, 'mo': self.any, 'coll': self.coll, 'any': self.any, 'key': self.comp}[k]()


def is_rel(v): return v[0] == 's' and all(e[0] == 'c' for e in v[1])
def is_clan(v): return v[0] == 's' and all(is_rel(e) for e in v[1])
def is_mclan(v): return v[0] == 'm' and all(is_rel(e) for e, _ in v[1])
def is_func(v): return is_rel(v) and len({e[1] for e in v[1]}) == len(v[1])


def build(v):
    """The plain constructor path."""
    k = v[0]
    if k == 'a':
        return mo.Atom(v[1])
    if k == 'c':
        return mo.Couplet(build(v[1]), build(v[2]))
    if k == 's':
        return mo.Set([build(e) for e in v[1]])
    return mo.Multiset({build(e): n for e, n in v[1]})


def warm(o, rng, n=3):
    """Ask some questions, as other code might have done before."""
    for _ in range(n):
        q = rng.random()
        if q < .45:
            f = getattr(properties, rng.choice(PROPS))
        elif q < .75:
            f = rng.choice(list(ALGEBRAS.values())).is_member
        elif q < .9:
            f = rng.choice(list(ALGEBRAS.values())).is_absolute_member
        elif q < .94:
            f = hash
        elif q < .97:
            f = repr
        else:
            f = lambda x: x[mo.Atom(1)]
        try:
            f(o)
        except Exception:
            pass
    return o


def warm_all(o, rng, p=.9):
    """Ask (nearly) everything about an object and the sets that it contains."""
    fs = [getattr(properties, q) for q in PROPS] + [f for x in ALGEBRAS.values() for f in (x.is_member, x.is_absolute_member)]
    rng.shuffle(fs)
    for f in fs:
        if rng.random() < p:
            try:
                f(o)
            except Exception:
                pass
    return o


class Builder:
    """Build objects along varied paths. Failing or surprising paths fall back to constructors."""
    def __init__(self, rng, p_warm=.4, p_path=.35, reuse=.2):
        self.rng, self.p_warm, self.p_path, self.reuse = rng, p_warm, p_path, reuse
        self.made = {}
        self.depth = 0

    def __call__(self, v):
        r = self.rng
        if v[0] == 'a':
            return mo.Atom(v[1])
        if r.random() < self.reuse:
            old = self.made.get(v)
            if old is not None:
                return old
        o = None
        if v[0] in 'sm' and self.depth < 3 and r.random() < self.p_path:
            self.depth += 1
            try:
                o = self.path(v)
            except Exception:
                o = None
            finally:
                self.depth -= 1
            if o is not None and plain(o) != v:
                o = None
        if o is None:
            o = self.plain(v)
        if r.random() < self.p_warm:
            warm(o, r, r.randint(1, 4))
        self.made[v] = o
        return o

    def plain(self, v):
        k = v[0]
        if k == 'a':
            return mo.Atom(v[1])
        if k == 'c':
            return mo.Couplet(self(v[1]), self(v[2]))
        if k == 's':
            return mo.Set([self(e) for e in self.shuffled(v[1])])
        return mo.Multiset({self(e): n for e, n in self.shuffled(v[1])})

    def shuffled(self, es):
        es = sorted(es, key=repr)
        self.rng.shuffle(es)
        return es

    def split(self, es):
        es = self.shuffled(es)
        i = self.rng.randint(0, len(es))
        j = self.rng.randint(0, i) if i else 0
        return es[:i], es[j:]

    def path(self, v):
        r = self.rng
        if v[0] == 's':
            opts = ['union', 'minus', 'intersect', 'restrict', 'bigu', 'direct']
            if is_rel(v):
                opts += ['transpose', 'rcompose', 'power'] + (['dict'] * 2 if is_func(v) else [])
                if all(x[1] == x[2] for x in v[1]):
                    opts += ['diag'] * 3
            if is_clan(v):
                opts += ['ctranspose', 'ccompose', 'cunion', 'demult', 'cinter', 'csub', 'csup'] * 2
                if len(v[1]) == 1:
                    opts += ['cfromdict'] * 2
                if all(len(x[1]) == 1 for x in v[1]) and len({e[1] for x in v[1] for e in x[1]}) == 1:
                    opts += ['fromset'] * 5
            k = r.choice(opts)
            x, y = self.split(v[1])
            if k == 'union':
                return sets.union(self(sv(x)), self(sv(y)))
            if k == 'minus':
                g = self(sv(list(v[1])))
                return sets.minus(g, self(s(a('nope'))))
            if k == 'intersect':
                return sets.intersect(self(sv(v[1])), self(sv(v[1])))
            if k == 'restrict':
                keep = {id(e) for e in ()}
                base = self(v)
                extra = [e for e in self.plain(s(a('nope'))).data] if not (is_rel(v) or is_clan(v)) else []
                big = mo.Set(list(base.data) + extra) if extra else base
                return sets.restrict(big, lambda e: not (e.is_atom and e.value == 'nope'))
            if k == 'bigu':
                return sets.big_union(self(s(sv(x), sv(y))))
            if k == 'direct':
                return mo.Set([self(e) for e in v[1]], direct_load=True)
            if k == 'transpose':
                return relations.transpose(self(sv(c(e[2], e[1]) for e in v[1])))
            if k == 'rcompose':
                d = sv(c(e[1], e[1]) for e in v[1])
                return relations.compose(self(v), self(d))
            if k == 'power':
                return next(e for e in sets.power_set(self(v)).data if len(e) == len(v[1])) \
                    if len(v[1]) < 5 else None
            if k == 'dict':
                return relations.from_dict({self(e[1]): self(e[2]) for e in v[1]})
            if k == 'diag':
                return relations.diag(*[self(e[1]) for e in v[1]])
            if k == 'ctranspose':
                return clans.transpose(self(sv(sv(c(e[2], e[1]) for e in q[1]) for q in v[1])))
            if k == 'ccompose':
                ls = {e[1] for q in v[1] for e in q[1]}
                return clans.compose(self(v), self(s(sv(c(l, l) for l in ls))))
            if k == 'cunion':
                return r.choice([clans.cross_union, clans.cross_union, clans.cross_functional_union,
                                 clans.lhs_cross_functional_union,
                                 clans.cross_right_functional_union])(self(v), self(s(EMPTY)))
            if k == 'demult':
                return multisets.demultify(self(m({e: r.randint(1, 2) for e in v[1]})))
            if k == 'cinter':
                everything = sv(e for q in v[1] for e in q[1])
                return clans.cross_intersect(self(v), self(s(everything)))
            if k == 'csub':
                return clans.substrict(self(v), self(v))
            if k == 'csup':
                return clans.superstrict(self(v), self(s(EMPTY)))
            if k == 'cfromdict':
                q = next(iter(v[1]))
                return clans.from_dict({self(e[1]): self(e[2]) for e in q[1]}) if is_func(q) else None
            if k == 'fromset':
                es = [e for x in v[1] for e in x[1]]
                return clans.from_set(self(es[0][1]), *[self(e[2]) for e in es])
        else:
            opts = ['add', 'union', 'minus', 'list', 'direct']
            if all(n == 1 for _, n in v[1]):
                opts += ['multify'] * 3
            if is_mclan(v):
                opts += ['mtranspose', 'mcunion', 'mcompose', 'msub', 'msup', 'munion']
                if len(v[1]) == 1:
                    opts += ['mfromdict']
            k = r.choice(opts)
            x, y = {}, {}
            for e, n in v[1]:
                i = r.randint(0, n)
                if i:
                    x[e] = i
                if n - i:
                    y[e] = n - i
            if k == 'add':
                return multisets.add(self(m(x)), self(m(y)))
            if k == 'union':
                return multisets.union(self(v), self(m(x)))
            if k == 'minus':
                return multisets.minus(self(v), self(m({a('nope'): 2})))
            if k == 'list':
                return mo.Multiset([self(e) for e, n in v[1] for _ in range(n)])
            if k == 'direct':
                return mo.Multiset({self(e): n for e, n in v[1]}, direct_load=True)
            if k == 'multify':
                return sets.multify(self(sv(e for e, _ in v[1])))
            if k == 'mtranspose':
                return multiclans.transpose(self(m({sv(c(e[2], e[1]) for e in q[1]): n for q, n in v[1]})))
            if k == 'mcunion':
                return r.choice([multiclans.cross_union, multiclans.cross_functional_union,
                                 multiclans.cross_right_functional_union])(self(v), self(m({EMPTY: 1})))
            if k == 'mcompose':
                ls = {e[1] for q, _ in v[1] for e in q[1]}
                return multiclans.compose(self(v), self(m({sv(c(l, l) for l in ls): 1})))
            if k == 'msub':
                return multiclans.substrict(self(v), self(v))
            if k == 'msup':
                return multiclans.superstrict(self(v), self(m({EMPTY: 1})))
            if k == 'munion':
                return multisets.intersect(self(v), self(v))
            if k == 'mfromdict':
                q, n = next(iter(v[1]))
                return multiclans.from_dict({self(e[1]): self(e[2]) for e in q[1]}) \
                    if is_func(q) and n == 1 else None


def plain(o):
    """The plain value of an object (no library comparison involved)."""
    if isinstance(o, mo.Atom):
        return a(o.value)
    if isinstance(o, mo.Couplet):
        return c(plain(o.left), plain(o.right))
    if isinstance(o, mo.Set):
        return sv(plain(e) for e in o.data)
    if isinstance(o, mo.Multiset):
        return m({plain(e): n for e, n in o.data.items()})
    return None


# ------------------------------------------------------------------ exhaustive small universes
def couplets_over(vals):
    return [c(x, y) for x in vals for y in vals]


def relations_over(vals, max_size=None):
    cs = couplets_over(vals)
    for k in range(len(cs) + 1 if max_size is None else max_size + 1):
        for comb in itertools.combinations(cs, k):
            yield sv(comb)


def clans_over(rels, max_size):
    for k in range(max_size + 1):
        for comb in itertools.combinations(rels, k):
            yield sv(comb)


def msets_over(elems, max_size, mults=(1, 2)):
    for k in range(max_size + 1):
        for comb in itertools.combinations(elems, k):
            for ms in itertools.product(mults, repeat=k):
                yield m(dict(zip(comb, ms)))
