"""Campaigns over the algebra operations: exhaustive small universes and seeded random ones."""
import itertools
import random

import algebraixlib.mathobjects as mo

from . import gen as G
from .enc import U, OpName, Table
from .gen import Builder, Gen, a, c, s, sv, m, EMPTY, MEMPTY
from .ops import (ALL, BY_NAME, CLANS, COUPLETS, MULTICLANS, MULTISETS, RELATIONS, SETS, VARIADIC)


def lefts(v):
    if v[0] == 'c':
        return [v[1], v[2]]
    es = v[1] if v[0] == 's' else [e for e, _ in v[1]] if v[0] == 'm' else []
    out = []
    for e in es:
        out.extend(lefts(e))
    return out


def related(v, g):
    """A value of the same kind that overlaps v."""
    r = g.rng
    k = r.random()
    if v[0] == 'c':
        return r.choice([c(v[2], v[1]), c(g.comp(), v[1]), c(v[2], g.comp()), v])
    if v[0] == 's':
        es = sorted(v[1], key=repr)
        if k < .1:
            return v
        sub = [e for e in es if r.random() < .6]
        if k < .4:
            return sv(sub)
        if G.is_rel(v):
            if k < .55:                      # renames of its lefts
                ls = [x for e in es for x in (e[1],)]
                return sv(c(g.comp(), l) for l in ls if r.random() < .7)
            if k < .65:
                return sv(c(e[2], e[1]) for e in es)
            return sv(sub + [g.couplet() for _ in range(r.randint(0, 2))])
        if G.is_clan(v):
            if k < .6:                       # subsets / supersets of its relations
                return sv(sv(x for x in e[1] if r.random() < .6) for e in es)
            if k < .7:
                return sv(sv(list(e[1]) + [g.couplet()]) for e in es)
            if k < .8:
                return sv(related(e, g) for e in es)
            if k < .93:
                return sv(partner(es, g))
            return sv(sub + [g.relation()])
        if all(e[0] == 's' for e in es) and es and k < .7:
            return sv(related(e, g) for e in es)
        return sv(sub + [g.any(2) for _ in range(r.randint(0, 2))])
    if v[0] == 'm':
        es = sorted(v[1], key=repr)
        if k < .1:
            return v
        d = {e: max(1, n + r.randint(-1, 1)) for e, n in es if r.random() < .7}
        if G.is_mclan(v):
            if k < .6:
                d = {}
                for e, n in es:
                    d[related(e, g) if r.random() < .6 else e] = n
            elif k < .7:
                d[g.relation()] = g.mult()
            elif k < .9:
                d = {e: g.mult() for e in partner([e for e, _ in es], g)}
        elif k < .7:
            d[g.any(2)] = g.mult()
        return m(d)
    return g.comp()


def contrast(v, g):
    """A value that shares most of v but differs in one respect: an element that is not absolute, a second right for a left ..."""
    r = g.rng
    if v[0] == 'm':
        d = dict(v[1])
        if d:
            e = r.choice(sorted(d, key=repr))
            n = d.pop(e)
            w = contrast(e, g) if e[0] in 'sm' else c(e, e) if e[0] == 'a' and r.random() < .3 else e
            d[w] = n if w != e else n + r.choice([1, 1, 2])
        return m(d)
    if v[0] != 's':
        return related(v, g)
    es = sorted(v[1], key=repr)
    if not es:
        return sv([g.couplet()])
    i = r.randrange(len(es))
    x = es[i]
    if all(e[0] in 'sm' for e in es):
        k = r.random()
        if k < .7:
            return sv(es[:i] + [contrast(x, g)] + es[i + 1:])
        return sv(es[:i] + es[i + 1:] + [EMPTY] if k < .8 else es + [g.relation()] if k < .9 else es + [a(r.choice(g.pool))])
    if not all(e[0] == 'c' for e in es):
        return sv(es[:i] + [c(x, x) if x[0] == 'a' else s(x)] + es[i + 1:])
    other = r.choice(es)
    way = r.choice(['deep', 'deep', 'lefts', 'rights', 'swap', 'loop', 'odd', 'less', 'functional'])
    if way == 'deep':                   # not absolute any more
        w = r.choice([s(x[1]), s(x[2]), m({x[1]: 1}), EMPTY, MEMPTY, c(x[1], x[2])])
        return sv(es[:i] + es[i + 1:] + [r.choice([c(w, x[2]), c(x[1], w)])] + ([x] if r.random() < .5 else []))
    if way == 'lefts':                  # a second right
        return sv(es + [c(x[1], g.comp())])
    if way == 'rights':
        return sv(es + [c(g.comp(), x[2])])
    if way == 'swap':
        return sv(es[:i] + es[i + 1:] + [c(x[2], x[1])])
    if way == 'loop':
        return sv(es + [c(x[1], x[1]), c(other[2], other[2])][:r.randint(1, 2)])
    if way == 'odd':                    # no relation any more
        return sv(es + [r.choice([x[1], EMPTY, s(x)])])
    if way == 'less':
        return sv(es[:i] + es[i + 1:])
    return sv({e[1]: e for e in es}.values())


def partner(rows, g):
    """Rows that agree with some of the given ones in one column and have another column besides."""
    r = g.rng
    ls = sorted({x[1] for e in rows for x in e[1]}, key=repr)
    if not ls:
        return g.table(2)
    l, new = r.choice(ls), g.comp()
    out = []
    for e in rows:
        if r.random() < .65:
            out.append(sv([x for x in e[1] if x[1] == l] + [c(new, g.comp())]))
    return out + (g.table(1, [l, new]) if r.random() < .5 and l[0] == 'a' else [])


def gen_args(op, g, theme=None, contrasts=False):
    out = []
    g.theme, g.contrast = theme, contrasts
    try:
        vals = _gen_args(op, g, out)
        if contrasts and g.rng.random() < .3:
            vals[:2] = vals[1::-1]
            if not all(k == op.kinds[0] for k in op.kinds[:2]):
                vals[:2] = vals[1::-1]
        return vals
    finally:
        g.theme, g.contrast = None, False


def _gen_args(op, g, out):
    for k in op.kinds:
        if out and k in ('key',):
            ls = lefts(out[0])
            out.append(g.rng.choice(ls) if ls and g.rng.random() < .75 else g.comp())
        elif out and g.contrast and k == op.kinds[0]:
            out.append(contrast(out[0], g))
        elif out and k == op.kinds[0] and g.rng.random() < (.25 if g.theme else .6):
            out.append(related(out[0], g))
        elif op.name == 'relations.functional_add' and k == 'func':
            v = g.relation()
            for _ in range(5):
                if G.is_func(v):
                    break
                v = g.relation()
            out.append(v)
        else:
            out.append(g.of_kind(k))
    return out


def do_call(rec, op, vals, b, rng, lv=0, unchecked=False):
    """Build the arguments and make the (recorded) call; returns (args, result)."""
    args = [b(v) for v in vals]
    return do_call_objs(rec, op, args, rng, lv, unchecked)


def do_call_objs(rec, op, args, rng, lv=0, unchecked=False):
    kw = {}
    shown = None
    real = list(args)
    if unchecked and op.has_checked and all(kind_ok(k, o) for k, o in zip(op.kinds, args)):
        kw['_checked'] = False
    elif 'key' in op.kinds and rng.random() < .3 and not (op.name.startswith('relations.defined')
                                                           or op.name.endswith('.defined_at')):
        i = op.kinds.index('key')
        if isinstance(real[i], mo.Atom):     # a plain value instead of an atom
            shown = list(args)
            real[i] = real[i].value
    name = op.name
    return args, rec.call(name, op.fn, tuple(real), lv, kw, shown)


MULTS = [1, 2, 3, 9, 10, 11, 99, 128, 255, 256, 257, 1000]


def random_ops(rec, rng, ops, n, unchecked=.15, pool_p=.2, themed=.35, size=3, big=.08):
    """n random calls; results are sometimes used as operands of later calls."""
    pool = {}
    g = b = None
    for i in range(n):
        if i % 40 == 0:
            g = Gen(random.Random(rng.random()), size=size if rng.random() >= big else size * 3,
                    nested=rng.choice([0, .1, .3]))
            b = Builder(rng)
            pool = {}
            if rng.random() < .15:
                g.mults = MULTS
        op = rng.choice(ops)
        theme = rng.choice(G.Gen.THEMES) if rng.random() < themed else None
        contrasts = len(op.kinds) > 1 and rng.random() < .3
        vals = gen_args(op, g, theme, contrasts)
        if op.name == 'sets.power_set':
            vals = [sv(sorted(vals[0][1], key=repr)[:5])]
        args = [b(v) for v in vals]
        if theme or contrasts:
            p = rng.choice([.3, .9, 1, 1])
            for o in args:
                if rng.random() < .85:
                    G.warm_all(o, rng, p)
        for j, k in enumerate(op.kinds):
            if rng.random() < pool_p * (.5 if theme else 1) and k in pool and op.name != 'sets.power_set':
                args[j] = rng.choice(pool[k])
        args, res = do_call_objs(rec, op, args, rng, 0, rng.random() < unchecked)
        if isinstance(res, mo.MathObject) and rec.enc.size[rec.last] < 40 and moderate(G.plain(res)):
            for k in kinds_of(res):
                pool.setdefault(k, []).append(res)


HEAVY = ('cross', 'compose', 'big_', 'power', 'functional_union', 'lhs_')


def large(rec, rng, ops, n):
    """Calls on collections far larger than those of the other campaigns."""
    for i in range(n):
        op = rng.choice(ops)
        rows = any(k in ('clan', 'mclan', 'sos', 'som') for k in op.kinds)
        heavy = any(w in op.name for w in HEAVY)
        if op.name == 'sets.power_set':
            size = 7
        elif rows:
            size = rng.choice([7, 9, 12]) if heavy else rng.choice([10, 16, 24])
        else:
            size = rng.choice([12, 20, 35]) if heavy else rng.choice([15, 40, 90, 180])
        pool = rng.choice([list(range(size * 4)), list(range(size)), ['k%d' % j for j in range(size * 3)],
                           [j if j % 3 else 'k%d' % j for j in range(size * 2)]])
        g = Gen(random.Random(rng.random()), pool=pool, size=size, nested=rng.choice([0, 0, .05]))
        g.mults, g.inner = MULTS, rng.choice([2, 3, 5])
        b = Builder(rng, p_warm=.2, p_path=.15)
        vals = gen_args(op, g, rng.choice(G.Gen.THEMES) if rng.random() < .5 else None, rng.random() < .3)
        if op.name == 'sets.power_set':
            vals = [sv(sorted(vals[0][1], key=repr)[:9])]
        if sum(map(nodes, vals)) > 1200:
            continue
        b.depth = 2             # one step of a varied path
        args = [b(v) for v in vals]
        if rng.random() < .5:
            for o in args:
                G.warm_all(o, rng, rng.choice([.3, 1]))
        do_call_objs(rec, op, args, rng, 0, rng.random() < .15)


def nodes(v):
    """The number of nodes of a value's tree."""
    k = v[0]
    return 1 + (0 if k == 'a' else nodes(v[1]) + nodes(v[2]) if k == 'c' else sum(map(nodes, v[1])) if k == 's' else
                sum(nodes(e) for e, _ in v[1]))


def moderate(v):
    """Whether multiplicities are small enough for the specification's arithmetic in later products."""
    return v[0] != 'm' or all(n <= 1000 for _, n in v[1])


def kind_ok(k, o):
    return k in ('key', 'mo', 'any') or k in kinds_of(o)


def kinds_of(o):
    try:
        v = G.plain(o)
    except RecursionError:
        return ['mo']
    out = ['mo']
    if v[0] == 'c':
        out.append('cpl')
    if v[0] in 'sm':
        out.append('coll')
    if v[0] == 's':
        out.append('set')
        if G.is_rel(v):
            out.append('rel')
        if G.is_func(v):
            out.append('func')
        if G.is_clan(v):
            out.append('clan')
        if all(e[0] == 's' for e in v[1]):
            out.append('sos')
        if all(e[0] == 'm' for e in v[1]):
            out.append('som')
    if v[0] == 'm':
        out.append('mset')
        if G.is_mclan(v):
            out.append('mclan')
    return out


def exhaustive_jobs(rng, ops, universe, limit=None, info=None):
    """Every op with every combination of arguments (kind -> list of values), or a sample of them."""
    jobs = []
    for op in ops:
        spaces = [universe.get(k) for k in op.kinds]
        if any(x is None for x in spaces):
            continue
        jobs.append((op, spaces))
    sizes = []
    for op, spaces in jobs:
        n = 1
        for x in spaces:
            n *= len(x)
        sizes.append(n)
    total = sum(sizes)
    if info is not None:
        info.update(argument_combinations=total, run=min(total, limit or total), complete=limit is None or total <= limit)
    if limit is None or total <= limit:
        return [(op, v) for op, spaces in jobs for v in itertools.product(*spaces)]
    out = []
    for k in rng.sample(range(total), limit):
        for (op, spaces), n in zip(jobs, sizes):
            if k < n:
                vals = []
                for x in spaces:
                    vals.append(x[k % len(x)])
                    k //= len(x)
                out.append((op, tuple(vals)))
                break
            k -= n
    return out


def exhaustive(rec, rng, ops, universe, limit=None, b=None):
    """Every op on every combination of arguments from the universe (kind -> list of values)."""
    b = b or Builder(rng)
    info = {}
    for i, (op, vals) in enumerate(exhaustive_jobs(rng, ops, universe, limit, info)):
        if i % 500 == 0:
            b.made = {}
        do_call(rec, op, vals, b, rng, 0, unchecked=rng.random() < .15)
    return info


def variadic(rec, rng, prefix, n, fns):
    """diag, project, from_set, from_dict: operations with free-form arguments."""
    from .ops import clans, multiclans, relations
    mod = {'relations': relations, 'clans': clans, 'multiclans': multiclans}[prefix]
    g = b = None
    for i in range(n):
        if i % 25 == 0:
            g = Gen(random.Random(rng.random()), nested=rng.choice([0, .2]))
            b = Builder(rng)
        f = rng.choice(fns)
        keys = [g.comp() for _ in range(rng.randint(0, 3))]
        raw = []
        shown = []
        for k in keys:
            o = b(k)
            shown.append(o)
            raw.append(o.value if isinstance(o, mo.Atom) and rng.random() < .5 else o)
        if f == 'diag':
            if rng.random() < .25:
                rec.call(prefix + '.diag', mod.diag, tuple(shown), kwargs={'_checked': False}, shown=(shown,))
            else:
                if None in raw and not all(x is not None for x in raw):
                    raw = shown
                rec.call(prefix + '.diag', mod.diag, tuple(raw), shown=(shown,))
        elif f == 'project':
            o = b(g.clan() if prefix == 'clans' else g.mclan())
            ls = lefts(G.plain(o))
            if ls and rng.random() < .8:
                shown = [b(rng.choice(ls)) for _ in range(rng.randint(0, 3))]
                raw = [x.value if isinstance(x, mo.Atom) and rng.random() < .5 else x for x in shown]
            raw = [y if x is None else x for x, y in zip(raw, shown)]
            rec.call(prefix + '.project', mod.project, (o,) + tuple(raw), shown=(o, shown))
        elif f == 'from_set':
            left = b(g.comp())
            rec.call('clans.from_set', mod.from_set, (left,) + tuple(raw), shown=(left, shown))
        elif f == 'from_dict':
            d, sh = {}, []
            for k in keys:
                l, v = b(k), b(g.comp())
                lr = l.value if isinstance(l, mo.Atom) and rng.random() < .5 else l
                vr = v.value if isinstance(v, mo.Atom) and rng.random() < .5 else v
                if vr is None:
                    vr = v
                try:
                    dup = lr in d or any(type(q) is not type(lr) and G.plain(mo.auto_convert(q)) ==
                                         G.plain(mo.auto_convert(lr)) for q in d)
                except TypeError:
                    continue
                if dup:
                    continue
                d[lr] = vr
                sh += [l, v]
            rec.call(prefix + '.from_dict', mod.from_dict, (d,), shown=(sh,))


# ------------------------------------------------------------------ small universes
A1, A2, A3 = a(1), a('2'), a(3.5)


def small_relations():
    return list(G.relations_over([A1, A2]))                   # 16


def small_clans(maxn=2):
    return list(G.clans_over(small_relations(), maxn))        # 137 for 2


def small_mclans():
    rels = small_relations()
    return list(G.msets_over(rels, 1, (1, 2))) + \
        [m({x: 1, y: 2}) for x in rels for y in rels if x != y]


def small_sets():
    elems = [A1, A2, c(A1, A2), s(A1), s(c(A1, A1))]
    out = []
    for k in range(len(elems) + 1):
        out.extend(sv(x) for x in itertools.combinations(elems, k))
    return out                                                # 32


def small_msets():
    return list(G.msets_over([A1, A2, s(c(A1, A1))], 3, (1, 2)))       # 27
