"""Recorders for documents: object JSON, CSV, JSON, XML, RDF and result tables.

The harness writes every document itself, from a tree that the specification also sees.
"""
import collections
import csv as pycsv
import datetime
import decimal
import enum
import fractions
import io
import json
import logging
import os
import random
import warnings

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

import rdflib                                                                    # noqa: E402

import algebraixlib.import_export.csv as axcsv                                    # noqa: E402
import algebraixlib.import_export.json as axjson                                  # noqa: E402
import algebraixlib.import_export.mojson as mojson                                # noqa: E402
import algebraixlib.import_export.rdf as axrdf                                    # noqa: E402
import algebraixlib.import_export.xml as axxml                                    # noqa: E402
import algebraixlib.mathobjects as mo                                             # noqa: E402
import algebraixlib.util.rdf as urdf                                              # noqa: E402

from . import campaign as K                                                       # noqa: E402
from . import gen as G                                                            # noqa: E402
from .enc import Table                                                            # noqa: E402
from .gen import EMPTY, MEMPTY, Builder, Gen, a, c, m, s, sv                      # noqa: E402
from .ops import U                                                                # noqa: E402
from .rec import Recorder                                                         # noqa: E402

TEXTS = ['a', 'b', 'x y', ' lead', 'trail ', 'q"uote', "it's", 'com,ma', 'semi;colon', 'new\nline', 'cr\r\nlf',
         'tab\there', '\u00e9t\u00e9', '\u4e2d', '\U0001d54f', '0', '1', '007', '-5', '2.5', 'None', 'True', '""', '\\',
         '\\n', '$', '&amp;', '<b>', ']]>', '#', 'NA', "'", '1e5', ' ', 'a"b,c']


class Doc:
    """Hands a document to the library as a path or as a file object."""
    def __init__(self, x):
        self.rng, self.n = x.rng, 0

    def give(self, text, ext='txt', newline=''):
        self.n += 1
        if self.rng.random() < .5:
            path = os.path.abspath('doc%d.%s' % (self.n % 50, ext))
            with open(path, 'w', encoding='utf-8', newline='') as f:
                f.write(text)
            if self.rng.random() < .3:
                return open(path, encoding='utf-8', newline=newline)
            return path
        return io.StringIO(text, newline='')

    def out(self, fn):
        """What fn writes, to a path or to a file object."""
        self.n += 1
        if self.rng.random() < .5:
            path = os.path.abspath('out%d' % (self.n % 50))
            if self.rng.random() < .5:
                with open(path, 'w') as f:
                    f.write('something that was there before, and longer\n' * 20)
            elif os.path.exists(path):
                os.remove(path)
            r = fn(path)
            if r is False and not os.path.exists(path):
                return r, None
            with open(path, encoding='utf-8', newline='') as f:
                return r, f.read()
        f = io.StringIO(newline='')
        r = fn(f)
        return r, f.getvalue()


# ------------------------------------------------------------------ C14: object JSON
MO_VALUES = [
    ['a', '', '\u00e9', '\U0001d54f', 'q"', '\\', 'new\nline', '\x00', '__cls__', '</x>'],
    [0, 1, -1, 10**30, -2**63, 2**53 + 1],
    [1, True, 1.0, '1', b'1', None, False, 0, 0.0],
    [1.5, -0.1, 1e300, 1e-300, float('inf'), float('-inf'), 0.1 + 0.2],
    [b'', b'\x00\xff', b'abc', complex(1, 2), complex(0, -1.5), complex(1e10, 0)],
    [(), (1,), (1, 'a'), ((1, 2), 'x'), (True, 1.5), (None,), (b'x', (complex(1, 1),)), ((),)],
    [frozenset(), frozenset([1, 2]), frozenset(['a', (1, 2)]), frozenset([frozenset([1])]), range(3), range(1, 10, 2),
     range(0), range(5, 0, -1)],
    [(frozenset([1]), range(2)), (range(0, 3),), frozenset([range(3), b'a'])],
]


def c14(x, rec=None):
    rec = rec or Recorder()
    rng = x.rng

    def trip(o):
        kw = rng.choice([{}, {'indent': 2}, {'ensure_ascii': False}, {'separators': (',', ':')}])
        text = json.dumps(o, cls=mojson.ExportJson, **kw)
        return json.loads(text, cls=mojson.ImportJson)
    for v in [q for p in MO_VALUES for q in p]:
        o = mo.Atom(v)
        for p in (o, mo.Couplet(o, o), mo.Set([o]), mo.Multiset({o: 3}), mo.Set([mo.Couplet(o, mo.Set([o, mo.Multiset()]))])):
            rec.call('mojson.roundtrip', trip, (p,))
    for v in K.small_sets() + K.small_msets() + K.small_clans(2)[:60] + K.small_mclans()[:60] + [EMPTY, MEMPTY, s(EMPTY), m({MEMPTY: 2})]:
        rec.call('mojson.roundtrip', trip, (Builder(rng)(v),))
    for i in range(x.n(7000)):
        if i % 30 == 0:
            pool = rng.choice(MO_VALUES) if rng.random() < .6 else [rng.choice(rng.choice(MO_VALUES)) for _ in range(5)]
            g = Gen(random.Random(rng.random()), pool=pool, nested=.3, size=rng.choice([2, 3, 6]))
            b = Builder(rng)
        o = b(rng.choice([g.any, g.any, g.clan, g.mclan, g.mset, g.tower])())
        rec.call('mojson.roundtrip', trip, (o,))
        if i % 5 == 0:   # inside plain JSON
            rec.call('mojson.roundtrip', lambda q: trip({'k': [q, 1]})['k'][0], (o,))
            rec.call('mojson.roundtrip', lambda q: trip([q, {'a': q}])[1]['a'], (o,))

    class Color(enum.IntEnum):
        RED = 1
    Pt = collections.namedtuple('Pt', 'x y')
    for v in (decimal.Decimal('1.5'), fractions.Fraction(1, 2), datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2),
              datetime.timedelta(1), (1, decimal.Decimal('2')), len, int, Ellipsis, object):
        for o in (mo.Atom(v), mo.Set([mo.Atom(v)]), mo.Couplet(1, v)):
            rec.call('mojson.reject', trip, (o,))
    for v in (rdflib.URIRef('http://x'), Color.RED, Pt(1, 2)):
        rec.call('mojson.reject', trip, (mo.Atom(v),))
    return rec


# ------------------------------------------------------------------ C15: CSV
HEADS = ['a', 'b', 'c', 'col 1', 'q"t', 'x,y', '\u00e9', '1', 'id', 'new\nline', ' s ']


def cell_text(cell, rng):
    if cell != '' and (any(q in cell for q in '",\r\n') or rng.random() < .2):
        return '"' + cell.replace('"', '""') + '"'
    return cell


def csv_text(rows, rng):
    eol = rng.choice(['\r\n', '\n'])
    out = []
    for r in rows:
        cells = [cell_text(q, rng) for q in r]
        if len(cells) == 1 and cells[0] == '':
            cells = ['""']
        out.append(','.join(cells) + eol)
        if rng.random() < .03:
            out.append(eol)
    text = ''.join(out)
    return text[:-len(eol)] if rng.random() < .2 and text.endswith(eol) and rows and rows[-1][-1] != '' else text


def to_int(t):
    return int(t)


def csv_types(rng, heads, rows):
    """Converters that accept every non-empty cell of their column."""
    out = {}
    for j, h in enumerate(heads):
        if rng.random() < .6:
            continue
        col = [r[j] for r in rows if j < len(r) and r[j] != '']
        f = rng.choice([int, float, str.strip, len, lambda t: t + '!', lambda t: (t,), lambda t: t == 'a',
                        lambda t: mo.Couplet(t, 1) if False else t.upper()])
        try:
            for t in col:
                f(t)
        except ValueError:
            f = len
        out[h] = f
    if rng.random() < .2:
        out['no such column'] = int
    return out


def c15(x, rec=None):
    rec = rec or Recorder()
    rng, doc = x.rng, Doc(x)
    for i in range(x.n(4500)):
        n = rng.choice([1, 2, 2, 3, 4])
        heads = rng.sample(HEADS, n)
        pool = rng.choice([TEXTS, ['a', 'b', ''], ['1', '2', '30', ''], TEXTS[:6] + ['', '', '']])
        rows = [[rng.choice(pool) for _ in range(n)] for _ in range(rng.randint(0, 6))]
        if rng.random() < .3:
            rows += [list(rng.choice(rows)) for _ in range(2)] if rows else []
        if rng.random() < .2:                    # ragged: rows that end early
            rows = [r[:rng.randint(1, n)] for r in rows]
            rows = [r if any(r) or len(r) > 1 else [''] * n for r in rows]
        types = csv_types(rng, heads, rows) if rng.random() < .6 else None
        kw = {}
        if types is not None:
            kw['types'] = types
        lines = []
        skip = rng.choice([0, 0, 0, 1, 2, 5])
        text = ''.join(rng.choice(['skipped, line %d\n' % k, '\n', '\r\n', '   \n', 'one\n', '# x;y\n', ',,,\n', "it's\n",
                                   ','.join(cell_text(h, rng) for h in heads if '\n' not in h) + '\n', '"q","r"\n'])
                       for k in range(skip))
        if skip:
            kw['skip_rows'] = skip
        if rng.random() < .25:
            kw['columns'] = heads
            lines = rows
        else:
            lines = [heads] + rows
        idx = None
        mode = rng.random()
        if mode < .25:
            kw['has_dup_rows'] = True
        elif mode < .5:
            idx = rng.choice(['#', 'row', rng.choice(heads)])
            kw['index_column'] = idx
        text += csv_text(lines, rng)
        typed = [types is not None and h in types for h in heads]
        shown_rows = []
        for r in rows:
            cells = []
            for h, t in zip(heads, r):
                conv = types[h](t) if types and h in types and t != '' else t
                cells.append([mo.Atom(t), mo.Atom(conv), t == ''])
            shown_rows.append(cells)
        rec.call('csv.import', lambda q: axcsv.import_csv(doc.give(text, 'csv'), **kw), (0,), shown=(
            [mo.Atom(h) for h in heads], shown_rows, typed, U if idx is None else mo.Atom(idx), 'has_dup_rows' in kw))
    csv_export(rec, x, doc)
    return rec


def text_table(g, rng, heads, texts, multi, regular):
    """A table of atoms with text lefts."""
    rels = []
    for _ in range(rng.randint(0, 5)):
        cols = heads if regular else [h for h in heads if rng.random() < .7]
        rels.append(sv(c(a(h), a(rng.choice(texts))) for h in cols))
    return m({r: rng.choice([1, 1, 2, 3]) for r in rels}) if multi else sv(rels)


def csv_export(rec, x, doc):
    rng = x.rng
    for i in range(x.n(5000)):
        if i % 30 == 0:
            g, b = Gen(random.Random(rng.random())), Builder(rng)
        heads = rng.sample(HEADS, rng.randint(1, 4))
        multi, regular = rng.random() < .5, rng.random() < .5
        texts = rng.choice([TEXTS, ['a', 'b'], ['x', '1', '2']])
        ints = rng.random() < .25
        if ints:
            texts = [1, 20, -3, 'x', 2.5, 'y z', True, 10**20]
        t = text_table(g, rng, heads, texts, multi, regular)
        o = b(t)
        back = {str(v): mo.Atom(v) for v in texts}
        rels = t[1] if not multi else [q for q, _ in t[1]]
        same_lefts = len({frozenset(e[1] for e in r[1]) for r in rels}) <= 1
        if rng.random() < .5 and same_lefts and all(r[1] for r in rels):
            lefts = None
            cols = sorted({e[1][1] for r in rels for e in r[1]})
        else:
            lefts = rng.sample(heads, rng.randint(1, len(heads)))
            if rng.random() < .15:
                lefts.append('absent')
            cols = lefts
        cols_shown = [mo.Atom(h) for h in cols]

        def export(f, key=None):
            kw = {} if key is None else {'sort_key': key}
            if lefts is not None:
                kw['ordered_lefts'] = lefts
            return axcsv.export_csv(o, f, **kw)

        def listing(key=None):
            r, text = doc.out(lambda f: export(f, key))
            if r is not True:
                return r
            rows = list(pycsv.reader(io.StringIO(text, newline='')))
            head = [mo.Atom(h) for h in rows[0]] if rows else []
            return [head, [[back.get(q, q) if q != '' else '' for q in row] for row in rows[1:]]]
        if not cols:
            continue
        rec.call('csv.export_rows', lambda q: listing(), (o,), shown=(o, cols_shown, U))
        if rng.random() < .4:
            salt = rng.random()
            objs = list(o.data)
            on = lambda r: mo.Set([p for p in r.data if p.left.value in cols])
            rank = lambda r: random.Random(repr((salt, repr(on(r))))).randint(0, 3)
            tab = Table(rank)
            for r in objs:
                tab.rows[(rec.enc.enc(on(r)),)] = rec.enc.enc(rank(r))
            rec.call('csv.export_rows', lambda q: listing(rank), (o,), shown=(o, cols_shown, tab))
        if not ints and (len(cols) > 0):
            def trip(q):
                r, text = doc.out(export)
                if r is not True:
                    return r
                return axcsv.import_csv(doc.give(text, 'csv'), has_dup_rows=multi)
            rec.call('csv.roundtrip', trip, (o,), shown=(o, cols_shown))
        # tables that cannot be exported are refused
        if i % 6 == 0:
            bad = rng.choice([sv([s(c(a('x'), s(a('y'))))]), sv([a(1)]), m({a('x'): 1}), s(c(a('x'), a('y'))), a('x'), c(a('x'), a('y')),
                              m({s(c(EMPTY, a('y'))): 2})])
            rec.call('csv.export_refused', lambda q: doc.out(lambda f: axcsv.export_csv(q, f, ordered_lefts=['x']))[0], (b(bad),))
            irr = sv([s(c(a('x'), a(1))), s(c(a('y'), a(2)))])
            irr2 = sv([s(c(a('x'), a(1)), c(a('x'), a(2)))])
            for w in (irr, irr2):
                q = b(w if rng.random() < .5 else m({r: 2 for r in w[1]}))
                rec.call('csv.export_refused', lambda z: doc.out(lambda f: axcsv.export_csv(z, f))[0], (q,))


# ------------------------------------------------------------------ C16: JSON and XML
def json_tree(rng, depth, scalars):
    k = rng.random()
    if depth == 0 or k < .35:
        return rng.choice(scalars)
    if k < .7:
        keys = rng.sample(['a', 'b', 'c', '', 'a b', '\u00e9', '1', '$', 'a.b'], rng.randint(0, 4))
        return {q: json_tree(rng, depth - 1, scalars) for q in keys}
    return [json_tree(rng, depth - 1, scalars) for _ in range(rng.randint(0, 4))]


def json_shown(t):
    if isinstance(t, dict):
        out = ['dict']
        for k, v in t.items():
            out += [mo.Atom(k), json_shown(v)]
        return out
    if isinstance(t, list):
        return ['list'] + [json_shown(v) for v in t]
    return mo.Atom(t)


SCALARS = [['x', 'y', '', '\u00e9', 'a b', '1'], [0, 1, -1, 10**20, 2**53 + 1], [1, True, 1.0, '1', False, 0, 0.0],
           [1.5, -0.25, 1e300, 1e-7], ['x', 1, 2.5, True, 'q"\\/\n', '\u2028']]


def c16(x, rec=None):
    rec = rec or Recorder()
    rng, doc = x.rng, Doc(x)
    for i in range(x.n(5000)):
        sc = rng.choice(SCALARS)
        t = json_tree(rng, rng.randint(1, 4), sc)
        if not isinstance(t, (dict, list)):
            t = {'k': t} if rng.random() < .5 else [t]
        text = json.dumps(t, indent=rng.choice([None, None, 1]), ensure_ascii=rng.random() < .5)
        rec.call('json.import', lambda q: axjson.import_json(doc.give(text, 'json')), (0,), shown=(json_shown(t),))
    for i in range(x.n(5000)):
        t = xml_tree(rng, rng.randint(1, 4), rng.choice(XML_TEXTS))
        text = xml_text(t, rng)
        conv = rng.random() < .5
        kw = {'convert_numerics': conv} if rng.random() < .8 or conv else {}
        rec.call('xml.import', lambda q: axxml.import_xml(doc.give(text, 'xml'), **kw), (0,), shown=(xml_shown(t), conv))
    return rec


XML_TEXTS = [['1', '2', '3.5', '-7', 'x'], ['x', 'y', 'a b', '\u00e9', '\u4e2d'], ['1', '1.0', '01', '+1', '1e3', ' 1 ', '1 2', '0x1'],
             ['<b>', 'a&b', '"q"', "it's", ']]', '$', 'a<>b'], ['1', 'a', '10000000000000000000000', '.5', '5.', '-', '1_0'],
             ['0', '-0', '00', '-05', '+0', '-1', '0.0', '-1.0', '1e-3', '-', '--1', 'a'], ['inf', '-Infinity', '1e400', '\u0663', '1,5', '1/2', 'True', 'None', '0b1', '1j'],
             ['x  y', 'a\nb', 'p \t q', ' z ', '1  2', 'a b', 'a  b', '\u00a0x', '  ', 'Ab', 'aB']]


def xml_tree(rng, depth, texts):
    """('elem', tag, {attrs}, children); children: elements and texts, no two texts in a row."""
    attrs = {}
    for k in rng.sample(['id', 'a', 'b', 'x-y', 'n1'], rng.choice([0, 0, 0, 1, 1, 2])):
        attrs[k] = rng.choice(texts + [''])
    ch = []
    k = rng.random()
    if depth > 0 and k < .7:
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .2 and (not ch or ch[-1][0] == 'elem'):
                ch.append(('text', rng.choice(texts)))
            else:
                ch.append(xml_tree(rng, depth - 1, texts))
    elif k < .9:
        ch.append(('text', rng.choice(texts)))
    return ('elem', rng.choice(['r', 'a', 'b', 'c-d', 'e.f', 'G']), attrs, ch)


def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def xml_text(t, rng):
    head = rng.choice(['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n'])
    pretty = rng.random() < .5

    def el(t, ind):
        pad = '\n' + '  ' * ind if pretty else ''
        if t[0] == 'text':
            return (pad + '\n' if pretty and rng.random() < .5 else '') + esc(t[1])
        at = ''.join(' %s="%s"' % (k, esc(v).replace('\n', '&#10;').replace('\t', '&#9;')) for k, v in t[2].items())
        if not t[3] and rng.random() < .7:
            return '%s<%s%s/>' % (pad, t[1], at)
        body = ''.join(el(q, ind + 1) for q in t[3])
        return '%s<%s%s>%s%s</%s>' % (pad, t[1], at, body, pad if t[3] and t[3][-1][0] == 'elem' else '', t[1])
    return head + el(t, 0).lstrip('\n') + '\n'


def num(t):
    try:
        return int(t)
    except ValueError:
        try:
            return float(t)
        except ValueError:
            return t


def xval(t):
    return [mo.Atom(t), mo.Atom(num(t))]


def xml_shown(t):
    if t[0] == 'text':
        return ['text', xval(t[1].strip())]
    attrs = []
    for k, v in t[2].items():
        attrs += [mo.Atom(k), xval(v)]
    return ['elem', mo.Atom(t[1]), attrs, [xml_shown(q) for q in t[3] if q[0] == 'elem' or q[1].strip()]]


# ------------------------------------------------------------------ C17: graphs
def graph(g, rng, terms, n):
    return sv(s(c(a('s'), rng.choice(terms)), c(a('p'), rng.choice(terms)), c(a('o'), rng.choice(terms))) for _ in range(n))


def c17(x, rec=None):
    rec = rec or Recorder()
    rng = x.rng
    names = ['?x', '?y', '$z', '?', '$s', '?s']
    for i in range(x.n(7000)):
        if i % 30 == 0:
            g, b = Gen(random.Random(rng.random()), nested=.3), Builder(rng)
            pool = rng.choice([['a', 'b', 'c'], [1, True, 1.0, '1'], ['s', 'p', 'o'], ['a', 'b', 2, '', 'x y'],
                               [rdflib.URIRef('http://a'), 'http://a', rdflib.URIRef('http://b')]])
            terms = [a(v) for v in pool] + ([g.comp(), s(a('q'))] if rng.random() < .3 else [])
        gv = graph(g, rng, terms, rng.randint(1, 6))
        o = b(gv)
        free = rng.sample(names, 3)
        args, shown = [], []
        anchor = rng.choice(sorted(gv[1], key=repr))
        at = {e[1][1]: e[2] for e in anchor[1]}
        for pos in 'spo':
            k = rng.random()
            if k < .25:
                args.append(None)
                shown.append(U)
            elif k < .6:
                n = free.pop()
                args.append(n)
                shown.append([['var'][0], mo.Atom(n)])
            else:
                v = b(at[pos] if rng.random() < .7 else rng.choice(terms))
                plain = isinstance(v, mo.Atom) and rng.random() < .5 and v.value is not None
                args.append(v.value if plain else v)
                shown.append(v)
        rec.call('rdf.triple_match', urdf.triple_match, (o,) + tuple(args), shown=(o,) + tuple(shown))
        if all(p is not None for p in args) or rng.random() < .3:
            kw = {k: v for k, v in zip(('subject', 'predicate', 'object_'), args) if v is not None}
            rec.call('rdf.triple_match', lambda *q: urdf.triple_match(o, **kw), (0,), shown=(o,) + tuple(shown))
        # pattern_match and match_and_project on any clan
        t = b(g.clan()) if rng.random() < .5 else o
        cs = [e for r in t.data for e in r.data]
        pat = {}
        for e in rng.sample(cs, min(len(cs), rng.randint(0, 2))):
            if not any(G.plain(q) == G.plain(e.left) for q in pat):
                pat[e.left] = e.right if rng.random() < .8 else b(rng.choice(terms))
        proj = {}
        lefts = list({G.plain(e.left): e.left for e in cs}.values())
        for q in rng.sample(lefts, min(len(lefts), rng.randint(0, 3))) + ([mo.Atom('none')] if rng.random() < .1 else []):
            proj[q] = mo.Atom(rng.choice(names + ['out']))
        if len({G.plain(v) for v in proj.values()}) < len(proj):
            proj = {}

        def plain_keys(d):
            if rng.random() < .5:
                return d
            return {(k.value if isinstance(k, mo.Atom) else k): (v.value if isinstance(v, mo.Atom) and v.value is not None else v)
                    for k, v in d.items()}
        flat = lambda d: [q for kv in d.items() for q in kv]
        rp, rj = plain_keys(pat), plain_keys(proj)
        if len(rp) == len(pat) and len(rj) == len(proj):
            rec.call('rdf.pattern_match', urdf.pattern_match, (t, rp), shown=(t, flat(pat)))
            rec.call('rdf.match_and_project', urdf.match_and_project, (t, rp, rj), shown=(t, flat(pat), flat(proj)))
        # joins of solutions
        sols = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            ns = rng.sample(names, rng.randint(0, 3))
            rows = [sv(c(a(n), rng.choice(terms)) for n in ns if rng.random() < .9) for _ in range(rng.randint(0, 3))]
            sols.append(b(sv(rows)))
        rec.call('rdf.join', urdf.join, tuple(sols), shown=(sols,))
        perm = sols[:]
        rng.shuffle(perm)
        rec.call('rdf.join', lambda q: urdf.join(*perm), (0,), shown=(sols,))
        if i % 2 == 0:
            near = rng.choice([gv, s(anchor), anchor, sv([anchor, g.relation()]), g.any(), EMPTY, s(EMPTY), MEMPTY,
                               sv(e for e in anchor[1] if e[1] != a('s')), sv(list(anchor[1]) + [c(a('s'), a('zz'))]),
                               sv(list(anchor[1]) + [c(a('t'), a('zz'))]),
                               sv([anchor, sv(e for e in anchor[1] if e[1] != a('o'))]),
                               sv([sv([c(a('s'), a(1)), c(a('s'), a(2)), c(a('o'), a(1))])]), g.clan(), g.mclan()])
            w = b(near)
            for nm in ('is_triple', 'is_absolute_triple', 'is_graph', 'is_absolute_graph'):
                rec.call('rdf.' + nm, getattr(urdf, nm), (w,))
            ts = [b(q) for q in (rng.choice(terms), rng.choice(terms), g.any())]
            rec.call('rdf.make_triple', urdf.make_triple, tuple(ts))
    # several matches joined, against the specification of the whole query
    return rec


# ------------------------------------------------------------------ C18: RDF documents and result tables
XSD = 'http://www.w3.org/2001/XMLSchema#'
IRIS = ['http://a.org/x', 'http://a.org/y', 'http://b.org/#z', 'urn:q', 'http://a.org/p%20q']
LITS = [('plain', None, 'plain'), ('', None, ''), ('q"uote\\', None, 'q"uote\\'), ('l1\nl2', None, 'l1\nl2'),
        ('\u00e9\u4e2d', None, '\u00e9\u4e2d'), ('5', XSD + 'integer', 5), ('-12', XSD + 'integer', -12), ('5', None, '5'),
        ('true', XSD + 'boolean', True), ('false', XSD + 'boolean', False), ('true', None, 'true'),
        ('2.5', XSD + 'decimal', decimal.Decimal('2.5')), ('1500.0', XSD + 'double', 1500.0), ('x', XSD + 'string', 'x'),
        ('2020-01-02', XSD + 'date', datetime.date(2020, 1, 2)), ('http://a.org/x', None, 'http://a.org/x'), ('1', XSD + 'integer', 1),
        ('1.0', XSD + 'double', 1.0), ('tab\t', None, 'tab\t')]


def nt_esc(t):
    return t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\r', '\\r').replace('\t', '\\t')


def nt_term(t):
    if t[0] == 'iri':
        return '<%s>' % t[1]
    if t[0] == 'b':
        return '_:' + t[1]
    lex, dt, _ = t[1]
    return '"%s"' % nt_esc(lex) + ('^^<%s>' % dt if dt else '')


def rdf_terms(rng):
    iris = [('iri', q) for q in rng.sample(IRIS, 3)]
    bn = [('b', 'b%d' % k) for k in range(rng.choice([0, 0, 1, 2, 3]))]
    lits = [('l', q) for q in rng.sample(LITS, 5)]
    return iris, bn, lits


def term_atom(t):
    if t[0] == 'iri':
        return mo.Atom(rdflib.URIRef(t[1]))
    if t[0] == 'b':
        return mo.Atom(('bnode', t[1]))
    return mo.Atom(t[1][2])


def turtle(ts, rng):
    """Turtle with prefixes and ; , abbreviations."""
    out = ['@prefix a: <http://a.org/> .\n@prefix xsd: <%s> .\n' % XSD]

    def term(t):
        if t[0] == 'iri' and t[1] in ('http://a.org/x', 'http://a.org/y') and rng.random() < .6:
            return 'a:' + t[1][-1]
        if t[0] == 'l':
            lex, dt, v = t[1]
            if dt in (XSD + 'integer', XSD + 'boolean', XSD + 'decimal') and rng.random() < .5:
                return lex
            if dt and rng.random() < .5:
                return '"%s"^^xsd:%s' % (nt_esc(lex), dt[len(XSD):])
        return nt_term(t)
    by = {}
    for t in ts:
        by.setdefault(t[0], {}).setdefault(t[1], []).append(t[2])
    for q, ps in by.items():
        out.append(term(q) + ' ' + ' ;\n   '.join(
            term(p) + ' ' + ' , '.join(term(o) for o in os_) for p, os_ in ps.items()) + ' .\n')
    return ''.join(out)


def rdfxml(ts):
    pre = {}
    out = []
    for q, p, o in ts:
        cut = max(p[1].rfind('/'), p[1].rfind('#'), p[1].rfind(':')) + 1
        n = pre.setdefault(p[1][:cut], 'n%d' % len(pre))
        subj = 'rdf:nodeID="%s"' % q[1] if q[0] == 'b' else 'rdf:about="%s"' % esc(q[1])
        if o[0] == 'l':
            dt = ' rdf:datatype="%s"' % o[1][1] if o[1][1] else ''
            obj = '<%s:%s%s>%s</%s:%s>' % (n, p[1][cut:], dt, esc(o[1][0]), n, p[1][cut:])
        else:
            obj = '<%s:%s %s="%s"/>' % (n, p[1][cut:], 'rdf:nodeID' if o[0] == 'b' else 'rdf:resource', esc(o[1]))
        out.append('<rdf:Description %s>%s</rdf:Description>\n' % (subj, obj))
    ns = ''.join(' xmlns:%s="%s"' % (n, esc(u)) for u, n in pre.items())
    return '<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"%s>\n%s</rdf:RDF>\n' % (ns, ''.join(out))


def c18(x, rec=None):
    rec = rec or Recorder()
    rng, doc = x.rng, Doc(x)
    for i in range(x.n(900)):
        iris, bn, lits = rdf_terms(rng)
        ts = []
        for _ in range(rng.randint(0, 6)):
            ts.append((rng.choice(iris + bn), rng.choice(iris), rng.choice(iris + bn + lits * 2)))
        fmt = rng.choice(['nt', 'turtle', 'turtle', 'xml', None])
        if fmt == 'xml' and any(p[1].endswith('%20q') or '\t' in repr(o) or o[0] == 'l' and '\n' in o[1][0] for _, p, o in ts):
            fmt = 'nt'
        if fmt == 'xml' and any(p[1].endswith('#z') is False and p[1].count('/') < 3 and not p[1].startswith('urn') for _, p, _ in ts):
            fmt = 'nt'
        if fmt == 'nt':
            text = ''.join('%s %s %s .\n' % tuple(nt_term(q) for q in t) for t in ts)
        elif fmt == 'xml':
            text = rdfxml(ts)
        else:
            text = turtle(ts, rng)
        used = sorted({q for t in ts for q in t if q[0] == 'b'})
        shown = ([[term_atom(q) for q in t] for t in ts], [term_atom(q) for q in used])

        def load(q):
            f = doc.give(text, {'nt': 'nt', 'xml': 'rdf'}.get(fmt, 'ttl'))
            if fmt == 'xml' and not isinstance(f, str):
                f = io.BytesIO(text.encode('utf-8'))
            how = {} if fmt is None or (isinstance(f, str) and rng.random() < .5) else {'rdf_format': fmt}
            return axrdf.import_graph(f, **how)
        rec.call('graph.import', load, (0,), shown=shown)
        if i % 7 == 0 and ts:      # importing twice gives different names to blank nodes only
            rec.call('graph.import', load, (0,), shown=shown)
    tables(rec, x, doc)
    for p in ('a', 'dir/x y', '/abs/p.ttl', 'q#1.nt', '\u00e9'):
        rec.call('rdf.file_url', lambda q: [urdf.is_file_url(urdf.get_file_url(q)), back_path(urdf.get_file_url(q))],
                 (p,), shown=(os.path.abspath(p),))
    return rec


def back_path(url):
    import urllib.parse
    return urllib.parse.unquote(urllib.parse.urlparse(url).path)


def json_term(d):
    """The value of a SPARQL JSON result term."""
    if d['type'] == 'uri':
        return rdflib.URIRef(d['value'])
    if d['type'] == 'bnode':
        return rdflib.BNode(d['value'])
    dt = d.get('datatype')
    v = d['value']
    if dt is None:
        return v
    return {XSD + 'integer': int, XSD + 'boolean': lambda t: {'true': True, 'false': False}[t], XSD + 'double': float,
            XSD + 'decimal': decimal.Decimal, XSD + 'string': str,
            XSD + 'date': datetime.date.fromisoformat}.get(dt, lambda t: ('?', dt, t))(v)


def lexical(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, float):
        return str(rdflib.Literal(v))
    return str(v)


CELLS = [
    ['a', 'b', 'c'], ['q"uote', 'com,ma', 'new\nline', 'back\\slash', '', ' lead', '\u00e9', '{', '}', '\t', '\U0001d54f'],
    [1, -5, 10**20, True, False, '1', 'true'], [rdflib.URIRef('http://a.org/x'), rdflib.URIRef('http://b/?q=1&r="2'), 'http://a.org/x'],
    [rdflib.BNode('b1'), rdflib.BNode('b2'), 'b1'], [2.5, -1e10, decimal.Decimal('2.5'), datetime.date(2020, 1, 2), 1],
]


def tables(rec, x, doc):
    rng = x.rng
    for i in range(x.n(4500)):
        if i % 30 == 0:
            g, b = Gen(random.Random(rng.random())), Builder(rng)
        heads = rng.sample(['?a', '?b', 'x', 'name with space', 'q"t', '$v', 'z,z', 'back\\'], rng.randint(1, 4))
        cells = rng.choice(CELLS)
        if rng.random() < .3:
            cells = [rng.choice(rng.choice(CELLS)) for _ in range(6)]
        o = b(text_table(g, rng, heads, cells, False, rng.random() < .4))
        lefts = rng.sample(heads, rng.randint(1, len(heads)))
        if rng.random() < .15:
            lefts.append('absent')
        cols = sorted(lefts)
        arg = mo.Set(lefts) if rng.random() < .6 else [mo.Atom(q) for q in lefts]
        shown = (o, [mo.Atom(q) for q in cols])

        def as_json(q):
            _, text = doc.out(lambda f: axrdf.export_table(f, arg, o, out_format='json'))
            d = json.loads(text)
            if set(d) != {'head', 'results'} or set(d['head']) != {'vars'} or set(d['results']) != {'bindings'}:
                return 'wrong shape'
            vs = d['head']['vars']
            rows = []
            for r in d['results']['bindings']:
                if not set(r) <= set(vs):
                    return 'unknown variable'
                rows.append([mo.Atom(json_term(r[v])) if v in r else '' for v in vs])
            return [[mo.Atom(v) for v in vs], rows]
        rec.call('table.json', as_json, (0,), shown=shown)
        back = {}
        for v in cells:
            back.setdefault(lexical(v), []).append(mo.Atom(v))
        if any(len({rec.enc.enc(q) for q in vs}) > 1 for vs in back.values()):
            continue

        def as_csv(q):
            kw = {} if rng.random() < .5 else {'out_format': 'csv'}
            _, text = doc.out(lambda f: axrdf.export_table(f, arg, o, **kw))
            rows = list(pycsv.reader(io.StringIO(text, newline=''), skipinitialspace=True))
            n = len(cols)
            out = []
            for row in rows[1:]:
                row = row or ['']
                out.append([back[q][0] if q in back and (q != '' or quoted_empty) else '' for q in row])
            return [[mo.Atom(q) for q in rows[0]], out]
        quoted_empty = False
        if '' in cells:
            continue
        rec.call('table.csv', as_csv, (0,), shown=shown)
