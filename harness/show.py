"""C23: what LaTeX, HTML and text renderings show.

The harness only takes renderings apart (brackets, separators, tags) into a tree of what they show; which tree an
object must have is said by spec/Render.tla."""
import contextlib
import html as pyhtml
import io
import random
import re
import sys
import types

import algebraixlib.mathobjects as mo
import algebraixlib.import_export.xml as axxml
import algebraixlib.util.html as axhtml
import algebraixlib.util.latexprinter as lp
import algebraixlib.util.mathobjectprinter as mp
import algebraixlib.util.miscellaneous as misc

from . import campaign as K
from . import gen as G
from .docs import Doc, XML_TEXTS, xml_shown, xml_text, xml_tree
from .enc import reachable
from .gen import EMPTY, MEMPTY, Builder, Gen, a, c, m, s, sv
from .ops import U
from .rec import Recorder

POOLS = [['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'], [1, 2, 3, 10, 20, -5, 0, 7], ['x y', 'a,b', 'p:q', '(', ')', '[', ']', '->'],
         [1, True, 1.0, '1', None, 2.5, 'a', b'1'], ['a long text of atoms', 'exactly 11c', 'exactly 10', 'twelve chars', 'a long text', 13, 'b', 'c'],
         ['<b>', '&amp;', '"', "it's", '$$', 'a<b', '\u00e9', '\u4e2d'], [10 ** 12, 10 ** 13, 10 ** 20, 1234567890123, 1.23456789012345, 'x', 'y', 'z']]


# ------------------------------------------------------------------ LaTeX
class Tex:
    """Recursive descent over the markup; the texts of atoms are known beforehand (longest first)."""
    def __init__(self, text, atoms):
        self.t, self.i, self.atoms = text, 0, sorted(atoms, key=len, reverse=True)

    def at(self, q):
        return self.t.startswith(q, self.i)

    def eat(self, q):
        if not self.at(q):
            raise ValueError('expected %r at %r' % (q, self.t[self.i:self.i + 30]))
        self.i += len(q)

    def opt(self, q):
        if self.at(q):
            self.i += len(q)
            return True
        return False

    def all(self):
        r = self.obj()
        if self.i != len(self.t):
            raise ValueError('left over: %r' % self.t[self.i:])
        return r

    def obj(self):
        if self.opt(r'\mathit{undef}'):
            return ['undef']
        if self.opt(r'\left\{'):
            arr = self.opt(r'\begin{array}{l}')
            items, more = self.items(r'\end{array}\right\}' if arr else r'\right\}', arr, self.item)
            return ['set', arr, items, more]
        if self.opt(r'\left['):
            arr = self.opt(r'\begin{array}{l}')
            items, more = self.items(r'\end{array}\right]' if arr else r'\right]', arr, self.counted)
            return ['mset', arr, items, more]
        left, lc = self.comp()
        if left[0] == 'atom' and lc is None and not self.at(r'{\mapsto}'):
            return left
        self.eat(r'{\mapsto}{')
        right, rc = self.comp()
        self.eat('}')
        return ['cpl', left, lc or '', right, rc or '']

    def comp(self):
        paren = self.opt(r'\left(')
        colour = None
        if self.opt(r'\color{'):
            j = self.t.index('}', self.i)
            colour = self.t[self.i:j]
            self.i = j + 1
            self.eat('{')
        if self.at(r'\mbox{'):
            o = self.atom()
            if paren and self.at(r'{\mapsto}'):      # a couplet in parentheses that starts with an atom
                self.i -= len(o[2])
                o = self.obj()
        else:
            o = self.obj() if paren else None
            if o is None:
                raise ValueError('component expected at %r' % self.t[self.i:self.i + 30])
        if colour is not None:
            self.eat('}')
        if paren:
            self.eat(r'\right)')
        if paren == (o[0] == 'atom'):
            raise ValueError('parentheses around %r: %r' % (o[0], paren))
        return (o[:2] if o[0] == 'atom' else o), colour

    def atom(self):
        start = self.i
        self.eat(r'\mbox{')
        for q in self.atoms:
            if self.at(q + '}'):
                self.i += len(q) + 1
                return ['atom', q, self.t[start:self.i]]
        raise ValueError('unknown atom at %r' % self.t[self.i:self.i + 40])

    def items(self, end, arr, one):
        sep = ',\\\\\n' if arr else ',\\ '
        out, more = [], -1
        if self.opt(end):
            return out, more
        while True:
            if self.opt(r'\text{...}'):
                g = re.compile(r'\((\d+)\)').match(self.t, self.i)
                more = int(g.group(1)) if g else -2
                self.i = g.end() if g else self.i
                self.eat(end)
                return out, more
            out.append(one())
            if self.opt(end):
                return out, more
            self.eat(sep)

    def item(self):
        if self.at('('):
            self.eat('(')
            o = self.obj()
            self.eat(')')
            return [True, o]
        return [False, self.obj()]

    def counted(self):
        o = self.obj()
        self.eat(r':\ ')
        g = re.compile(r'\d+').match(self.t, self.i)
        self.i = g.end()
        return [o, int(g.group())]


def atom_texts(o):
    out = set()
    for q in reachable(o).values():
        if isinstance(q, mo.Atom):
            t = repr(q.value)
            out |= {t, t[:lp.Config.short_atom_len] + '...'}
    return out


def ordered(o):
    """All objects within o, each once, in the library's order."""
    seen = {}
    for q in reachable(o).values():
        seen.setdefault(G.plain(q), q)
    return sorted(seen.values())


def parsed(text, o):
    return Tex(text, atom_texts(o)).all()


@contextlib.contextmanager
def config(colour, setlen, atomlen):
    old = lp.Config.colorize_output, lp.Config.short_set_len, lp.Config.short_atom_len
    lp.Config.colorize_output, lp.Config.short_set_len, lp.Config.short_atom_len = colour, setlen, atomlen
    try:
        yield
    finally:
        lp.Config.colorize_output, lp.Config.short_set_len, lp.Config.short_atom_len = old


def iprinted(name, o, short, by_value):
    """What iprint_latex shows in a notebook: the name as it is displayed and the tree of the value."""
    shown = []
    fake = types.ModuleType('IPython.display')
    fake.Math, fake.display = lambda t: ('math', t), shown.append
    old = {n: sys.modules.get(n) for n in ('IPython', 'IPython.display')}
    pkg = types.ModuleType('IPython')
    pkg.display = fake
    sys.modules.update({'IPython': pkg, 'IPython.display': fake})
    env = {'f': lp.iprint_latex, name: o}
    try:
        exec('def caller(%s):\n    f(%r%s%s)\n' % ('other, %s' % name if not by_value else 'other, %s_' % name, name,
                                                 ', other' if by_value else '', ', short=True' if short else ''), env)
        env['caller'](o, o if not by_value else None)
    finally:
        for n, q in old.items():
            if q is None:
                del sys.modules[n]
            else:
                sys.modules[n] = q
    (kind, t), = shown
    left, right = t.split(' = ', 1)
    return [left, parsed(right, o)]


# ------------------------------------------------------------------ text
TOKEN = re.compile(r"\s*(Couplet\(left=|Couplet\(|Set\(\{|Multiset\(\{|Atom\(|right=|left=|\}\)|->|[(){},])")


def text_tree(text, o, short):
    """What mo_to_str shows: nested ['Set', ...] / ['Multiset', ...] / ['cpl', l, r] / ['atom', text] ('{}' when abbreviated)."""
    names = sorted({repr(q.value) for q in reachable(o).values() if isinstance(q, mo.Atom)}, key=len, reverse=True)
    pos = [0]

    def ws():
        while pos[0] < len(text) and text[pos[0]] in ' \n':
            pos[0] += 1

    def opt(q):
        ws()
        if text.startswith(q, pos[0]):
            pos[0] += len(q)
            return True
        return False

    def eat(q):
        if not opt(q):
            raise ValueError('expected %r at %r' % (q, text[pos[0]:pos[0] + 30]))

    def name():
        ws()
        for q in names:
            if text.startswith(q, pos[0]):
                pos[0] += len(q)
                return ['atom', q]
        raise ValueError('unknown text at %r' % text[pos[0]:pos[0] + 40])

    def seq(tag, end):
        out = []
        while not opt(end):
            out.append(obj())
            opt(',')
        return [tag, out]

    def obj():
        ws()
        if not short:
            if opt('Atom('):
                q = name()
                eat(')')
                return q
            if opt('Couplet(left='):
                left = obj()
                eat(',')
                eat('right=')
                right = obj()
                eat(')')
                return ['cpl', left, right]
            if opt('Set({'):
                return seq('Set', '})')
            eat('Multiset({')
            return seq('Multiset', '})')
        if opt('{'):
            return seq('{}', '}')
        save = pos[0]
        try:
            return name()
        except ValueError:
            pos[0] = save
        eat('(')
        left = obj()
        eat('->')
        right = obj()
        eat(')')
        return ['cpl', left, right]
    r = obj()
    ws()
    if pos[0] != len(text):
        raise ValueError('left over: %r' % text[pos[0]:])
    return r


# ------------------------------------------------------------------ HTML
def field(raw):
    """The text a browser shows for raw, and whether raw is that text with its special characters escaped."""
    t = pyhtml.unescape(raw)
    return [t, raw == pyhtml.escape(t) or raw == pyhtml.escape(t, quote=False)]


PRE = '\\(\\require{color}\\)\\(\\require{xcolor}\\)'


def construct(raw, shown):
    """The part of a page that shows one construct."""
    def tex(q, o):
        t, ok = field(q)
        if not (t.startswith('$$') and t.endswith('$$') and len(t) >= 4):
            raise ValueError('not in math mode: %r' % t)
        return ['math', parsed(t[2:-2], o), ok]
    if isinstance(shown, mo.MathObject):
        return tex(raw, shown)
    if isinstance(shown, list):
        parts = re.split(r'<br\s*/*\s*>', raw)
        if parts and not parts[-1].strip():
            parts.pop()
        if len(parts) != len(shown):
            raise ValueError('%d lines for %d elements' % (len(parts), len(shown)))
        out = ['lines']
        for q, o in zip(parts, shown):
            q = q.strip()
            if isinstance(o, mo.MathObject):
                out.append(tex(q.replace(PRE, ''), o))
            else:
                out.append(['text'] + field(q))
        return out
    return ['text'] + field(raw)


CONSTRUCT_TEXTS = ['plain', 'a<b', '&', '<b>x</b>', '"', '', '$$x$$', 'two words', '\u00e9', '{x}', '{0}', '%s']


LONG = ['x', 'some words', 'a longer text of many words', 'x' * 60, 'abcdefghij' * 9, 'abcdefghij' * 12, 7, 123456789]


def page_parts(text, n, mode):
    if mode == 'custom':
        head, rest = text.split('\x03', 1)
        title = head.split('\x01')[1]
        items = rest.split('\x04')[:-1]
        foot = rest.split('\x04')[-1]
        if foot != 'FOOT{x}' or len(items) != n:
            raise ValueError('page of other parts')
        return title, [q.split('\x02') for q in items]
    title = re.search(r'<h1 id="page_title">(.*?)</h1>', text, re.S).group(1)
    items = re.findall(r'<h2 id="input_title">(.*?)</h2>\s*<div id="description_brief"><pre>(.*?)</pre></div>\s*'
                       r'<div id="data_algebra_construct">(.*?)</div>', text, re.S)
    if len(items) != n:
        raise ValueError('%d objects on a page for %d' % (len(items), n))
    return title, [list(q) for q in items]


def c23(x, rec=None):
    rec = rec or Recorder()
    rng, doc = x.rng, Doc(x)
    small = K.small_sets() + K.small_msets() + K.small_clans(2)[:80] + K.small_mclans()[:80] + [EMPTY, MEMPTY, s(EMPTY), m({MEMPTY: 2})]
    for i in range(x.n(9000)):
        if i % 30 == 0:
            pool = rng.choice(POOLS)
            g, b = Gen(random.Random(rng.random()), pool=pool, nested=rng.choice([0, .1, .3]), size=rng.choice([2, 4, 8])), Builder(rng)
        k = rng.random()
        if k < .15 and small:
            v = small.pop()
        elif k < .3:        # many elements of different kinds
            v = sv(rng.choice([g.comp, g.couplet, g.comp])() for _ in range(rng.randint(3, 9)))
        elif k < .45:
            v = m({rng.choice([g.comp, g.couplet, g.relation, g.mset] if rng.random() < .3 else [g.comp, g.couplet])(): g.mult()
                   for _ in range(rng.randint(1, 8))})
        else:
            v = rng.choice([g.any, g.any, g.clan, g.mclan, g.mset, g.set, g.tower, g.couplet, g.relation])()
        o = b(v)
        if rec.enc.size[rec.enc.enc(o)] > 70:
            continue
        short, colour = rng.random() < .6, rng.random() < .5
        sl, al = rng.choice([(4, 10), (4, 10), (1, 10), (2, 3), (6, 8), (3, 12)])
        # through the entry point or the function for the kind
        fn = lp.math_object_to_latex
        if rng.random() < .3:
            fn = {'a': lp.atom_to_latex, 'c': lp.couplet_to_latex, 's': lp.set_to_latex, 'm': lp.mset_to_latex}[v[0]]
        kw = {'short': short} if short or rng.random() < .5 else {}
        with config(colour, sl, al):
            rec.call('show.latex', lambda q: parsed(fn(q, **kw), q), (o,), shown=(o, short, colour, sl, al, ordered(o)))
        if i % 3 == 0:
            ab = rng.random() < .5
            if rng.random() < .5:
                kw = {'indent_text': rng.choice(['', ' ', '    ']), 'indent': rng.choice(['', '  '])}
            else:
                kw = {}
            def told(q):
                text = mp.mo_to_str(q, ab, max_line_len=10 ** 6, **kw)
                if rng.random() < .5:       # nothing is cut where every line fits
                    text = mp.mo_to_str(q, ab, max_line_len=max(map(len, text.split('\n'))), **kw)
                return text_tree(text, q, ab)
            rec.call('show.text', told, (o,), shown=(o, ab))
        if i % 6 == 1:
            ab, most = rng.random() < .5, rng.choice([5, 10, 20, 25, 30, 40, 95])
            q = b(c(g.comp() if rng.random() < .3 else a(rng.choice(pool)), a(rng.choice(LONG))))
            left, right = q.left, q.right
            if left.is_atom:
                kw = {'indent': rng.choice(['', '  ', '       '])} if rng.random() < .5 else {}
                if most != 95 or rng.random() < .5:
                    kw['max_line_len'] = most
                rec.call('show.line', lambda z: mp.mo_to_str(z, ab, **kw), (q,),
                         shown=(kw.get('indent', ''), str(left) if ab else repr(left), str(right) if ab else repr(right), ab, most))
        if i % 5 == 0:
            with config(colour, 4, 10):
                _page(rec, rng, g, b, o, colour)
        if i % 6 == 0:
            t = xml_tree(rng, rng.randint(1, 4), rng.choice(XML_TEXTS[:7]))
            text = xml_text(t, rng)
            ind = rng.choice(['   ', ' ', '\t'])
            rec.call('xml.import', lambda q: axxml.import_xml(io.StringIO(axxml.xml_to_str(
                doc.give(text, 'xml'), indent_text=ind, truncate=False))), (0,), shown=(xml_shown(t), False))
            rec.call('xml.import', lambda q: axxml.import_xml(io.StringIO(axxml.xml_to_str(
                doc.give(text, 'xml'), max_line_len=100000))), (0,), shown=(xml_shown(t), False))
        if i % 7 == 0:
            name = rng.choice(['x', 'my_var', '_', 'a_b_c', 'result', '__q', 'x1_'])
            by_value = rng.random() < .5
            with config(colour, sl, al):
                rec.call('show.iprint', lambda q: iprinted(name, q, short, by_value), (o,),
                         shown=(name, o, short, colour, sl, al, ordered(o)))
        if i % 4 == 0:
            t = ''.join(rng.choice('abcxyz ') for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13])))
            n1, n2 = rng.choice([0, 1, 2, 3, 4, 6, 10]), rng.choice([0, 1, 2, 3, 4, 6, 10])
            rec.call('show.core', misc.core, (t, n1, n2))
    with config(False, 4, 10):
        rec.call('show.latex', lambda q: parsed(lp.math_object_to_latex(q), mo.Atom(1)), (U,), shown=(U, False, False, 4, 10, []))
    return rec


def _page(rec, rng, g, b, o, colour):
    items = []

    def label():                # a text, or anything that has one
        k = rng.random()
        return rng.choice(CONSTRUCT_TEXTS) if k < .7 else b(g.any()) if k < .85 else rng.choice([0, False, 0.0, 7, None, (), mo.Set()])
    for _ in range(rng.randint(0, 3)):
        k = rng.random()
        con = b(g.any()) if k < .5 else [b(g.any()) if rng.random() < .6 else rng.choice(CONSTRUCT_TEXTS)
                                         for _ in range(rng.randint(0, 4))] if k < .75 else rng.choice(CONSTRUCT_TEXTS)
        if isinstance(con, list) and con and rng.random() < .3:
            con.append(rng.choice(con))
        items.append((label(), con, label()))
    title = label()

    def shown_con(q):
        if isinstance(q, mo.MathObject):
            return ['mo', q, ordered(q)]
        if isinstance(q, list):
            return ['many', [shown_con(p) for p in q]]
        return ['text', q]
    mode = rng.choice(['default', 'default', 'custom'])
    kw = {}
    if mode == 'custom':
        kw = {'header_template': '\x01{page_title}\x01\x03', 'footer_template': 'FOOT{x}',
              'mathobject_template': '{input_title}\x02{description_brief}\x02{data_algebra_construct}\x04'}
    form = rng.choice([list, tuple, iter])

    def page(_):
        ds = [axhtml.DataAlgebraHtmlDescriptor(n, form(con) if isinstance(con, list) else con, d) for n, con, d in items]
        text = axhtml.math_object_as_html(title, ds, **kw)
        t, parts = page_parts(text, len(items), mode)
        return [field(t), [[field(p[0]), field(p[1] if mode == 'default' else p[1]), construct(p[2], con)]
                           for p, (_, con, _d) in zip(parts, items)]]
    rec.call('show.page', page, (0,), shown=(colour, str(title), [[str(n), str(d), shown_con(con)] for n, con, d in items]))
    if rng.random() < .3:
        def simple(q):
            with contextlib.redirect_stdout(io.StringIO()) as f:
                text = axhtml.create_simple_web_page(q)
            if f.getvalue().rstrip('\n') != text.rstrip('\n'):
                raise ValueError('prints another page')
            tex = re.search(r'<div id="latexArea">\$\$\\\(\\require\{color\}\\\)(.*?)\$\$</div>', text, re.S).group(1)
            raw = re.search(r'<div id="dataAlgebraArea">(.*?)</div>', text, re.S).group(1)
            t, ok = field(tex)
            u, ok2 = field(raw)
            return [parsed(t, q), ok, u == str(q), ok2]
        rec.call('show.simple', simple, (o,), shown=(o, colour, ordered(o)))
    if rng.random() < .3:
        os_ = [b(g.any()) for _ in range(rng.randint(0, 3))]
        rec.call('show.descriptors', lambda *q: [[d.input_title == str(p), d.data_algebra_construct]
                                                 for d, p in zip(axhtml.build_descriptors_from_math_obj(list(q)), q)],
                 tuple(os_), shown=(os_,))
