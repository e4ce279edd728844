"""Observation of library objects as specification values.

Nothing here relies on the library's own equality, hashing or printing: values are interned
structurally, atoms by the type and value of what they hold, so an object is always described by
what it contains, even when the library would compare it wrongly.
"""
import json

import algebraixlib.mathobjects as mo
import algebraixlib.structure as st
import algebraixlib.undef as ud

U = ud.Undef()
FLAGS = ('relation', 'clan', 'multiclan', 'absolute', 'functional', 'right_functional', 'reflexive',
         'symmetric', 'transitive', 'regular', 'right_regular')


class Enc:
    def __init__(self):
        self._ids = {}
        self.js = []        # id -> JSON text
        self.size = []      # id -> number of nodes
        self.kind = []
        self._atoms = {}
        self._labels = {}
        self._atom_plain = {}

    def _intern(self, key, text, size, kind):
        i = self._ids.get(key)
        if i is None:
            i = self._ids[key] = len(self.js)
            self.js.append(text() if callable(text) else text)
            self.size.append(size)
            self.kind.append(kind)
        return i

    def atom_label(self, value):
        t = type(value)
        try:
            k = (t, value, _tuple_types(value))
            lab = self._atoms.get(k)
        except TypeError:
            k, lab = None, None
        if lab is None:
            name = t.__name__ if t.__module__ in ('builtins', '__builtin__') else \
                t.__module__ + '.' + t.__name__
            lab = name + ':' + repr(value)
            if k is not None:
                if self._labels.setdefault(lab, k) != k:
                    lab = '%s#%d' % (lab, len(self._atoms))
                self._atoms[k] = lab
        return lab

    def text(self, t):
        return self._intern(('t', t), lambda: json.dumps(['t', t]), 1, 't')

    def exc(self, e):
        n = e if isinstance(e, str) else type(e).__name__
        return self._intern(('x', n), lambda: json.dumps(['x', n]), 1, 'x')

    def enc(self, o):
        try:
            return self._enc(o)
        except RecursionError:      # contains itself: no mathematical value
            return self._intern('cyclic', '["t","object that contains itself"]', 1, 't')

    def _enc(self, o):
        js = self.js
        if isinstance(o, mo.Atom):
            lab = self.atom_label(o.value)
            return self._intern(('a', lab), lambda: json.dumps(['a', lab]), 1, 'a')
        if isinstance(o, mo.Couplet):
            l, r = self._enc(o.left), self._enc(o.right)
            return self._intern(('c', l, r), lambda: '["c",%s,%s]' % (js[l], js[r]),
                                1 + self.size[l] + self.size[r], 'c')
        if isinstance(o, mo.Set):
            es = sorted(self._enc(e) for e in o.data)
            if len(set(es)) != len(es):
                return self._intern(('bad', 's', tuple(es)), '["t","set with equal elements"]', 1, 't')
            return self._intern(('s', tuple(es)), lambda: '["s",[%s]]' % ','.join(js[e] for e in es),
                                1 + sum(self.size[e] for e in es), 's')
        if isinstance(o, mo.Multiset):
            es = sorted((self._enc(e), n) for e, n in o.data.items())
            if len(set(e for e, _ in es)) != len(es):
                return self._intern(('bad', 'm', tuple(es)), '["t","multiset with equal keys"]', 1, 't')
            if not all(type(n) is int and -2**31 < n < 2**31 for _, n in es):
                return self._intern(('bad', 'm', repr(es)),
                                    json.dumps(['t', 'multiset with odd multiplicities']), 1, 't')
            return self._intern(('m', tuple(es)), lambda: '["m",[%s]]' % ','.join(
                '[%s,%d]' % (js[e], n) for e, n in es), 1 + sum(self.size[e] for e, _ in es), 'm')
        if o is U:
            return self._intern('u', '["u",0]', 1, 'u')
        if o is None:
            return self.text('<None>')
        if isinstance(o, bool):
            return self._intern(('b', o), '["b",%s]' % ('true' if o else 'false'), 1, 'b')
        if type(o) is int and -2**31 < o < 2**31:
            return self._intern(('n', o), '["n",%d]' % o, 1, 'n')
        if isinstance(o, str):
            return self.text(o)
        if isinstance(o, (list, tuple)):
            es = tuple(self._enc(e) for e in o)
            return self._intern(('l', es), lambda: '["l",[%s]]' % ','.join(js[e] for e in es),
                                1 + sum(self.size[e] for e in es), 'l')
        if isinstance(o, st.Structure):
            return self.struct(o)
        if isinstance(o, Table):
            return o.enc(self)
        if isinstance(o, OpName):
            return self._intern(('o', o.name), lambda: json.dumps(['o', o.name]), 1, 'o')
        return self.text('<%s: %r>' % (type(o).__name__, o))

    def struct(self, s):
        t = json.dumps(struct_json(s))
        return self._intern(('S', t), t, 1, 'S')


def _tuple_types(v):
    """Distinguish (1,) from (True,) and (1.0,)."""
    if isinstance(v, (tuple, list)):
        return tuple((type(e).__name__, _tuple_types(e)) for e in v)
    if isinstance(v, frozenset):
        return tuple(sorted((type(e).__name__, repr(e)) for e in v))
    return None


def struct_json(s):
    t = type(s)
    if t is st.GenesisSetA:
        return ['g', 'A']
    if t is st.GenesisSetM:
        return ['g', 'M']
    if t is st.GenesisSetN:
        return ['g', 'N']
    if t is st.CartesianProduct:
        return ['cp', struct_json(s.left), struct_json(s.right)]
    if t is st.PowerSet:
        return ['p', struct_json(s.base_set)]
    if t is st.Union:
        ms = sorted((struct_json(e) for e in s.data), key=repr)
        return ms[0] if len(ms) == 1 else ['un', ms]
    return ['e']


class OpName:
    """A named library operation used as an argument; the specification knows its meaning."""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, *args):
        return self.fn(*args)


class Table:
    """A callable with finitely many relevant arguments, shown to the specification as a table."""
    def __init__(self, fn):
        self.fn, self.rows = fn, {}

    def __call__(self, *args):
        return self.fn(*args)

    def cover(self, enc, argtuples):
        for args in argtuples:
            self.rows[tuple(enc.enc(a) for a in args)] = enc.enc(self.fn(*args))
        return self

    def enc(self, enc):
        rows = sorted(self.rows.items())
        js = enc.js
        return enc._intern(('f', tuple(rows)), lambda: '["f",[%s]]' % ','.join(
            '[%s]' % ','.join([js[x] for x in k] + [js[v]]) for k, v in rows), 1 + len(rows), 'f')


def flags(o):
    return tuple(getattr(o, 'cached_' + f) for f in FLAGS)


def children(o):
    if isinstance(o, mo.Couplet):
        return (o.left, o.right)
    if isinstance(o, mo.Set):
        return tuple(o.data)
    if isinstance(o, mo.Multiset):
        return tuple(o.data.keys())
    return ()


def reachable(o, acc=None):
    """All objects inside o (o included), each Python object once."""
    acc = {} if acc is None else acc
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, mo.MathObject):
            if id(x) not in acc:
                acc[id(x)] = x
                stack.extend(children(x))
        elif isinstance(x, (list, tuple)):
            stack.extend(x)
    return acc
