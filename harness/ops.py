"""The public operations of the library, with the kinds of their arguments."""
import copy
import pickle

from .gen import ALGEBRAS, PROPS
import algebraixlib.algebras.clans as clans
import algebraixlib.algebras.couplets as couplets
import algebraixlib.algebras.multiclans as multiclans
import algebraixlib.algebras.multisets as multisets
import algebraixlib.algebras.properties as properties
import algebraixlib.algebras.relations as relations
import algebraixlib.algebras.sets as sets
import algebraixlib.extension as extension
import algebraixlib.undef as ud


class Op:
    def __init__(self, name, kinds, checked=True, fn=None, shown=None):
        mod, fname = name.split('.')
        self.name, self.kinds, self.has_checked = name, tuple(kinds.split()), checked
        self.fn = fn or getattr(MODULES[mod], fname)

    def __repr__(self):
        return self.name


MODULES = dict(ALGEBRAS, properties=properties, extension=extension)


def _mk(mod, spec, checked=True):
    out = []
    for line in spec.strip().splitlines():
        names, kinds = line.split(':')
        for n in names.split():
            out.append(Op('%s.%s' % (mod, n), kinds, checked))
    return out


COUPLETS = _mk('couplets', '''
transpose is_reflexive : cpl
compose : cpl cpl''')
RELATIONS = _mk('relations', '''
transpose get_lefts get_rights : rel
is_functional is_right_functional is_reflexive is_symmetric is_transitive : rel
compose functional_union right_functional_union fill_lefts rename swap : rel rel
get_rights_for_left get_right get_left defined_at : rel key''') + _mk('relations', '''
functional_add : func cpl''', False)
SETS = _mk('sets', '''
union intersect minus substrict superstrict is_subset_of is_superset_of : set set
multify : set
big_union big_intersect : sos''') + _mk('sets', '''
single some power_set power_up : set''', False)
CLANS = _mk('clans', '''
transpose get_lefts get_rights : clan
is_functional is_right_functional is_reflexive is_symmetric is_transitive is_regular is_right_regular : clan
compose cross_union cross_functional_union lhs_cross_functional_union cross_right_functional_union cross_intersect substrict superstrict : clan clan
defined_at : clan key''')
MULTISETS = _mk('multisets', '''
union intersect minus add substrict superstrict is_subset_of is_superset_of : mset mset
demultify : mset
big_union big_intersect : som''') + _mk('multisets', '''
single some : mset''', False)
MULTICLANS = _mk('multiclans', '''
transpose get_lefts get_rights : mclan
is_functional is_right_functional is_reflexive is_symmetric is_transitive is_regular is_right_regular : mclan
compose cross_union cross_functional_union cross_right_functional_union cross_intersect substrict superstrict : mclan mclan
get_rights_for_left defined_at : mclan key''')
PROPERTIES = _mk('properties', ' '.join(PROPS) + ' : mo')
MEMBERSHIP = [op for alg in ALGEBRAS for op in _mk(alg, 'is_member is_absolute_member is_member_or_undef : mo', False)]
LOOKUPS = [Op('mo.get_left_set', 'mo', False, fn=lambda o: o.get_left_set()),
           Op('mo.get_right_set', 'mo', False, fn=lambda o: o.get_right_set()),
           Op('mo.call', 'mo key', False, fn=lambda o, k: o(k)),
           Op('mo.getitem', 'mo key', False, fn=lambda o, k: o[k])]
PROTOCOL = [Op('mo.eq', 'mo mo', False, fn=lambda a, b: a == b),
            Op('mo.ne', 'mo mo', False, fn=lambda a, b: a != b),
            Op('mo.is_empty', 'mo', False, fn=lambda o: o.is_empty),
            Op('mo.kinds', 'mo', False, fn=lambda o: [o.is_atom, o.is_couplet, o.is_set, o.is_multiset]),
            Op('mo.len', 'coll', False, fn=len),
            Op('mo.cardinality', 'coll', False, fn=lambda o: o.cardinality),
            Op('mo.has_element', 'coll mo', False, fn=lambda o, e: o.has_element(e)),
            Op('mo.contains', 'coll mo', False, fn=lambda o, e: e in o),
            Op('mo.multiplicity', 'mset mo', False, fn=lambda o, e: o.get_multiplicity(e)),
            Op('mo.iter', 'coll', False, fn=lambda o: list(o)),
            Op('mo.left', 'cpl', False, fn=lambda o: o.left),
            Op('mo.right', 'cpl', False, fn=lambda o: o.right)]
COPIES = [Op('mo.copy', 'mo', False, fn=copy.deepcopy), Op('mo.copy', 'mo', False, fn=copy.copy),
          Op('mo.copy', 'mo', False, fn=lambda o: pickle.loads(pickle.dumps(o)))]

# operations with a variable number of arguments: the specification sees one list
VARIADIC = {
    'relations.diag': lambda keys: (relations.diag, tuple(keys), (list(keys),)),
    'clans.diag': lambda keys: (clans.diag, tuple(keys), (list(keys),)),
    'multiclans.diag': lambda keys: (multiclans.diag, tuple(keys), (list(keys),)),
}
ALL = COUPLETS + RELATIONS + SETS + CLANS + MULTISETS + MULTICLANS + PROPERTIES + MEMBERSHIP + LOOKUPS
BY_NAME = {op.name: op for op in ALL}
U = ud.Undef()
