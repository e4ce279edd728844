#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review and edit)."""
import json, os
A = 'algebraixlib/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': [A + f for f in files],
                    'mechanism': [{'name': n, 'where': A + w} for n, w in mech],
                    'state': [{'name': n, 'meaning': m, 'where': A + w} for n, m, w in state],
                    'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Remembered property flags are always true of the object that carries them',
     'Whenever any object reachable by a caller remembers an answer about itself (is it a relation, clan, multiclan, '
     'absolute, functional, right-functional, reflexive, symmetric, transitive, regular, right-regular: yes, no or not '
     'applicable), that answer equals the one obtained from the definition applied to the object\'s value. '
     'This holds after any sequence of constructors, algebra operations, imports and queries, for results, for operands and '
     'for objects nested inside them.',
     ['histories', 'inputs'],
     'every finite sequence of public constructor/operation/query calls, every operand value and every combination of what '
     'the operands already remember when an operation starts',
     'Flags are set by hand-written inference rules in each operation and only show up later, in another call; the tests '
     'compare a few flags of a few fixed examples whose operands usually have nothing (or everything) cached.',
     ['mathobjects/mathobject.py', 'mathobjects/_flags.py', 'algebras/sets.py', 'algebras/relations.py',
      'algebras/clans.py', 'algebras/multisets.py', 'algebras/multiclans.py', 'algebras/couplets.py',
      'algebras/properties.py', 'partition.py', 'import_export/csv.py'],
     [('flag inference after each operation', 'algebras/*.py: if not result.is_empty: result.cache_*(...)'),
      ('flag implications', 'mathobjects/mathobject.py: cache_relation, cache_clan, cache_regular, cache_right_regular'),
      ('initial flags', 'mathobjects/{atom,couplet,set,multiset}.py: _init_cache*')],
     [('_flags', 'write-once two-bit answers per property', 'mathobjects/_flags.py')],
     ['MathObject.cached_* properties of every reachable object'])

prop('C02', 'Membership and property queries answer by definition, whatever came before',
     'Every membership query (couplet, set, relation, clan, multiset, multiclan and their absolute variants) and every '
     'property query (functional, right-functional, bijective, reflexive, symmetric, transitive, equivalence, regular, '
     'right-regular) returns exactly what the documented definition says about the value of its argument, or undefined '
     'where the property does not apply to that kind of value. '
     'Asking twice, asking other questions first, or having built the same value along a different path never changes the answer.',
     ['inputs', 'histories'],
     'all values (atoms, couplets, sets, relations, clans, multisets, multiclans, higher power sets, mixed and empty ones) '
     'and all prior query/operation histories',
     'The tests query a few dozen basic values in one order; wrong answers need unusual values (empty relation inside a '
     'clan, power set of clans, mixed sets) or a particular earlier query.',
     ['algebras/properties.py', 'algebras/relations.py', 'algebras/clans.py', 'algebras/multiclans.py',
      'algebras/sets.py', 'algebras/multisets.py', 'algebras/couplets.py'],
     [('kind dispatch', 'algebras/properties.py: is_*'), ('membership', 'algebras/*.py: is_member, is_absolute_member'),
      ('definitions', 'algebras/{relations,clans,multiclans}.py: is_functional .. is_right_regular')])

prop('C03', 'The algebra of sets computes what set theory says',
     'For all sets, union, intersection, difference, substriction, superstriction, subset and superset tests, big union, '
     'big intersection, power set, power-up, restriction, multify, single, some and chained binary operations return '
     'exactly the value given by their documented set-theoretic definition, or undefined exactly where the definition says so.',
     ['inputs', 'histories'],
     'all pairs of sets of any content (atoms of all types, nested sets, relations, clans, the empty set), whatever they remember',
     'Tests fix a few small sets; shortcuts that depend on emptiness, containment, size or remembered flags are not exercised in combination.',
     ['algebras/sets.py', 'mathobjects/set.py'],
     [('set algebra', 'algebras/sets.py: Algebra'), ('helpers', 'algebras/sets.py: big_union .. chain_binary_operation')])

prop('C04', 'Couplet and relation algebra compute what their definitions say',
     'For all couplets and relations, transposition, composition, functional union, right-functional union, left and right '
     'sets, lookups of rights and lefts, renaming, swapping, filling of lefts, functional addition, construction of '
     'relations from mappings, diagonals and definedness tests return exactly the documented result, or undefined exactly where documented.',
     ['inputs', 'histories'],
     'all couplets, all relations (functional or not, overlapping or not, nested components) and all operand flag states',
     'Composition-like operations have interesting cases only for particular overlaps between left and right components; the tests fix a few.',
     ['algebras/couplets.py', 'algebras/relations.py', 'extension.py'],
     [('couplet algebra', 'algebras/couplets.py: Algebra'), ('relation algebra', 'algebras/relations.py: Algebra and functions'),
      ('lifting', 'extension.py: unary_extend, binary_extend')])

prop('C05', 'The algebra of clans (tables) computes what its definitions say',
     'For all clans and relations, every clan operation (transposition, composition, the cross-union and cross-intersection '
     'families with their functional and right-functional variants, restriction operators, projection, rename/swap style '
     'compositions, lefts and rights, lookups, diagonals, construction from sets and dictionaries, definedness) returns '
     'exactly the clan the documented definition gives, or undefined exactly where documented.',
     ['inputs', 'histories'],
     'all pairs of clans (empty, containing the empty relation, non-functional, irregular, overlapping) and all operand flag states',
     'The tests use a handful of clans; joins go wrong only for specific patterns of agreement/conflict between rows or specific remembered flags.',
     ['algebras/clans.py', 'extension.py'],
     [('clan algebra', 'algebras/clans.py: Algebra'), ('clan functions', 'algebras/clans.py: get_lefts .. diag'),
      ('lifting', 'extension.py')])

prop('C06', 'Multiset algebra preserves exact multiplicities',
     'For all multisets, union, intersection, addition, difference, substriction, superstriction, sub/superset tests, '
     'demultify, big union, big intersection, single and some give every element exactly the multiplicity documented '
     '(maximum, minimum, sum, truncated difference, ...), with no element of multiplicity zero or below, or undefined exactly where documented.',
     ['inputs', 'histories'],
     'all pairs of multisets and all multiplicities, whatever they remember',
     'Multiplicity errors appear only for particular combinations of counts; the tests compare a few fixed multisets.',
     ['algebras/multisets.py', 'mathobjects/multiset.py'],
     [('multiset algebra', 'algebras/multisets.py: Algebra'), ('counter representation', 'mathobjects/multiset.py')])

prop('C07', 'Multiclan algebra computes the right rows with the right multiplicities',
     'For all multiclans, transposition, composition, cross-union, cross-intersection, their functional variants, '
     'restriction operators, projection, lefts and rights, lookups, construction, diagonals, definedness and ordering-free '
     'helpers return exactly the rows of the corresponding clan operation, each with the documented multiplicity '
     '(products for pairwise operations summed over all producing pairs; the first operand\'s multiplicity for restrictions).',
     ['inputs', 'histories'],
     'all pairs of multiclans, all multiplicities, all operand flag states',
     'Rows and multiplicities are tested on a few examples with small counts; product-versus-sum or lost-duplicate errors need specific collisions.',
     ['algebras/multiclans.py', 'extension.py'],
     [('multiclan algebra', 'algebras/multiclans.py: Algebra'), ('lifting', 'extension.py: binary_multi_extend, unary_multi_extend')])

prop('C08', 'Undefined results propagate, and raise exactly at the configured level',
     'An operation applied to an argument that is undefined or of the wrong kind yields the single undefined value, never '
     'a made-up result, and with the raise-on-undefined level set to L it raises the dedicated exception exactly when '
     'that undefined result has a severity of at most L (1: wrong kind of argument, 2: undefined input or no result), '
     'otherwise returning undefined. '
     'Setting and resetting the level affects only later calls, and the undefined value stays unique (also when copied or pickled) and refuses comparison and '
     'truth testing. '
     'A defined result never depends on the level, except that operations lifted over a collection may raise for an undefined partial result.',
     ['inputs', 'configurations', 'histories'],
     'all public operations of the algebras and their helper functions (for lookups by call and index, whether an undefined result raises is left open), all argument positions and kinds (including undefined), all raise levels and any sequence of level changes',
     'Tests exercise undefined arguments at levels 0 and 1/2 for a subset of operations with fixed arguments.',
     ['undef.py', 'algebras/sets.py', 'algebras/relations.py', 'algebras/clans.py', 'algebras/multisets.py',
      'algebras/multiclans.py', 'algebras/couplets.py', 'extension.py', 'mathobjects/couplet.py', 'mathobjects/set.py'],
     [('undefined value and levels', 'undef.py: Undef, RaiseOnUndef, make_or_raise_undef, make_or_raise_undef2')],
     [('RaiseOnUndef._level', 'current severity threshold', 'undef.py')])

prop('C09', 'Equality, hashing, ordering and printed form agree with mathematical identity',
     'Two objects compare equal exactly when they denote the same mathematical value (atoms by type and value, couplets, '
     'sets and multisets by components and multiplicities), equal objects have equal hashes and identical printed forms, and '
     'evaluating the printed form of an object gives back an equal object. '
     'Ordering is a strict total order consistent with equality on all objects whose atoms hold totally ordered values, '
     'so printed forms do not depend on construction order.',
     ['inputs', 'histories'],
     'all values, nested to any depth, with atoms of all basic types (of values that Python holds equal and of one type but prints differently, like 0.0 and -0.0, only equality and hash), built in any order and along any path',
     'Tests compare fixed lists of basic objects; transitivity of the order, hash/eq agreement and construction-order independence quantify over pairs and triples of values.',
     ['mathobjects/atom.py', 'mathobjects/couplet.py', 'mathobjects/set.py', 'mathobjects/multiset.py',
      'mathobjects/mathobject.py', 'util/miscellaneous.py'],
     [('comparison and hashing', 'mathobjects/*.py: __eq__, __ne__, __lt__, __hash__, __repr__'),
      ('hash combination', 'util/miscellaneous.py: get_hash')])

prop('C10', 'Mathematical objects are immutable and operations have no side effects on values',
     'No public operation, query, lookup, comparison, import/export or printing call changes the mathematical value, hash or '
     'printed form of any existing object, and no remembered answer is ever overwritten by a different one. '
     'Calling the same operation again on the same operands gives an equal result.',
     ['histories', 'inputs'],
     'all sequences of public calls over a growing pool of shared objects',
     'The tests build fresh operands for each call, so aliasing between results and operands, or mutation of shared elements, stays invisible.',
     ['mathobjects/set.py', 'mathobjects/multiset.py', 'mathobjects/couplet.py', 'mathobjects/atom.py',
      'algebras/multisets.py', 'algebras/multiclans.py', 'partition.py'],
     [('frozen representation', 'mathobjects/set.py: Set._data'), ('counter copies', 'mathobjects/multiset.py: Multiset.__init__'),
      ('write-once flags', 'mathobjects/_flags.py: _setter_helper')])

prop('C11', 'Ground sets describe values exactly and form a consistent lattice',
     'The ground set reported for an object is the smallest structure built from atoms, naturals, products, power sets and '
     'unions that contains the object, so an object is reported to lie in a structure exactly when it does. '
     'Structure inclusion is a partial order that follows the shape of the structures and implies containment of the denoted families, equality of structures '
     'agrees with mutual inclusion and with hashing, unions do not depend on the order of their arguments, and the '
     'power-set level of a structure is the number of power sets that separate it from the base.',
     ['inputs'],
     'all structures of any nesting (atoms, naturals, everything, products, power sets, unions, empty structure) and all objects',
     'Tests enumerate fixed triples of structures; order-dependence of unions and non-transitivity need specific combinations.',
     ['structure.py', 'mathobjects/set.py', 'mathobjects/multiset.py', 'mathobjects/couplet.py', 'mathobjects/atom.py'],
     [('structure lattice', 'structure.py: is_subset, is_same, Union._add_element, get_powerset_level'),
      ('ground sets', 'mathobjects/*.py: get_ground_set')])

prop('C12', 'Partitioning splits a collection into exactly its equivalence classes',
     'Partitioning a set or multiset by a classifying function yields disjoint non-empty parts whose union is the input with '
     'multiplicities preserved, in which two elements share a part exactly when the function gives them equal classes. '
     'The labelled form pairs every class value with its part.',
     ['inputs'],
     'all sets and multisets and all classifying functions, including ones that return plain values, mathematical objects, or values equal but of different type',
     'Tests use three small inputs with simple classifiers.',
     ['partition.py'],
     [('grouping', 'partition.py: _create_partition_dict_from_set, _create_partition_dict_from_multiset'),
      ('assembly', 'partition.py: partition, make_labeled_partition')])

prop('C13', 'Ordered slices of multiclans return the right rows in the right order',
     'Ordering a multiclan yields every row as often as it occurs, in an order that never puts a row after one it is ranked '
     'before; the offset/limit variants yield exactly the rows at the requested positions of such an ordered listing, '
     'with correct multiplicities, for every offset and limit including those that split a repeated row or exceed the length.',
     ['inputs'],
     'all multiclans, all ranking functions that are weak orders (with ties, also between different rows), all offsets and limits >= 0, absent or undefined',
     'Tests check a few offset/limit pairs on one multiclan.',
     ['algebras/multiclans.py'],
     [('ordering and slicing', 'algebras/multiclans.py: order_slice_to_multiclan, order_slice_to_listgen, order_to_list*, _to_listgen*')])

prop('C14', 'The object JSON format round-trips every supported object',
     'Exporting a mathematical object to the object JSON format and importing the text gives back an equal object, with '
     'atom types preserved, for every object whose atoms hold supported values at any nesting depth; unsupported values are '
     'rejected rather than silently changed (known exception: instances of subclasses of supported types).',
     ['inputs'],
     'all nested objects over the supported atom types (text, integers, floats, booleans, bytes, dates, decimals, tuples, ...)',
     'The round-trip test covers a fixed list of objects.',
     ['import_export/mojson.py'],
     [('encoding and decoding', 'import_export/mojson.py')])

prop('C15', 'CSV import and export carry tables without loss or invention',
     'Importing CSV text yields exactly one relation per data row (with multiplicity when duplicates are allowed) mapping '
     'each header to the converted cell, dropping empty cells and honouring skip-rows, index-column, column-selection and type options; '
     'exporting a table of text atoms and importing the result gives back the same table.',
     ['inputs', 'configurations'],
     'all tables (rows up to the length of the header, with duplicates, special characters, empty cells) and all combinations of the import and export options',
     'Tests import a few fixed files.',
     ['import_export/csv.py', 'import_export/_util.py'],
     [('CSV import', 'import_export/csv.py: import_csv'), ('CSV export', 'import_export/csv.py: export_csv')])

prop('C16', 'JSON and XML imports represent the document faithfully',
     'Importing a JSON document yields the nested relation whose left components are the document\'s keys and whose right '
     'components are the recursively imported values, every scalar kept with type and every list item present; importing '
     'an XML document yields the nested relation of its elements, attributes and text, with numbers converted only when requested.',
     ['inputs', 'configurations'],
     'all documents of the supported shape (JSON without null, XML without comments and CDATA sections), of any depth and repetition, and the conversion options',
     'Tests import a few fixed documents.',
     ['import_export/json.py', 'import_export/xml.py', 'import_export/_util.py'],
     [('JSON import', 'import_export/json.py: import_json'), ('XML import', 'import_export/xml.py')])

prop('C17', 'Graph pattern matching and joins return exactly the solutions',
     'Matching a pattern against a graph returns exactly the set of variable bindings under which the pattern is in '
     'the graph, joining solution sets returns exactly the compatible combinations, and projection variants return the same '
     'solutions restricted to the requested variables, independent of argument order where the operation is commutative.',
     ['inputs'],
     'all graphs, patterns with any mix of fixed and (pairwise distinct) variable positions, and joins of any number of solution sets',
     'Tests use one small graph and a few patterns.',
     ['util/rdf.py', 'algebras/clans.py'],
     [('matching', 'util/rdf.py: triple_match, match_and_project, pattern_match'), ('joining', 'util/rdf.py: join')])

prop('C18', 'RDF import and result-table export preserve every triple and binding',
     'Importing RDF text yields exactly one subject/predicate/object relation per triple of the document, with terms mapped '
     'to documented atom types (and blank nodes to identifiers when importing as documented); exporting a table as a '
     'SPARQL-style JSON or CSV result lists exactly the requested columns and every row\'s bindings in valid, re-readable syntax.',
     ['inputs', 'configurations'],
     'all documents in the supported syntaxes and all tables, with missing columns, special characters and empty results',
     'Tests import three documents and export none with special characters.',
     ['import_export/rdf.py', 'util/rdf.py'],
     [('graph import', 'import_export/rdf.py: import_graph'), ('result export', 'import_export/rdf.py: export_table')])

prop('C19', 'Indexing and calling objects look up values consistently with the algebra',
     'Calling a relation returns the unique right component for a left component when the relation is a function and is '
     'undefined otherwise; indexing a relation, clan or multiset returns the (multi)set of right components for that left component, '
     'identical to the named lookup operations, and is undefined for other values. '
     'Repeating a lookup, interleaving lookups with queries, or looking up plain versus wrapped keys never changes the answer.',
     ['inputs', 'histories'],
     'all objects of any kind, all keys (present, absent, plain or wrapped, undefined), all interleavings with other calls',
     'Lookups replace themselves after first use, so later calls take another path; tests mostly look up once.',
     ['mathobjects/set.py', 'mathobjects/multiset.py', 'mathobjects/mathobject.py'],
     [('self-replacing lookup', 'mathobjects/set.py: _call, _getitem'), ('multiset lookup', 'mathobjects/multiset.py: _getitem*')],
     [('_getitem_redirect/_call_redirect', 'per-object cached lookup strategy', 'mathobjects/{set,multiset}.py')])

prop('C20', 'Lifting operators and trusted-argument variants agree with their definitions',
     'Lifting a unary or binary operation to sets or multisets applies it to every element or pair, keeps exactly the defined '
     'results, and accumulates multiplicities (summed for unary, products summed for binary). '
     'For well-typed arguments the variant of every operation that skips argument checks returns the same result as the checking variant.',
     ['inputs', 'histories'],
     'all partial operations, all operand sets and multisets, and all operations that offer both variants',
     'Tests pass one or two operations; the unchecked variants are rarely compared with the checked ones.',
     ['extension.py', 'algebras/sets.py', 'algebras/relations.py', 'algebras/clans.py', 'algebras/multisets.py', 'algebras/multiclans.py'],
     [('lifting', 'extension.py'), ('argument checks', 'algebras/*.py: _checked')])

prop('C21', 'Constructors and container protocol represent exactly the given elements',
     'Constructing atoms, couplets, sets and multisets from plain values, mathematical objects, iterables, mappings or '
     'argument lists yields exactly the given elements (plain values wrapped once, duplicates merged in sets and counted in '
     'multisets); length, iteration, membership, multiplicity, cardinality, emptiness and component access all describe that same value, '
     'and forbidden inputs are rejected.',
     ['inputs'],
     'all combinations of argument shapes and element kinds for each constructor',
     'The tests check the shapes the authors thought of with a few element types.',
     ['mathobjects/atom.py', 'mathobjects/couplet.py', 'mathobjects/set.py', 'mathobjects/multiset.py'],
     [('constructors', 'mathobjects/*.py: __new__, __init__'), ('protocol', 'mathobjects/*.py: __len__, __iter__, __contains__')])

prop('C22', 'Copying and pickling preserve identity of value',
     'Deep copies, shallow copies and pickled-then-restored objects equal the original, hash like any freshly built equal object in the '
     'process that uses them, are found in collections that hold the original, and answer every query as the original does, '
     'whether or not hashes and answers had been remembered before, and also when restored in another process.',
     ['inputs', 'histories', 'configurations'],
     'all objects, all warm-up histories before copying, restoring in the same or in another process with a different hash seed',
     'Tests never restore an object in a process with a different hash seed and do not use copies as operands.',
     ['mathobjects/mathobject.py', 'mathobjects/atom.py', 'mathobjects/set.py', 'mathobjects/multiset.py', 'mathobjects/couplet.py'],
     [('copy protocol', 'mathobjects/mathobject.py: __deepcopy__; mathobjects/atom.py: __getnewargs__')])

prop('C23', 'LaTeX, HTML and text renderings show exactly the object',
     'The LaTeX form of an object shows each of its elements once, in ascending order and with its multiplicity, couplets with their left '
     'and right side, one element per line where elements are themselves collections, and parentheses around couplets that stand '
     'beside other things; the short form shows the configured number of first elements and says how many distinct elements it leaves out, and abbreviates '
     'nothing else but long atoms. HTML pages contain the title and, in order, every given object\'s title, description and construct, with '
     'special characters escaped and objects as their LaTeX form. Indented text lists exactly the object\'s content (nothing is cut where every line fits the maximal length; a right side that does not fit is cut where its line is full, with an ellipsis), pretty-printed XML '
     'denotes the same document, and shortening a string removes only its middle.',
     ['inputs', 'configurations'],
     'all objects (of any nesting, mixture of kinds and size), short or long form, colours on or off, any configured lengths, default or own page templates',
     'One test file renders three fixed objects in long form; the short form, multisets, pages and text are never rendered.',
     ['util/latexprinter.py', 'util/html.py', 'util/mathobjectprinter.py', 'import_export/xml.py', 'util/miscellaneous.py'],
     [('LaTeX', 'util/latexprinter.py: math_object_to_latex'), ('pages', 'util/html.py: math_object_as_html, create_simple_web_page'),
      ('text', 'util/mathobjectprinter.py: mo_to_str; import_export/xml.py: xml_to_str; util/miscellaneous.py: core')])

prop('C24', 'Timers and variable prints report what happened',
     'Whatever nested, interleaved or faulty course a program takes, every line of its function timers is indented by three spaces for each '
     'timer that is still unfinished around it: START names the function that made the timer and its current (or the selected) arguments, LAP and END name '
     'that function, the time used or elapsed since the timer started, and the description or the current value of the named variable of the '
     'caller (with its length, cut to the given maximal length, further lines indented); print indents its texts one level further. A timer counts as unfinished until its '
     'first end, the end of its with block (also by an exception) or its disposal, and never again afterwards; quiet timers and skipped prints '
     'print nothing. print_var shows a variable of the given frame with its length, indentation and appended text as given. A PerformanceTimer '
     'keeps the time of its first end.',
     ['histories', 'inputs'],
     'all programs of nested functions with any number of timers ended in any order and way, all values (several lines, braces, any length) and options',
     'No test uses the timers or print_var; what a line shows depends on the whole history before it.',
     ['util/miscellaneous.py'],
     [('timers', 'util/miscellaneous.py: FunctionTimer, PerformanceTimer'), ('variables', 'util/miscellaneous.py: print_var, get_variable')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
