"""The checks: which recorders run, and which specification modules judge what they saw."""
RULE = ('events are real library calls (operands built along varied paths, with varied remembered '
        'answers; small universes enumerated, the rest drawn with VERIF_SEED), deduplicated by '
        '(operation, operand values, raise level, outcome); non-trivial: a defined outcome on operands '
        'with at least 4 nodes in total')
HRULE = ('events are steps of recorded histories (calls, queries, copies, level changes over a shared pool of '
         'objects, every live object observed again after each step); non-trivial: calls')
RRULE = ('replayed behaviours are drawn by TLC from the state machine; non-trivial: distinct (operation, operands) with '
         'a defined outcome')
HRULE2 = ('events are whole histories of nested, generated functions with timers (5-60 actions each), run in the real library and '
          'judged action by action; non-trivial: histories of at least 3 actions')
MODEL = ('model', 'ObjectStoreMC', 'ObjectStoreMC', 'ObjectStoreMCLarge')
PARTS = 7
IS = tuple('%s.is_' % q for q in ('couplets', 'sets', 'relations', 'clans', 'multisets', 'multiclans'))


BEHAVIOURS = 1000       # generated by TLC and replayed, times the tier's scale


def algebra(driver, quick=1, thorough=10, ops=()):
    steps = [('judge', driver, PARTS, 'Judge')]
    if ops:
        steps.append(('replay', PARTS, BEHAVIOURS, {'call': ops}))
    return {'steps': steps, 'quick': quick, 'thorough': thorough, 'level': 'exploration',
            'rule': RULE + ('; ' + RRULE if ops else '')}


PROPS = {
    'C03': algebra('c03', ops=('sets.',)),
    'C04': algebra('c04', 1.2, ops=('couplets.', 'relations.')),
    'C05': algebra('c05', ops=('clans.',)),
    'C06': algebra('c06', ops=('multisets.',)),
    'C07': algebra('c07', ops=('multiclans.',)),
    'C10': {'steps': [MODEL, ('replay', PARTS, BEHAVIOURS, {'value': None, 'grow': None}), ('hist', 'hist', PARTS, {'value': None, 'grow': None, 'digest': None, 'again': None})],
            'quick': 1, 'thorough': 20, 'level': 'exploration', 'rule': HRULE},
    'C19': {'steps': [('judge', 'c19', PARTS, 'Judge'),
                      ('replay', PARTS, BEHAVIOURS, {'call': ('mo.', 'relations.get', 'multiclans.get', 'clans.get')}),
                      ('hist', 'hist_lookup', PARTS, {'call': ('mo.', 'relations.get', 'multiclans.get', 'clans.get'),
                                                      'again': None, 'value': None})],
            'quick': 1, 'thorough': 15, 'level': 'exploration', 'rule': RULE + '; ' + HRULE},
    'C02': {'steps': [('judge', 'c02', PARTS, 'Judge'),
                      ('replay', PARTS, BEHAVIOURS, {'call': ('properties.',) + IS}),
                      ('hist', 'hist_query', PARTS, {'call': ('properties.',) + IS, 'again': None})],
            'quick': 1, 'thorough': 10, 'level': 'exploration', 'rule': RULE + '; ' + HRULE},
    'C08': {'steps': [MODEL, ('judge', 'c08', PARTS, 'Judge'),
                      ('replay', PARTS, BEHAVIOURS, {'call': None}),
                      ('hist', 'hist_level', PARTS, {'call': None, 'level': None})],
            'quick': 1, 'thorough': 10, 'level': 'exploration', 'rule': RULE + '; ' + HRULE},
    'C09': algebra('c09', 1),
    'C11': {'steps': [('model', 'StructureMC', 'StructureMC', 'StructureMCLarge'), ('judge', 'c11', PARTS, 'Judge')],
            'quick': 1, 'thorough': 10, 'level': 'exploration', 'rule': RULE},
    'C12': algebra('c12', 1),
    'C13': algebra('c13', 1),
    'C20': algebra('c20', 1),
    'C21': algebra('c21', 1),
    'C01': {'steps': [('judge', 'c01', PARTS, 'Judge'), ('replay', PARTS, BEHAVIOURS, {'flags': None, 'grow': None}),
                      ('hist', 'hist_flags', PARTS, {'flags': None, 'grow': None})],
            'quick': 1, 'thorough': 10, 'level': 'exploration', 'rule': RULE + '; ' + HRULE},
    'C14': algebra('c14', 1),
    'C15': algebra('c15', 1),
    'C16': algebra('c16', 1),
    'C17': algebra('c17', 1),
    'C18': algebra('c18', 1),
    'C22': algebra('c22', 1),
    'C23': algebra('c23', 1),
    'C24': {'steps': [('model', 'TimersMC', 'TimersMC', 'TimersMCLarge'), ('judge', 'c24', PARTS, 'Judge')],
            'quick': 1, 'thorough': 15, 'level': 'exploration', 'rule': HRULE2},
}
