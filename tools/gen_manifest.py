#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
from config import PROPS
TECH = {
    'judge': 'TLA+ specification of the operations evaluated by TLC on recorded calls of the real code (trace conformance)',
    'hist': 'TLA+ state machine ObjectStore; TLC validates recorded histories of the real code as its behaviours',
    'model': 'exhaustive TLC model checking of the specification',
    'replay': 'behaviours of the TLA+ state machine generated by TLC, replayed into the real code',
}
NOTE = ('Every recorded call (bounded-exhaustive over small universes, seeded random above that) is decided by TLC from the '
        'TLA+ specification, not by the code under test; assurance is as wide as the recorded inputs and histories. '
        'Trusts TLC, the recorder\'s encoding of objects (it reads components, not the operations under test) and PyPy.')
checks = []
for pid in sorted(PROPS):
    kinds = []
    for s in PROPS[pid]['steps']:
        if TECH[s[0]] not in kinds:
            kinds.append(TECH[s[0]])
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid,
                   'thorough_cmd': 'python3 check.py %s thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid, 'technique': '; '.join(kinds),
                   'level': PROPS[pid]['level'], 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks: the recorders observe the public API and the cached_* properties. Specification in spec/, '
              'recorders in harness/, runner check.py; see DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
