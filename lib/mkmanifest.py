"""Write MANIFEST.json from the registered checks."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vf
import run

CONC = ('TLA+ specification checked with TLC; the real code runs under a deterministic scheduler and every distinct '
        'history is validated against the specification with TLC')
SEQ = ('TLA+ specification; TLC enumerates its behaviours, which are replayed on the real code step by step, '
       'or its definitions, which are compared with the real results')
NOTE_CONC = ('Exhaustive model checking of the specification within the bounds of its configuration; on the code, every '
             'schedule within the preemption budget of small client programs (capped), then random schedules. Assumes '
             'sequentially consistent memory; data races and use after destruction are detected separately. Trusts '
             'TLC, the scheduler (rt/vsched.cpp) and the stand-in for the Fast DDS headers (shim/).')
NOTE_SEQ = ('Every transition of the bounded specification is exercised on the real code and the results compared; '
            'nothing is claimed beyond the bounds of the model. Trusts TLC and the replay driver.')
TABLE = ('TLA+ definitions, whose laws TLC checks on all small arguments; the real functions are called on enumerated and '
         'boundary arguments and TLC compares every answer with the definition')
NOTE_TABLE = ('Exhaustive over the enumerated arguments (all short texts over small alphabets, all small numbers, every boundary), '
              'sampled beyond them; the code runs with address and undefined behaviour sanitizers. Nothing is claimed for '
              'arguments that are not enumerated. Trusts TLC and the driver that calls the functions (harness/table.hpp).')
LEVELS = {}
NOTES = {}
TECH = {}
SEQUENTIAL = set()
cs = run.checks()
for f in sorted(os.listdir(vf.VERIF + '/lib/checks')):
    if f.endswith('.py') and f != '__init__.py':
        import importlib
        m = importlib.import_module('checks.' + f[:-3])
        LEVELS.update(getattr(m, 'LEVELS', {}))
        NOTES.update(getattr(m, 'NOTES', {}))
        TECH.update(getattr(m, 'TECH', {}))
        for i in getattr(m, 'TABLES', ()):
            TECH[i], NOTES[i] = TABLE, NOTE_TABLE
        SEQUENTIAL |= set(getattr(m, 'SEQUENTIAL', ()))
NA = {}
props = [json.loads(x) for x in open(vf.VERIF + '/properties.jsonl')]
man = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[],
           notes='Every check is self-contained: it builds what it needs from /repo, runs TLC and the conformance '
                 'machinery. VERIF_TIER selects the depth, VERIF_SEED every random choice.')
for p in props:
    i = p['id']
    if i in cs:
        man['checks'].append(dict(
            property=i, quick_cmd='python3 run.py check %s' % i, thorough_cmd='python3 run.py check %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=TECH.get(i, SEQ if i in SEQUENTIAL else CONC), level=LEVELS.get(i, 'model_checking'),
            level_note=NOTES.get(i, NOTE_SEQ if i in SEQUENTIAL else NOTE_CONC)))
    else:
        man['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
json.dump(man, open(vf.VERIF + '/MANIFEST.json', 'w'), indent=1)
print(len(man['checks']), 'checks;', 'not claimed:', [x['property'] for x in man['not_applicable']])
