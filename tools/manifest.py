"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = ('TLA+ specification %s checked with TLC; behaviours of the specification with seeded random '
          'inputs are replayed step by step on the real objects and every outcome is compared')
EXH = REPLAY + '; small configurations are explored exhaustively and every transition is replayed'
TRACE = 'TLA+ specification %s checked with TLC; histories recorded from the real objects are validated by TLC'
NOTE = ('Exhaustive for the specification within the stated bounds; the code is compared with it on every '
        'replayed behaviour only. Trusts TLC, numpy and the comparison tolerances (1e-14 to 1e-7).')
T = {}
for p in 'C01 C02 C04 C07 C19 C20'.split():
    T[p] = (REPLAY % 'Origami.tla over Patterns.tla (exact rational and jet arithmetic)', NOTE)
for p in 'C01 C02 C07 C19'.split():
    T[p] = (REPLAY % 'Origami.tla over Patterns.tla and Scale.tla (exact rational, jet and Laurent polynomial '
            'arithmetic)', NOTE)
for p in 'C03 C06 C08'.split():
    T[p] = (EXH % 'Origami.tla over Patterns.tla', NOTE)
T['C05'] = (EXH % 'DictLife.tla over Patterns.tla (heap of dictionaries with identity)', NOTE)
T['C09'] = (EXH % 'Persist.tla (type registry, encoding, equality), Live.tla and Origami.tla', NOTE)
T['C10'] = (EXH % 'Persist.tla and Live.tla (files, documents and objects)', NOTE)
T['C11'] = (EXH % 'Wrap.tla, WrapStack.tla and WrapNest.tla over Patterns.tla', NOTE)
T['C12'] = T['C11']
T['C13'] = (EXH % 'Objective.tla', NOTE)
T['C14'] = (EXH % 'Precond.tla (exact rational linear algebra)', NOTE)
T['C15'] = (REPLAY % 'Precond.tla (exact rational linear algebra)', NOTE)
T['C16'] = (REPLAY % 'Diff.tla (exact derivatives in a nilpotent algebra)', NOTE)
T['C17'] = (EXH % 'Diff.tla (exact derivatives in a nilpotent algebra)', NOTE)
T['C18'] = (REPLAY % 'Diff.tla and Gamma.tla (exact derivatives in nilpotent algebras)', NOTE)
T['C21'] = (EXH % 'Heap.tla (ownership of storage)', NOTE)
T['C22'] = (EXH % 'Build.tla (construction and description of patterns)', NOTE)
T['C23'] = (EXH % 'Pipeline.tla over Precond.tla and Cubic.tla (exact rational linear algebra and jets)', NOTE)
EXTRA = os.path.join(HERE, 'tools', 'techniques.json')
if os.path.exists(EXTRA):
    T.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})

src = ''.join(open(os.path.join(HERE, 'harness', f)).read()
              for f in os.listdir(os.path.join(HERE, 'harness')) if f.startswith('checks_'))
built = {m.upper() for m in re.findall(r'^def (c\d\d)\(', src, re.M)}
checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in built and p in T:
        checks.append({'property': p, 'quick_cmd': './check ' + p,
                       'thorough_cmd': './check %s --thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': T[p][0], 'level': 'model_checking', 'level_note': T[p][1]})
    else:
        missing.append({'property': p, 'reason': 'the check is not built yet'})
doc = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing,
       'notes': 'Language: TLA+ (TLC). See DESIGN.md. No hooks in /repo are needed: the public API exposes '
                'the abstract state.'}
json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'not claimed:', [m['property'] for m in missing])
