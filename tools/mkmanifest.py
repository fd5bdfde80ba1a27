#!/usr/bin/env python3
"""Write MANIFEST.json: a check for every property that has a module in checks/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Bounded: each harness executes the real code symbolically and is decided when every path within its stated '
        'bounds (see evidence: bounds, outside) ends with the solver finding no violating input. Counterexamples are '
        'replayed natively before they are reported. Trusts CrossHair, Z3 and the library models in engine/models.py, '
        'which are sampled by native replay. ')
NOTES = {
    'C17': 'Task scheduling is represented by a stand-in task class that runs the real task bodies in a solver-chosen '
           'order; pre-emption inside one element is not modelled.',
}
props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                       'technique': 'bounded symbolic execution of the real code (CrossHair + Z3), every path within the bounds',
                       'level': 'model_checking', 'level_note': NOTE + NOTES.get(i, '')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not applicable')
