"""Writes MANIFEST.json: a check for every property with a harness, the others as not applicable."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
REASONS = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s quick' % i,
            'thorough_cmd': 'python3-vt check.py %s thorough' % i,
            'technique': 'symbolic execution of the real Python code (AST-instrumented from /repo on every run); z3 decides every branch '
                         'and assertion over all inputs within the bounds; counterexamples replayed on the uninstrumented code',
            'level': 'model_checking',
            'level_note': 'Holds for every input within the bounds listed per case in the evidence file; says nothing outside them. '
                          'Trusts z3, the symbolic models of str/int/float/re in symx (cross-checked on every run by replaying '
                          'path models on the real code) and the stubs named in the evidence.',
        })
    else:
        na.append({'property': i, 'reason': REASONS.get(i, 'no check yet: the harness for this property is not written')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks in /repo: the code is instrumented in memory while it is imported.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
