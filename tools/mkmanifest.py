"""Writes MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.dont_write_bytecode = True
from kst.registry import PROPERTIES, NOT_APPLICABLE
checks = []
for p in sorted(PROPERTIES):
    s = PROPERTIES[p]
    checks.append({
        'property': p,
        'quick_cmd': f'python3 check.py --property {p} --tier quick',
        'thorough_cmd': f'python3 check.py --property {p} --tier thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': s.get('technique', 'static analysis: abstract interpretation of readers and writers, symbolic composition'),
        'level': 'other',
        'level_note': s.get('note', 'Decides the property over all admissible attribute values on the abstract summaries of the current source; '
                            'constructs outside the interpreter are counted as undecided and raise no alarm. Trusts the interpreter and the tables in kst/spec.py.'),
    })
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 8)"', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())],
     'notes': 'No hooks in /repo. All checks read /repo/src on every run; nothing is executed or built.'}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
