#!/usr/bin/env python3
""" Write MANIFEST.json from the checks that exist and properties.jsonl. """
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

NA = {
    'C33': 'Linearizability quantifies over thread schedules; the gate is an Event with a timeout and no lock, so the '
           'property is about timing that a sound static lock/ownership argument cannot bound. The sequential '
           'obligations (own stream per thread, gate always released) are C19 and C21.',
}
NOTE = ('Abstract interpretation of /repo\'s current source: every feasible abstract path of the listed scenarios is '
        'explored and each obligation is compared in the value domain; only definite mismatches on paths without '
        'analysis doubt are reported, undecided obligations are counted in the evidence. Trusts the interpreter\'s '
        'models of Python and the standard library; layouts, depths and option combinations are bounded as the '
        'evidence lists.')

ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for pid in ids:
    if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        m = importlib.import_module('checks.' + pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': getattr(m, 'TECHNIQUE', 'abstract interpretation (own AST interpreter over symbolic values)'),
            'level': m.LEVEL,
            'level_note': getattr(m, 'NOTE', NOTE),
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'Check not built yet.')})
out = {'version': 1, 'setup_cmd': 'python3 -c "import check"', 'checks': checks, 'not_applicable': na,
       'notes': 'Static analysis only; the deciding step reads /repo\'s working tree on every run. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
