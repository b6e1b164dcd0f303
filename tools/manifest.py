#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registered rules."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vstat'))
import rulelib, rules_index
NA = {
    'C90': 'Convergence to a local optimum depends on the numerical behaviour of the problem along the whole run (curvature, conditioning, '
           'rounding); no sound static argument over the source bounds it.',
    'C91': 'Floating-point error of results depends on run-time magnitudes and conditioning of user data; the static rules here decide exact '
           'real-arithmetic identities, not rounding error.',
    'C92': 'Wall-clock cost with threads depends on the machine, the scheduler and user callbacks; it cannot be decided from source.',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(line)
    pid = d['id']
    if pid in rulelib.REG:
        fn, tech = rulelib.REG[pid]
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
            'technique': 'static analysis: ' + tech,
            'level': 'other',
            'level_note': getattr(fn, 'note', None) or
                'Sound-by-construction rule over all paths of the analysed functions in the current sources; a construct the '
                'analysis cannot follow is recorded as undecided in the evidence, not reported. Trusts clang\'s front end, the '
                'models of Eigen and the standard library in vstat/models.py, that assertions stop the program, and that user '
                'callbacks write only their outputs. Real arithmetic, not floating point.'})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'No rule registered yet for this property.')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: clang syntax trees of the current sources -> gated symbolic values -> rules. No code of /repo is run.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
