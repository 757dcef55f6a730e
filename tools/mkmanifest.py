"""Writes /verif/MANIFEST.json from the rule modules present in sa/rules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
 'C29': 'Optimality of the final flow is a statement about runtime quantities (costs and flows of every instance) that no '
        'static argument in reach bounds; the local steps it rests on are decided by C15, C16, C25 and C26.',
 'C30': 'Termination of the pivot, augmentation and relabel loops depends on numeric progress measures (and fails for '
        'degenerate pivots on real inputs); no ranking function is derivable statically. Per-pass progress of work-list '
        'searches is decided by C22.',
 'C31': 'Convergence of a floating-point fixed-point iteration is numerical; nothing about it is decidable from the source.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'sa/rules/%s.py' % i.lower())
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(f):
        m = importlib.import_module('sa.rules.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                       'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'static analysis: ' + getattr(m, 'TECHNIQUE', 'abstract interpretation of the syntax tree'),
                       'level': 'other',
                       'level_note': getattr(m, 'NOTE', 'Rule: ' + m.RULE + '. ' + 'Assumes the container, queue and library '
                       'models of sa/expr.py; a path the analysis cannot follow is counted as undecided and raises no alarm.')})
    else:
        na.append({'property': i, 'reason': 'No check has been built for it yet.'})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are static: they parse /repo/src/gimpy on every run and execute none of it.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
