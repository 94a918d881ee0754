#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'symbolic execution of the real compiler (symbolic big integers) + SMT equivalence with reference semantics'
PROG = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C27 C28 C30 C33 C38'.split()
NOTE = {
    'C01': 'each operator and pair of operators for all operand values of small prime fields (17, 11; thorough: 5..61)',
    'C38': 'which signals occur in no emitted constraint of their template, at --inspect, for all parameter values; only the warnings of the inspection are compared',
    'C27': 'hash seeds and worker orders are drawn from the seed; for each of them the solver decides over all signal values',
}
DEF = ('all literal and signal values of the 17-element field (bn128 with fixed coefficients for generated systems) on every feasible '
       'compiler path of a fixed set of program skeletons; trusts lib/refsem.py, z3 and the symbolic integer crate')
EXTRA = {}
x = os.path.join(H, 'tools', 'extra_checks.json')
if os.path.exists(x):
    EXTRA = json.load(open(x))
NA = json.load(open(os.path.join(H, 'tools', 'not_applicable.json')))
checks = []
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
for i in ids:
    if i in PROG:
        tech, lvl, note = TV, 'translation_validation', NOTE.get(i, '') + ('; ' if i in NOTE else '') + DEF
    elif i in EXTRA:
        tech, lvl, note = EXTRA[i]['technique'], EXTRA[i]['level'], EXTRA[i]['note']
    else:
        continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=tech, level=lvl, level_note=note))
claimed = {c['property'] for c in checks}
na = [dict(property=i, reason=NA.get(i, 'the check is not built yet')) for i in ids if i not in claimed]
m = dict(version=1, setup_cmd='python3-vt setup.py', hooks=dict(
    guard='none', enable='the checks build a copy of /repo whose num-bigint-dig and threadpool dependencies are replaced by the crates in engine/; no line of /repo is guarded', source_commits=[]),
    checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
