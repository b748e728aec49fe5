"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/solarspatialtools/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, note='', level='proof'):
    a = {'files': [S + f for f in files], 'mechanism': [{'name': n, 'where': S + w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state]
    P.append({'rec': {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                      'why_tests_cant': why, 'anchors': a}, 'note': note, 'level': level})


exec(open(os.path.join(ROOT, 'tools', 'props_table.py')).read())

NOTE = ('Deductive: every postcondition of the contracts in props/%s.py is discharged for all inputs and sizes on the real source, re-read on each run '
        '(normal forms, loop summaries by recurrence templates, z3, cvc5). Trusted: the pyvc engine, the library contracts listed in the evidence, real '
        'arithmetic for floats. Contracts the engine cannot discharge are run on seeded samples only and are labelled bounded. ')


def main():
    have = {f[:-3] for f in os.listdir(os.path.join(ROOT, 'props')) if f.endswith('.py')}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['rec']) + '\n')
    checks = []
    for p in P:
        i = p['rec']['id']
        if i not in have:
            continue
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'technique': 'contract-based deductive verification of the real source (pyvc: symbolic execution of the AST, z3/cvc5), counterexamples replayed on the real code',
                       'level': p['level'], 'level_note': (NOTE % i) + p['note']})
    m = {'version': 1, 'setup_cmd': './check --help > /dev/null', 'checks': checks,
         'not_applicable': [{'property': p['rec']['id'], 'reason': 'contracts not built yet'} for p in P if p['rec']['id'] not in have] + NOT_APPLICABLE,
         'notes': 'No hooks are needed in /repo. known_findings.jsonl lists repaired ("fixed:") and open findings; DESIGN.md explains the verifier.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
