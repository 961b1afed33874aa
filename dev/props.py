"""single source of properties.jsonl and MANIFEST.json: python3 dev/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
AI = 'static analysis: abstract interpretation of the LLVM IR compiled from the current source'


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), tech=AI, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=qtext, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech],
                  state=[dict(name=a, meaning=b, where=w) for a, b, w in state], observe=list(observe), tech=tech,
                  note=note, na=na))


BASE, HEALTH, NOISE = 'src/jitterentropy-base.c', 'src/jitterentropy-health.c', 'src/jitterentropy-noise.c'
TIMER, GCD, SHA3 = 'src/jitterentropy-timer.c', 'src/jitterentropy-gcd.c', 'src/jitterentropy-sha3.c'
MEM, INT, API = 'arch/jitterentropy-arch-memory.c', 'src/jitterentropy-internal.h', 'jitterentropy.h'

exec(open(HERE + '/dev/props_list.py').read())

with open(HERE + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], state=p['state'], mechanism=p['mech'],
                                             observe_at=p['observe'], hook_needed=None))) + '\n')
        assert len(p['title']) <= 80, p['id']
checks, na = [], []
for p in P:
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    assert os.path.exists(HERE + '/checks/%s.py' % p['id'].lower()), p['id']
    cmd = 'python3 /verif/check.py ' + p['id']
    checks.append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd=cmd, evidence_file='evidence/%s.json' % p['id'],
                       technique=p['tech'], level='other', level_note=p['note']))
json.dump(dict(version=1, setup_cmd='python3 /verif/check.py --selfcheck', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Every check compiles the sources of /repo to LLVM IR (or parses them) and '
                     'decides the property on that; nothing of the library is executed. See DESIGN.md.'),
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
