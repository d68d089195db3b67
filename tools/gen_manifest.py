#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
SERVICE = ('Seeded search over simulated runs of both services (real code) with concurrent clients, administrators, faults, crashes and restarts; '
           'every operation and every committed state is judged against a reference model. ')
NOTE = {
    'S': SERVICE + 'Trusted: the simulator, the ladon and scrypt stand-ins, SQLite as the database, one process for both services. '
                   'No violation in the explored executions; not a proof.',
    'T': 'Seeded search over histories of administration commands (real code, one simulated process each) with database errors, file errors, '
         'crashes and power loss at arbitrary points, every committed database state and final file judged against the allowed states. '
         'Trusted: the simulator, SQLite, the scrypt and key-generation stand-ins. Not a proof.',
    'L': 'Seeded search over histories and thread interleavings of compiling, evaluating, encoding and reloading generated policies (real code), with '
         'failing allocations and restarts, judged against an independent reference evaluator that knows each policy\'s tree. Trusted: the '
         'simulator and the reference. Not a proof.',
    'K': 'Seeded search over histories and thread interleavings of making, editing, signing, exporting, damaging, importing and verifying certificates with the '
         'real library, under clock movement, failing allocations and restarts, judged against an independent codec and signature check. Trusted: the '
         'simulator, the independent codec and pycryptodome. Not a proof.',
}
NA = {
    'N01': 'Whether one text is rejected is a pure function of that text: no schedule, clock, fault or history takes part, so simulation adds nothing over input '
           'generation. (The part that depends on histories and threads, that failing compilations do not disturb others, is in C22.)',
    'N02': 'Which comparisons the type checker reports is a pure function of one policy. (Independence of its result from other compilations is in C22.)',
    'N03': 'The repository has no such operation: the policy authority\'s evaluation request is an unimplemented stub, so there is no behaviour to simulate.',
    'N04': 'Rendering a certificate or tree as text is a pure function of the object; no nondeterminism or fault takes part.',
}
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    kind = 'S' if i <= 'C17' else 'T' if i <= 'C19' else 'L' if i <= 'C22' else 'K'
    checks.append(dict(property=i, quick_cmd='./check.py %s' % i, thorough_cmd='./check.py %s --thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique='deterministic simulation with fault injection',
                       level='exploration', level_note=NOTE[kind]))
m = dict(version=1, setup_cmd='./check.py --selftest', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='No hooks in /repo: every seam (threads, clock, randomness, files, database driver, locks, network, logging) is taken over from outside. '
               'Replay a violation with ./check.py --replay <file>. Repaired defects are listed in known_findings.txt.')
assert {p['id'] for p in props} == {c['property'] for c in checks} | set(NA)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
