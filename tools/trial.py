#!/usr/bin/env python3
"""trial.py [--extra=...] ids...: runs the property's check against a scratch copy of /repo with the planted change; 'all' for every one."""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
extra = [a for a in sys.argv[1:] if a.startswith('--')]
if ids == ['all']:
    ids = sorted(os.listdir(VERIF + '/seeded'))
base = '/tmp/trial.%d' % os.getpid()
try:
    for i in ids:
        tree = base + '/tree'
        shutil.rmtree(tree, True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', tree])
        d = VERIF + '/seeded/' + i
        subprocess.check_call(['git', '-C', tree, 'apply', d + '/patch.diff'])
        prop = json.load(open(d + '/meta.json'))['property']
        r = subprocess.run(['./check.py', prop] + extra, cwd=VERIF, env=dict(os.environ, VERIF_REPO=tree), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = r.stdout.decode().strip().splitlines()
        print('%s %s exit %d %s: %s' % (i, prop, r.returncode, 'caught' if r.returncode == 1 else 'MISSED', ' | '.join(x[:260] for x in t[-3:])), flush=True)
finally:
    shutil.rmtree(base, True)
