#!/usr/bin/env python3
"""mkseed.py DEFS.py [ids...]: turns bug definitions into /verif/seeded/<id>, after confirming that the tests pass with the change and the demonstration
fails with it and passes without it; then runs the property's check against the changed copy.

DEFS.py defines BUGS: list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=text)."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
LAB = os.path.join(HERE, 'seedlab')
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def tests(tree):
    os.makedirs(tree + '/hgaa/logs', exist_ok=True)
    sh('cd %s && env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 '
       '--continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/sb/j.xml hgaa hgpl' % tree)
    import xml.etree.ElementTree as E
    ok = set()
    for t in E.parse('/tmp/sb/j.xml').iter('testcase'):
        if not list(t):
            ok.add('%s::%s' % (t.get('classname'), t.get('name')))
    return [b for b in BASE if b not in ok]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = [a for a in sys.argv[2:] if not a.startswith('--')]
    quick = '--nocheck' in sys.argv
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        os.makedirs('/tmp/sb', exist_ok=True)
        tree = '/tmp/sb/tree'
        shutil.rmtree(tree, True)
        sh('git -C /repo worktree prune; git clone -q /repo %s' % tree)
        d = '/tmp/sb/seed'
        shutil.rmtree(d, True)
        os.makedirs(d)
        shutil.copy(LAB + '/lab.py', d)
        shutil.copy(LAB + '/demo.sh', d)
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/demo.py', 'w') as f:
            f.write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lab import *\n\n' + b['demo'].strip('\n') + '\ndone()\n')
        r0 = sh('bash %s/demo.sh' % d, cwd=tree)
        for fn, old, new in b['edits']:
            p = os.path.join(tree, fn)
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            if crlf:
                s = s.replace('\r\n', '\n')
            old, new = old.strip('\n'), new.strip('\n')
            assert s.count(old) == 1, (b['id'], fn, s.count(old), old)
            s = s.replace(old, new)
            if crlf:
                s = s.replace('\n', '\r\n')
            open(p, 'w', newline='').write(s)
        diff = subprocess.run(['git', '-C', tree, 'diff'], stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r1 = sh('bash %s/demo.sh' % d, cwd=tree)
        failed = tests(tree)
        good = r0.returncode == 0 and r1.returncode != 0 and not failed
        print('%s: demo clean=%d changed=%d tests failing=%d %s' % (b['id'], r0.returncode, r1.returncode, len(failed), 'OK' if good else 'BAD'))
        if not good:
            print(r0.stdout.decode()[-1500:], '-----\n', r1.stdout.decode()[-1500:], failed[:5])
            continue
        if b'FAILED:' not in r1.stdout:
            print('   (changed demo output: %s)' % r1.stdout.decode()[-400:])
        out = os.path.join(VERIF, 'seeded', b['id'])
        shutil.rmtree(out, True)
        shutil.copytree(d, out)
        if not quick:
            for prop in [b['property']] + b.get('also', []):
                r = sh('./check.py %s' % prop, cwd=VERIF, env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED='1'))
                t = r.stdout.decode().strip().splitlines()
                print('   check %s exit %d: %s' % (prop, r.returncode, ' | '.join(x[:300] for x in t[-3:])))
        sys.stdout.flush()
    shutil.rmtree('/tmp/sb/tree', True)


main()
