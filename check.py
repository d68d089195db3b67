#!/usr/bin/env python3
"""check.py <property>            decide a property (VERIF_SEED, VERIF_TIER)
check.py --replay <file>       re-execute a recorded violation
check.py --selftest [n]        execute n runs of every property three times and compare the traces"""
import os
import sys

PY = '/opt/venv/bin/python'


def main():
    if os.environ.get('_VERIF_REEXEC') != '1' and os.environ.get('PYTHONHASHSEED') != '0' or os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and os.path.exists(PY):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        if env.get('_VERIF_REEXEC') != '1':
            env['_VERIF_REEXEC'] = '1'
            exe = PY if os.path.exists(PY) else sys.executable
            os.execve(exe, [exe, '-u', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.dont_write_bytecode = True
    from sim import runner
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return runner.replay(os.path.abspath(a[1]))
    if a and a[0] == '--traces':
        print('\n'.join(runner.traces(int(a[1]), int(a[2]), int(a[3]))))
        return 0
    if a and a[0] == '--selftest':
        return runner.selftest(int(os.environ.get('VERIF_SEED', '1')), int(a[1]) if len(a) > 1 else 4)
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' or '--thorough' in a else 'quick'
    try:
        base = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        base = 1
    kw = {}
    for x in a[1:]:
        if x.startswith('--runs='):
            kw['count'] = int(x[7:])
        if x.startswith('--workers='):
            kw['workers'] = int(x[10:])
        if x.startswith('--cap='):
            kw['cap'] = float(x[6:])
    return runner.check(prop, tier, base, **kw)


if __name__ == '__main__':
    sys.exit(main())
