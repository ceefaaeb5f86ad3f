#!/usr/bin/env python
"""check.py <property id> [--tier quick|thorough] [--only substring] [-v] | --replay FILE"""
import argparse
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
sys.dont_write_bytecode = True


def main():
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
        os.execv(VENV, [VENV] + [os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, ROOT)
    from engine import runner
    if len(sys.argv) > 1 and sys.argv[1] == '--concrete':
        runner.concrete_main(sys.argv[2], sys.argv[3], int(sys.argv[4]))
        return 0
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        from engine import solve, npx
        print('z3', solve.z3.get_version_string())
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        return runner.replay(a.replay)
    return runner.check(a.property, a.tier, seed, a.only, a.v)


if __name__ == '__main__':
    sys.exit(main())
