#!/usr/bin/env python3
"""
run.py ID [--replay PATH] [--group NAME]: decides one property on the current
tree of /repo.  VERIF_SEED and VERIF_TIER are taken from the environment.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANTED = '/opt/venv/bin/python'
if os.path.exists(WANTED) and os.environ.get('VERIF_PYTHON') != 'this':
    if os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
        os.environ['VERIF_PYTHON'] = 'this'
        os.execv(WANTED, [WANTED, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from vlib import core
from vlib.registry import REGISTRY


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    info = REGISTRY[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    while args:
        option = args.pop(0)
        if option == '--replay':
            sys.exit(core.replay(prop, info, args.pop(0)))
        elif option == '--group':
            name = args.pop(0)
            info.groups = [g for g in info.groups if g.name == name]
        elif option == '--tier':
            tier = args.pop(0)
    sys.exit(core.check(prop, info, tier, seed))


if __name__ == '__main__':
    main()
