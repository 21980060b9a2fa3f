#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough]: decide one property on /repo's current tree."""
import importlib, os, pkgutil, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from engine import rules
import checks


def load():
    for m in pkgutil.iter_modules(checks.__path__):
        importlib.import_module('checks.' + m.name)


def main():
    load()
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if pid == 'all':
        rc = 0
        for p in sorted(rules.CHECKS):
            rc |= rules.run(p, tier, seed)
        return rc
    return rules.run(pid, tier, seed)


if __name__ == '__main__':
    sys.exit(main())
