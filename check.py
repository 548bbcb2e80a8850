#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import importlib
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'checks')]
sys.dont_write_bytecode = True

import runner                                                      # noqa: E402

PLAIN = {'dasm': ('plain', 'dasm', {}), 'ftohex': ('plain', 'ftohex', {})}


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    mod = importlib.import_module(prop)
    spaces = mod.spaces(tier)
    only = os.environ.get('VF_ONLY')
    if only:
        spaces = [s for s in spaces if s.name in only.split(',')]
    variants = getattr(mod, 'VARIANTS', PLAIN)
    kinds = sorted({v[0] for v in variants.values()})
    return runner.explore(prop, tier, spaces, kinds, variants, VERIF, 'model_checking',
                          getattr(mod, 'NOTES', ()))


if __name__ == '__main__':
    sys.exit(main(sys.argv))
