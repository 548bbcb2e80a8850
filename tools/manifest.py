#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF + '/lib', VERIF + '/checks']

TECH = {
    'P08': 'exhaustive bounded exploration; reference model and relation between the three formats',
    'P17': 'exhaustive bounded exploration; relation between runs with and without the options',
    'P21': 'exhaustive enumeration of output fault points on the real program',
    'P22': 'exhaustive bounded exploration of the sanitised program',
    'P23': 'exhaustive bounded exploration; relation between runs in different environments, plus MemorySanitizer',
    'P28': 'exhaustive bounded exploration; relation between composed sources and their parts alone',
    'P24': 'exhaustive bounded exploration; independent Intel HEX reader',
}
NOTE = ('Every case of the stated finite spaces is run on the program built from the current tree and compared with '
        'the expected result; nothing is sampled. Assurance ends at the alphabets and bounds listed in the evidence. '
        'Trusted: the reference model in lib/ (bound to the program by replaying every explored case), gcc/clang, the fork server.')


def main():
    checks, na = [], []
    for line in open(VERIF + '/properties.jsonl'):
        p = json.loads(line)['id']
        if os.path.exists('%s/checks/%s.py' % (VERIF, p)):
            checks.append(dict(property=p, quick_cmd='python3 /verif/check.py %s --tier quick' % p,
                               thorough_cmd='python3 /verif/check.py %s --tier thorough' % p,
                               evidence_file='evidence/%s.json' % p,
                               technique=TECH.get(p, 'exhaustive bounded exploration against an executable reference model'),
                               level='model_checking', level_note=NOTE))
        else:
            na.append(dict(property=p, reason='check not built yet'))
    m = dict(version=1, setup_cmd='python3 /verif/lib/selftest.py --setup', checks=checks, not_applicable=na,
             notes='No hooks are needed in /repo: the checks drive the command line tools, built from the current tree in a scratch directory.')
    with open(VERIF + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not claimed')


main()
