#!/usr/bin/env python3
"""Writes DESIGN.md: the text of tools/design/*.md, a section per property, and the table of planted bugs."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'checks')]
sys.dont_write_bytecode = True

HOW = {
    'P01': 'Model: `lib/expr.py` evaluates the same text with the documented constants, precedences and 64-bit arithmetic. The value is observed through `dc.l`/`dc.w`/`dc.b`, in pieces of the 64 bits, in conditions, assignments and operands. Text forms are enumerated as words over operands and operators, so every pair and triple of operators occurs with operands that tell the groupings apart.',
    'P02': 'Model: the instruction tables of `lib/isa.py`, written from the processors\' documentation in another layout than the C tables (mnemonic x mode -> bytes). Complete enumeration of processor x mnemonic x operand syntax x boundary values, with known and forward operands, different spellings and case.',
    'P03': 'Model: the width rules of `lib/isa.py`/`refasm.py` (short form when known in time and fitting; forced widths; range errors). Operand values sweep across every 8/16/32-bit limit; definitions before and after use.',
    'P04': 'Model plus direct decoding: the displacement byte in the output must lead from the address the processor counts from to the target label. Every branch instruction of every processor is swept over every displacement around both limits, forward and backward, under RORG, across segments, at special addresses.',
    'P05': 'Model: `refasm.py` assembles in one consistent reading (its own fixed point iteration); success is only allowed with that result. Additionally, relations on the real runs: the symbol file\'s values reproduce the output when substituted, a run with more passes allowed gives the same. Programs are words over statements whose sizes, conditions and counts depend on later symbols, so that passes really iterate.',
    'P06': 'For every place in which a value can be used: never-defined, self-referential, circular and only-skipped definitions must make the run fail, and the same place with the symbol defined further down must give the bytes of the program with the definition on top.',
    'P07': 'Model: location counters, fill bytes, segments. Words over layout directives; every directive with labels and with known/unknown operands.',
    'P08': 'Relation between three real runs (formats 1, 2, 3) decoded independently and compared byte by byte and with the model\'s image; sizes sweep across the internal buffer and hunk limits.',
    'P09': 'Model: the documented layout of DC/DV/HEX/BYTE/WORD/LONG/DS data for each width, extension and processor byte order.',
    'P10': 'Model for nesting and evaluation, plus the relation "a program with skipped blocks equals the program without them": the text of skipped blocks is enumerated over every kind of statement, well formed or not.',
    'P11': 'Relation: a REPEAT equals its body written out; model for counts and nesting. Counts sweep 0..300 and around 2^8, 2^16, 2^17.',
    'P12': 'Relation: a macro call equals its body with the arguments substituted by an independent substitution in `checks/P12.py`/`refasm.py`.',
    'P13': 'Relation: the source with local labels equals the source with every local label renamed by hand to a unique global name; the renamed text is produced while the word is generated. Model where a renaming is not possible.',
    'P14': 'Model: symbol table semantics of `=`/EQU/SET/EQM/SETSTR/SETSYM, built names, case, collisions of hash values and long names.',
    'P15': 'Model of the file search (INCLUDE, INCBIN, INCDIR, -I) over enumerated directory trees, plus the relation "an included file equals its text in place".',
    'P16': 'Relation: each line form (spacing, tabs, CR LF, case, colon, comments of every kind, leading dot or #) equals the plain form; every word of separators is enumerated.',
    'P17': 'Relation: the output file is the same for every value of the options that only concern reporting, for all subsets/values of those options; with -f only the container changes.',
    'P18': 'An independent reader of the symbol file; its contents must be exactly the model\'s symbols, values and marks, in the promised order.',
    'P19': 'An independent reader of the list file: source lines in order, addresses and bytes of each line compared with the model\'s per-line record.',
    'P20': 'Erroneous statements of every kind are put at every place of a program (included file, macro, loop, skipped block, list modes); the messages, their file and line, the exit status and the absence of false messages are compared with the model.',
    'P21': 'Fault enumeration: the writable size of every output file is swept over every byte count (RLIMIT_FSIZE and /dev/full), unwritable names and directories, -R: status must be non-zero whenever any requested file is incomplete, and files of an earlier run must not be left to be taken for results.',
    'P22': 'Invariant: ordinary exit status, no sanitizer report, bounded time. Run under AddressSanitizer and UBSan; short token words exhaustively, length sweeps over every kind of name, line, list, nesting and option.',
    'P23': 'Relations between real runs of the same input: other environment variables, clock, stack and heap contents, old files, option orders, names, splits into files, orders of definitions; and MemorySanitizer (any branch or output that depends on uninitialised memory is reported).',
    'P24': 'An independent reader of Intel HEX and of the three dasm formats; the converted file must describe exactly the input\'s bytes, and malformed input must be refused.',
    'P25': 'Each header under machines/ is included in programs for its processor; macros are called with enumerated arguments and the result compared with the bytes written by hand in `lib/machtab.py`; register names are compared with tables.',
    'P26': 'Sweeps over documented limits: pass count, -m size, include and macro nesting, expression depth: at most the limit works, beyond it fails with the right message, never with a wrong result.',
    'P27': 'Model: `checks/P27.py` reads the option words as the documentation does and hands the result to `refasm.py`; expected are the set of files written, their content, the messages and the status. All sequences of option words up to length 2 (3 over fewer words), one choice of every kind of option together, and every option letter, introducing character and value outside the documented ones, on programs in which each option shows.',
    'P28': 'Relation: the expected image and symbols of a composed source are put together from what the parts give alone (by the model, and the parts alone are run as well); the composed source itself is not given to the model. All ordered pairs and triples of parts, every part in every nest of up to two surroundings, alone and followed by every part, every idle statement (and every two) at every place of the base programs, and up to 1100 copies of an idle statement.',
}


def counts(p):
    try:
        e = json.load(open(os.path.join(VERIF, 'evidence', p + '.json')))
    except OSError:
        return {}
    return e['coverage'] if e.get('tier') == 'quick' else {}


def main():
    d = os.path.join(HERE, 'design')
    out = [open(os.path.join(d, '1-approach.md')).read()]
    out.append('## Properties\n\nFor each property: how it is decided, and the spaces explored by the quick command; where the thorough command goes further, its bound is given behind the slash. '
               'Counts are those of the last quick run on the unchanged tree; the current ones are in `evidence/<id>.json`.\n')
    props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    for pr in props:
        p = pr['id']
        m = importlib.import_module(p)
        quick, thorough = m.spaces('quick'), {s.name: s for s in m.spaces('thorough')}
        c = counts(p)
        by = {s['space']: s for s in c.get('spaces', [])}
        out.append('### %s %s\n\n%s\n\n%s\n' % (p, pr['title'], pr['statement'], HOW[p]))
        out.append('| space | bound | items | runs |\n|---|---|---|---|')
        for s in quick:
            t = thorough.pop(s.name, s)
            b = s.bound if t.bound == s.bound else '%s / %s' % (s.bound, t.bound)
            e = by.get(s.name, {})
            out.append('| %s | %s | %s | %s |' % (s.name, b.replace('|', '\\|'), e.get('items', ''), e.get('executions', '')))
        for s in thorough.values():
            out.append('| %s | thorough only: %s | | |' % (s.name, s.bound.replace('|', '\\|')))
        if c:
            out.append('\n%d end states, %d statements assembled, %d runs.' % (c['states'], c['transitions'], c['executions']))
        for n in getattr(m, 'NOTES', ()):
            out.append('\nNote: %s.' % n.rstrip('.'))
        out.append('')
    out.append(open(os.path.join(d, '2-findings.md')).read())
    out.append('## Planted bugs\n\nEach was written from a property\'s text and the code, kept under `seeded/` whether or not it was noticed, and run against the check of its property (`tools/plant.py --check`). '
               '"caught" is the outcome with the present checks; "missed, caught" means that the check missed it at first and was extended.\n\n| planted bug | property | what it breaks | outcome |\n|---|---|---|---|')
    caught = json.load(open(os.path.join(HERE, 'caught.json')))
    for s in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        m = json.load(open(os.path.join(VERIF, 'seeded', s, 'meta.json')))
        seq = []
        for o in caught.get(s, ['not run']):
            if not seq or seq[-1] != o:
                seq.append(o)
        out.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '\\|'), ', '.join(seq)))
    out.append('')
    out.append(open(os.path.join(d, '3-sensitivity.md')).read())
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
