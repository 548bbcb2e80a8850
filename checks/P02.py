"""P02: instruction encodings."""
import itertools

import isa
from common import progs
from gen import CPUS, PNAME, SYNTAX_LIST, fill, head, mnemonics, syntaxes

VALUES = ['0', '1', '$7f', '$80', '$ff', '$100', '$1234', '$ffff', '.', '.+5']
SYMS = 'xval = $21\nyval = $1122\nspval = $12\nx = $34\ny = $56\nsp = $78\na = $9a\nwide = $4321\nlow = $33\n'


def single(values):
    for cpu in CPUS:
        h = head(cpu)
        for n in mnemonics(cpu):
            for s in syntaxes(cpu):
                for v in values if '%s' in s else ['']:
                    yield (h + ' %s %s\n' % (n, s.replace('%s', v)), ())


def lists(values):
    for cpu in CPUS:
        h = head(cpu, '$20')
        for n in mnemonics(cpu):
            ins = isa.TABLE[cpu][n]
            special = ins.imod or ins.mask or ins.rel or isa.AM['BYTEREL'] in ins.ops
            for s in SYNTAX_LIST:
                k = s.count('%s')
                vs = values if special else values[:2]
                for args in itertools.product(vs, repeat=min(k, 3)):
                    yield (h + ' %s %s\n' % (n, fill(s, args)), ())


def letter_case():
    for cpu in CPUS:
        for n in mnemonics(cpu):
            for f in (str.upper, str.capitalize, lambda x: x[:-1] + x[-1].upper()):
                for s in syntaxes(cpu):
                    for v in ('$12', '$1234'):
                        for g in (str.upper, str.lower):
                            yield (head(cpu) + ' %s %s\n' % (f(n), g(s.replace('%s', v))), ())


def symbols():
    for cpu in CPUS:
        for n in mnemonics(cpu):
            for s in syntaxes(cpu):
                if '%s' in s:
                    for v in ('xval', 'yval', 'spval', 'x', 'y', 'sp', 'a', 'wide', 'low', 'low+1', '<wide', 'xval+yval'):
                        yield (head(cpu) + SYMS + ' %s %s\n' % (n, s.replace('%s', v)), ())


def bits():
    """Bit instructions: every bit number, address and mask."""
    for cpu in CPUS:
        for n in mnemonics(cpu):
            ins = isa.TABLE[cpu][n]
            if ins.imod:
                for bit in range(-1, 10):
                    for adr in ('0', '1', '$7f', '$80', '$fe', '$ff', '$100'):
                        t = ',$1005' if ins.rel else ''
                        yield (head(cpu) + ' %s %d,%s%s\n' % (n, bit, adr, t), ())
            if ins.mask:
                for mask in list(range(0, 257, 1)):
                    for adr in ('$10', '$10,x', '$10,y'):
                        t = ',$1005' if ins.rel else ''
                        yield (head(cpu) + ' %s %s,%d%s\n' % (n, adr, mask, t), ())


def allbytes():
    """Every operand byte value for one instruction of each addressing mode, and every high byte."""
    pick = {'6502': ['lda', 'ldx', 'jmp'], '65c02': ['lda', 'stz', 'jmp'], '6803': ['ldaa', 'ldx'], '6303': ['ldaa', 'std'],
            '68705': ['lda', 'jsr'], '6811': ['ldaa', 'ldy'], '68908': ['lda', 'ldhx', 'sthx']}
    for cpu in CPUS:
        for n in pick[cpu]:
            if n not in isa.TABLE[cpu]:
                continue
            for s in syntaxes(cpu):
                if '%s' in s:
                    for v in itertools.chain(range(256), range(0x100, 0x10000, 0x101)):
                        yield (head(cpu) + ' %s %s\n' % (n, s.replace('%s', str(v))), ())


def f8_simple():
    h = head('f8')
    for n in sorted(isa.F8_IMP):
        for f in (str.lower, str.upper, str.capitalize):
            yield (h + ' %s\n' % f(n), ())
            yield (h + 'l %s\n dc.w l\n' % f(n), ())
    for n in sorted(isa.F8_BYTE):
        for v in list(range(-2, 260)) + [0xffff, 0x10000]:
            yield (h + ' %s %d\n' % (n, v), ())
    for n in sorted(isa.F8_WORD):
        for v in [-1, 0, 1, 255, 256, 0x1234, 0x7fff, 0x8000, 0xffff, 0x10000]:
            for f in (str.lower, str.upper):
                yield (h + ' %s %d\n' % (f(n), v), ())
    for n in sorted(isa.F8_SREG):
        for v in [str(i) for i in range(-1, 18)] + sorted(isa.F8_SREGNAME):
            for f in (str.lower, str.upper):
                yield (h + ' %s %s\n' % (f(n), v), ())
                yield (h + ' %s %s\n' % (n, f(v)), ())
    for n in sorted(isa.F8_PORT) + ['lis', 'lisl', 'lisu', 'sl', 'sr']:
        for v in range(-1, 18):
            for f in (str.lower, str.upper):
                yield (h + ' %s %d\n' % (f(n), v), ())
    for n in ('bf', 'bt'):
        for v in range(-1, 18):
            for t in ('.', '.+10', '.-20', '$1010'):
                yield (h + ' %s %d,%s\n' % (n, v, t), ())
    for n in sorted(isa.F8_BRANCH):
        for t in ('.', '.+10', '.-20', '$1010', '$1080', '$1081', '$f81', '$f80'):
            for f in (str.lower, str.upper):
                yield (h + ' %s %s\n' % (f(n), t), ())
    for n, vals in (('res', ['0', '3', '3,$aa', '2,300']), ('db', ['1', '1,2', '"ab"', '255', '256']), ('dw', ['$1234', '1,2']),
                    ('dd', ['$12345678', '1,2'])):
        for v in vals:
            for f in (str.lower, str.upper):
                yield (h + ' %s %s\n' % (f(n), v), ())


def f8_lr():
    regs = sorted(isa.F8_REGNAME) + sorted(isa.F8_SREGNAME) + [str(i) for i in range(-1, 16)] + ['$a', 'rr', '8+1', 'zz']
    for a in regs:
        for b in regs:
            for sp in ('%s,%s', '%s, %s'):
                yield (head('f8') + 'rr = 5\n lr ' + sp % (a, b) + '\n', ())
            yield (head('f8') + 'rr = 5\n LR ' + '%s,%s' % (a.upper() if a not in ('rr', 'zz') else a,
                                                           b.upper() if b not in ('rr', 'zz') else b) + '\n', ())


def foreign():
    """Every mnemonic of every processor on every other processor."""
    names = sorted({n for c in CPUS + ['f8'] for n in isa.TABLE[c]} | set(isa.F8_BYTE) | set(isa.F8_WORD) | set(isa.F8_BRANCH))
    for cpu in CPUS + ['f8']:
        for n in names:
            if (cpu, n) in {('65c02', 'nop')} or n in ('aim', 'oim', 'eim', 'tim'):
                continue
            for opnd in ('', ' $12', ' #$12') if cpu != 'f8' else ('', ' $12'):
                if cpu == 'f8' and n in isa.F8_IMP and opnd:
                    continue
                if cpu == 'f8' and n == 'ds':
                    continue
                yield (head(cpu) + ' %s%s\n' % (n, opnd), ())


def sequences():
    """Three instructions in a row: encodings do not depend on neighbours."""
    seq = {'6502': [' nop', ' lda #1', ' lda $12', ' lda $1234,x', ' lda ($12),y', ' bne .', ' jmp ($1234)'],
           '65c02': [' inx', ' lda ($12)', ' jmp ($1234,x)', ' bbr0 $12,.', ' stz $12', ' bra .', ' rmb7 $10'],
           '6803': [' nop', ' ldaa #1', ' ldx #$1234', ' staa $12', ' jsr $1234', ' bne .', ' addd 5,x'],
           '6303': [' xgdx', ' ldaa #1', ' slp', ' staa $12', ' jsr $1234', ' bne .', ' addd 5,x'],
           '68705': [' nop', ' lda #1', ' brset 3,$12,.', ' bset 1,$20', ' lda ,x', ' bne .', ' jmp $1234'],
           '6811': [' iny', ' ldaa 5,y', ' brset 5,x,$12,.', ' bset $20,$1', ' cpy #$1234', ' bne .', ' jmp $1234'],
           '68908': [' nop', ' lda 5,sp', ' brset 3,$12,.', ' bset 1,$20', ' cbeq #$12,.', ' ldhx #$1234', ' lda $1234,sp'],
           'f8': [' nop', ' lr a,5', ' li 3', ' jmp $1234', ' bnz .', ' lr h,dc', ' bf 4,.']}
    for cpu, al in seq.items():
        for w in itertools.product(al, repeat=3):
            yield (head(cpu) + '\n'.join(w) + '\n', ())


def alike():
    """Symbols whose names look like registers, in brackets and behind a comma."""
    for cpu, ins in (('68705', ('lda', 'sta', 'jmp')), ('6811', ('ldaa', 'staa', 'jmp', 'ldy')), ('68908', ('lda', 'sta', 'jmp', 'cphx')), ('6803', ('ldaa', 'jmp')), ('6502', ('lda', 'jmp')), ('65c02', ('lda', 'jmp'))):
        for n in ('x', 'y', 'sp', 's', 'p', 'q', 'qp', 'rp', 'xp', 'yp', 'xx', 'yy', 'x1', 'sx', 'ps', 'spx', 'ssp', '_x', 'X', 'Y', 'SP', 'sP', 'Xx'):
            for f in ('[%s+1]', '[%s+k]', '[%s+$123]', '[%s]', '[%s-1]', '[1+%s]', '[%s+1]+1', '%s', '%s+1', '#[%s+1]', '[[%s+1]]', '[%s*1]', '<[%s+1]', '1,%s', '1+%s', '%s,x', '(%s)', '(%s,x)', '[%s+1],x'):
                if n.lower() in ('x', 'y', 'sp') and f in ('[%s+1]+1', '[[%s+1]]', '<[%s+1]', '[%s+1],x'):
                    continue                # undocumented whether the brackets group or index
                for i in ins:
                    yield (head(cpu) + '%s = $34\nk = 2\n %s %s\n dc.b $ee\n' % (n, i, f.replace('%s', n)), ())


def names():
    """PROCESSOR spellings."""
    sp = sorted(set(isa.PROCESSOR) | {'6809', '6301', '6502c', '', 'Hd6303', '65C02x', '68Hc11', '68HC908', '6800', 'z80'})
    for p in sp:
        for body in (' nop\n', ' dc.w $1234\n', ' jmp $1234\n', ''):
            yield (' processor %s\n org 0\n%s' % (p, body), ())
            for q in sp:
                yield (' processor %s\n processor %s\n org 0\n%s' % (p, q, body), ())


def spaces(tier):
    big = tier == 'thorough'
    vals = VALUES + ['-1', '-$80', '2', '$fe', '$101', '$7fff', '$8000', '$fffe'] if big else VALUES
    return [
        progs('operands', '7 processors x all mnemonics x all operand forms x %d values' % len(vals), lambda: single(vals)),
        progs('lists', 'all mnemonics x operand lists of 2..4 operands', lambda: lists(['2', '$40', '$2b', '$7f', '$100'] if big else ['2', '$40', '$2b'])),
        progs('letter-case', 'mnemonics and registers in different letter case', letter_case),
        progs('symbols', 'operands that are symbols, also ones named like registers', symbols),
        progs('alike', '6 processors x 23 symbol names x 19 operands', alike),
        progs('bits', 'bit numbers -1..9, addresses, all masks', bits),
        progs('operand-bytes', 'every operand byte and 255 words for representative instructions', allbytes),
        progs('f8', 'F8: all mnemonics, registers, ports and operand ranges', f8_simple),
        progs('f8-lr', 'F8: LR with all pairs of registers', f8_lr),
        progs('foreign', 'every mnemonic of any processor on every processor', foreign),
        progs('sequences', 'all sequences of three of seven instructions per processor', sequences),
        progs('processors', 'spellings of PROCESSOR and pairs of them', names),
    ]
