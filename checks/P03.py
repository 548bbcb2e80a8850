"""P03: operand widths."""
import itertools

import isa
from common import progs
from gen import CPUS, head, mnemonics, syntaxes

EDGE = [-(1 << 32) - 1, -0x10001, -0x10000, -0xffff, -0x8001, -0x8000, -0x101, -0x100, -0xff, -0x81, -0x80, -2, -1, 0, 1, 2, 0x7f, 0x80,
        0xfe, 0xff, 0x100, 0x101, 0x1ff, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0xffffffff, 0x100000000,
        0x1000000ff, 1 << 62]
EDGE_S = [-0x10000, -0x101, -0x100, -0xff, -1, 0, 0x80, 0xff, 0x100, 0xffff, 0x10000]
EXT = ['0', '0x', '0y', 'i', 'ix', 'iy', 'in', 'd', 'b', 'z', 'bx', 'by', 'dx', 'zx', 'zy', 'e', 'w', 'a', 'ex', 'ax', 'wy', 'l', 'r', 'u', 's', 'q']


def num(v):
    return str(v) if v >= 0 else '0-%d' % -v


def forms(v):
    """The value as a literal, an earlier symbol, a later EQU, a later label-relative EQU, and a sum."""
    n = num(v)
    yield n, '', ''
    yield 'k', 'k equ %s\n' % n, ''
    yield 'k', '', 'k equ %s\n' % n
    yield 'k-[e-e]', '', 'e\nk equ %s\n' % n
    yield 'k', 'k set %s\n' % n, 'k set 1\n'


def reps(cpu):
    """One mnemonic for each distinct set of addressing modes."""
    seen = {}
    for n in mnemonics(cpu):
        ins = isa.TABLE[cpu][n]
        seen.setdefault((tuple(sorted(ins.ops)), ins.imod, ins.mask, ins.rel), n)
    return list(seen.values())


def width(edges, which):
    for cpu in CPUS:
        for n in which(cpu):
            for s in syntaxes(cpu):
                if '%s' not in s:
                    continue
                for v in edges:
                    for e, pre, post in forms(v):
                        for strict in ((), ('-S',)):
                            yield (head(cpu) + pre + ' %s %s\n nop\n' % (n, s.replace('%s', e)) + post, strict)


def forced(edges, which):
    for cpu in CPUS:
        for n in which(cpu):
            for x in EXT:
                for s in syntaxes(cpu):
                    for v in edges if '%s' in s else [0]:
                        yield (head(cpu) + ' %s.%s %s\n' % (n, x, s.replace('%s', num(v))), ())
                        if '%s' in s:
                            yield (head(cpu) + ' %s.%s %s\nk = %s\n' % (n, x, s.replace('%s', 'k'), num(v)), ())


def forced_strict():
    for cpu in CPUS:
        for n in reps(cpu):
            for x in ('b', 'w', 'wx', 'wy'):
                for s in ('%s', '%s,x', '%s,y', '%s,sp'):
                    for v in EDGE:
                        yield (head(cpu) + ' %s.%s %s\n' % (n, x, s.replace('%s', num(v))), ('-S',))


def forced_case():
    """Extensions in other spellings."""
    for cpu in CPUS:
        for n in reps(cpu):
            for x in EXT:
                for y in {x.upper(), x.capitalize(), x[:-1] + x[-1].upper()} - {x}:
                    for s in syntaxes(cpu):
                        if '%s' in s:
                            yield (head(cpu) + ' %s.%s %s\n' % (n, y, s.replace('%s', '$12')), ())


def lower(edges):
    """Zero page label reached from both sides: size depends on when it is known."""
    for cpu in CPUS:
        for n in reps(cpu):
            for s in ('%s', '%s,x', '%s,y'):
                for org in edges:
                    o = s.replace('%s', 't')
                    yield (head(cpu, num(org)) + 't ds 1\n %s %s\n' % (n, o), ())
                    yield (head(cpu, num(org)) + ' %s %s\nt ds 1\n' % (n, o), ())
                    yield (head(cpu) + ' seg.u z\n org %s\nt ds 1\n seg code\n org $1000\n %s %s\n' % (num(org), n, o), ())
                    yield (head(cpu) + ' %s %s\n seg.u z\n org %s\nt ds 1\n' % (n, o, num(org)), ())


def data():
    dirs = [' dc %s', ' dc.b %s', ' dc.w %s', ' dc.l %s', ' dc.s %s', ' byte %s', ' word %s', ' long %s', ' .byte %s', ' .word %s',
            ' dc.b 1,%s,2', ' dc.w 1,%s,2', ' dc.s 1,%s', ' ds 2,%s', ' ds.w 2,%s', ' ds.l 2,%s', 'f eqm ..+1\n dv.b f %s',
            'f eqm ..+1\n dv.w f %s', 'f eqm ..-1\n dv.s f %s', 'f eqm ..*2\n dv.l f %s', ' org 8,%s\n dc.b 1\n ds 1', ' align 8,%s',
            'f eqm 0\n dv.b f %s', 'f eqm ..&255\n dv.b f %s']
    for cpu in ('6502', '6803', '68908'):
        for d in dirs:
            for v in EDGE:
                for e, pre, post in forms(v):
                    for strict in ((), ('-S',)):
                        yield (head(cpu, '4') + pre + ' dc.b 9\n' + d.replace('%s', e) + '\n' + post, strict)


def bitfields():
    for cpu in CPUS:
        for n in mnemonics(cpu):
            ins = isa.TABLE[cpu][n]
            if not (ins.imod or ins.mask or ins.rel or isa.AM['BYTEREL'] in ins.ops):
                continue
            for v in EDGE + [3, 7, 8, 9, -3]:
                for e, pre, post in forms(v):
                    lists = ['%s,$10', '3,%s'] if ins.imod else ['%s,1', '$10,%s', '%s,x,1', '$10,x,%s', '$10,y,%s', '%s,y,1'] if ins.mask else \
                        ['%s', '#%s', '%s,x', '%s,sp', '(%s,x)', '0,x']
                    for l in lists:
                        rel = ',.' if ins.rel or isa.AM['BYTEREL'] in ins.ops else ''
                        yield (head(cpu) + pre + ' %s %s%s\n' % (n, l.replace('%s', e), rel) + post, ())


def f8():
    for n in sorted(isa.F8_BYTE) + sorted(isa.F8_WORD) + sorted(isa.F8_SREG) + sorted(isa.F8_PORT) + ['lis', 'lisl', 'lisu', 'sl', 'sr']:
        for v in EDGE + [3, 4, 7, 8, 9, 14, 15, 16]:
            for e, pre, post in forms(v):
                yield (head('f8') + pre + ' %s %s\n' % (n, e) + post, ())


def ranges(limit):
    """Every value from -limit to limit in byte, immediate and address fields."""
    for cpu, ins in (('6502', ('lda #%s', 'lda %s', 'lda (%s),y', 'jmp %s', 'lda.b %s', 'lda.w %s', 'sta %s,y', 'stx %s,y')), ('6803', ('ldaa #%s', 'ldaa %s', 'ldaa %s,x', 'ldx #%s')),
                     ('68908', ('lda %s,sp', 'lda %s,x', 'ais #%s')), ('6811', ('ldaa %s,y', 'ldy #%s')), ('65c02', ('lda (%s)', 'stz %s')), ('68705', ('lda %s,x', 'clr %s,x'))):
        for i in ins + ('dc.b %s', 'dc.w %s'):
            for v in range(-limit, limit + 1):
                yield (head(cpu) + ' ' + i.replace('%s', num(v)) + '\n', ())


def spaces(tier):
    big = tier == 'thorough'
    all_ = mnemonics if big else reps
    return [
        progs('widths', '7 processors x %s x operand forms x %d boundary values x 5 ways of defining the value x strict checking'
              % ('all mnemonics' if big else 'a mnemonic of each set of addressing modes', len(EDGE if big else EDGE)),
              lambda: width(EDGE if big else EDGE, all_)),
        progs('forced', '26 extensions x %s x all operand forms x %d values, earlier and later definitions' % ('all mnemonics' if big else 'a mnemonic of each set of addressing modes', len(EDGE if big else EDGE_S)),
              lambda: forced(EDGE if big else EDGE_S, all_)),
        progs('forced-case', '26 extensions in upper and mixed case', forced_case),
        progs('forced-strict', 'forced widths with strict checking', forced_strict),
        progs('zero-page', 'labels at addresses around the width boundaries, before and after their use', lambda: lower([0, 0x7f, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x101, 0xfffd, 0xffff, 0x10000])),
        progs('data', 'data directives x boundary values x definitions x strict checking x 3 byte orders', data),
        progs('bit-fields', 'bit numbers, masks and addresses of bit instructions', bitfields),
        progs('f8', 'F8 operand ranges', f8),
        progs('ranges', 'every value from -%d to %d' % ((70000, 70000) if big else (600, 600)), lambda: ranges(70000 if big else 600)),
    ]
