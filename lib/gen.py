"""Generators shared by several checks."""
import itertools

import isa

CPUS = ['6502', '65c02', '6803', '6303', '68705', '6811', '68908']
PNAME = {'6502': '6502', '65c02': '65c02', '6803': '6803', '6303': 'HD6303', '68705': '68705', '6811': '68HC11',
         '68908': '68908', 'f8': 'F8'}

# HD6303 aim/oim/eim/tim and the 65c02 "nop operand" forms are not encodable as documented; see DESIGN.md
EXCLUDE = {('6303', x) for x in ('aim', 'oim', 'eim', 'tim')} | {('65c02', 'nop')}


def mnemonics(cpu):
    return [n for n in sorted(isa.TABLE[cpu]) if (cpu, n) not in EXCLUDE]


SYNTAX = ['', '#%s', '%s', '%s,x', '%s,y', '(%s)', '(%s,x)', '(%s),y', ',x', ',y', '(%s),x', '(%s,y)', '#%s,x', '#%s,y']
SYNTAX_SP = ['%s,sp', ',sp', '[x+%s]', '[y+%s]', '[sp+%s]']
SYNTAX_LIST = ['%s,%s', '%s,%s,%s', '%s,x,%s', '%s,y,%s', '%s,x,%s,%s', '%s,y,%s,%s', '%s,%s,%s,%s',
               '#%s,%s', '%s,sp,%s', '0,x,%s', '(%s,x),%s']


def head(cpu, org='$1000'):
    return ' processor %s\n org %s\n' % (PNAME[cpu], org)


def syntaxes(cpu):
    return SYNTAX + (SYNTAX_SP if cpu in ('68705', '6811', '68908') else SYNTAX_SP[:2])


def fill(syn, args):
    """Substitute operands one after the other; the last one is repeated."""
    out, i = '', 0
    while '%s' in syn:
        a, _, syn = syn.partition('%s')
        out += a + args[min(i, len(args) - 1)]
        i += 1
    return out + syn


def branches(cpu):
    """(operand template with %s for the target, mnemonic) of every relative branch."""
    out = []
    for n in mnemonics(cpu):
        ins = isa.TABLE[cpu][n]
        ops = ins.ops
        A = isa.AM
        if ins.imod and ins.rel:
            out += [(n, '3,$45,%s'), (n, '0,0,%s'), (n, '7,$ff,%s')]
        elif ins.mask and ins.rel:
            out += [(n, '$45,$0f,%s'), (n, '5,x,$0f,%s'), (n, '5,y,$0f,%s')]
        elif ins.rel:
            forms = {'IMM8': '#$12,%s', 'BYTEADR': '$45,%s', 'BYTEADRX': '5,x,%s', '0X': '0,x,%s', 'BYTEADR_SP': '5,sp,%s',
                     'INDBYTEX': '(5,x),%s', 'IMP': '%s'}
            for m in ops:
                f = forms.get(isa.MODES[m])
                if f:
                    out.append((n, f))
        elif A['BYTEREL'] in ops:
            out.append((n, '$45,%s'))
        elif A['REL'] in ops:
            out.append((n, '%s'))
    return out


F8_BR = [(n, '%s') for n in sorted(isa.F8_BRANCH)] + [('bf', '%d,%%s' % i) for i in (0, 5, 15)] + \
    [('bt', '%d,%%s' % i) for i in (0, 3, 7)]


def product(*a):
    return itertools.product(*a)


def ended():
    """END reached in macros called from macros, in the first file and in files it includes."""
    wrap = ['%s', ' if 1\n%s endif\n', ' if 0\n%s else\n dc.b 4\n endif\n', ' if late\n%s endif\n', ' repeat 2\n%s repend\n', ' if 1\n dc.b 5\n%s']
    for depth in range(0, 6):
        for at in range(0, depth + 1):
            for w in wrap:
                body = w % ' end\n'
                m = ''
                for i in range(depth, 0, -1):
                    m += ' mac m%d\n dc.b $%d0\n' % (i, i) + (body if i == at else '') + (' m%d {1}\n' % (i + 1) if i < depth else '') + ' dc.b $%d1,{1}\n endm\n' % i
                call = (' m1 7\n' if depth else '') + (body if at == 0 else '')
                for o in wrap[:5]:
                    c = o % (call + ' dc.b 8\n')
                    yield ((('a.asm', ' processor 6502\n org $100\n' + m + 'late = 1\n' + c + ' dc.b 9\nz dc.w z\n'),), ())
                    yield ((('a.asm', ' processor 6502\n org $100\n' + m + ' include "i"\n dc.b 9\nz dc.w z\n'), ('i', 'late = 1\n' + c + ' dc.b 6\n')), ())
                    yield ((('a.asm', ' processor 6502\n org $100\n' + m + ' mac q\n include "i"\n dc.b $a\n endm\n q\n dc.b 9\nz dc.w z\nlate = 1\n'), ('i', c + ' dc.b 6\n')), ())
