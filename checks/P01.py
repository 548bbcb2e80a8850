"""P01: expressions."""
import itertools

import gen
from common import Space, batches, prog, progs, values

BIN = ['*', '/', '%', '+', '-', '<<', '>>', '<', '<=', '>', '>=', '==', '=', '!=', '&', '^', '|', '&&', '||', '?']
UN = ['', '-', '~', '!', '<', '>']

PRE = 'a = 3\nb = $1234\nc = -2\nz = 0\nbig = $7fffffffffffffff\nmin = $8000000000000000\nstr set "A"\n'
ENV = {'a': (3, False, None), 'b': (0x1234, False, None), 'c': (-2, False, None), 'z': (0, False, None),
       'big': ((1 << 63) - 1, False, None), 'min': (-(1 << 63), False, None), 'str': (65, False, 'A'),
       '.': (0x1000, False, None)}

SCRIPT = values(PRE, ENV)

EDGE = [0, 1, 2, 3, 7, 8, 10, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x10000,
        0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, (1 << 62), (1 << 63) - 1, (1 << 63), (1 << 64) - 1,
        0x0123456789abcdef, 0xfedcba9876543210]


def lit(v):
    return '$%x' % v


def edge_pairs():
    for op in BIN:
        for x in EDGE:
            for y in EDGE:
                yield '%s%s%s' % (lit(x), op, lit(y))
    for u in UN[1:]:
        for x in EDGE:
            yield u + lit(x)
            for u2 in UN[1:]:
                yield u + u2 + lit(x) if u + u2 not in ('<<', '>>') else u + ' ' + u2 + lit(x)


def edge_syms():
    names = ['a', 'b', 'c', 'z', 'big', 'min', 'str', '.', '"AB"', "'Z", '*']
    for op in BIN:
        for x in names:
            for y in names:
                yield '%s %s %s' % (x, op, y)
                if '/*' not in x + op + y and '*/' not in x + op + y:
                    yield '%s%s%s' % (x, op, y)
    for u in UN[1:]:
        for x in names:
            yield u + x


def triples(vals):
    for o1 in BIN:
        for o2 in BIN:
            for x, y, w in itertools.product(vals, repeat=3):
                yield '%s%s%s%s%s' % (x, o1, y, o2, w)


def quads(vals):
    for o in itertools.product(BIN, repeat=3):
        for v in vals:
            yield '%s%s%s%s%s%s%s' % (v[0], o[0], v[1], o[1], v[2], o[2], v[3])


def quins(vals):
    # one operator of each level (and both of the ones sharing a level)
    ops = ['*', '%', '+', '-', '<<', '<', '==', '&', '^', '|', '&&', '||', '?']
    for o in itertools.product(ops, repeat=4):
        for v in vals:
            yield '%s%s%s%s%s%s%s%s%s' % (v[0], o[0], v[1], o[1], v[2], o[2], v[3], o[3], v[4])


def unaries(vals):
    for o1 in BIN:
        for o2 in BIN:
            for u in itertools.product(UN, repeat=3):
                for v in vals:
                    s = u[0] + v[0] + o1 + ' ' + u[1] + v[1] + o2 + ' ' + u[2] + v[2]
                    yield s


def unary_tight(vals):
    """No blanks: operator and unary operator may only be adjacent where they do not form another token."""
    for o1 in BIN:
        for u in itertools.product(UN, repeat=2):
            if (o1 + u[1])[:2] in ('<<', '>>', '<=', '>=', '==', '!=', '&&', '||') and len(o1) == 1:
                continue
            for v in vals:
                yield u[0] + v[0] + o1 + u[1] + v[1]


def brackets(vals):
    for o1, o2 in itertools.product(BIN, repeat=2):
        for v in vals:
            x, y, w = v
            for l, r in ('[]', '()'):
                yield '%s%s%s%s%s%s%s' % (l, x, o1, y, r, o2, w)
                yield '%s%s%s%s%s%s%s' % (x, o1, l, y, o2, w, r)
                yield '-%s%s%s%s%s%s%s' % (l, x, o1, y, r, o2, w)
                yield '%s%s%s%s%s%s%s' % (x, o1, '~' + l, y, o2, w, r)
    for o in itertools.product(['*', '+', '<<', '<', '&', '||', '-'], repeat=3):
        for v in vals:
            x, y, w = v
            yield '[%s%s%s]%s[%s%s%s]' % (x, o[0], y, o[1], y, o[2], w)
            yield '%s%s[%s%s[%s%s%s]]' % (x, o[0], y, o[1], y, o[2], w)
            yield '[[%s%s%s]%s%s]%s%s' % (x, o[0], y, o[1], y, o[2], w)
            yield '[%s%s(%s%s%s)]%s%s' % (x, o[0], y, o[1], y, o[2], w)


def notations(limit):
    vals = list(range(0, limit)) + sorted({(1 << k) + d for k in range(8, 65) for d in (-1, 0, 1)})
    for v in vals:
        yield '%d' % v
        yield '$%x' % v
        yield '$%X' % v
        yield '0x%x' % v
        yield '%%%s' % bin(v)[2:]
        yield '0%o' % v
        yield '$000%x' % v
        yield '%%00%s' % bin(v)[2:]
        yield '00%o' % v
    for c in range(33, 127):
        if chr(c) not in ';':
            yield "'%c" % c
            yield "'%c + 1" % c
    yield "';"
    for c in range(129, 256):
        for f in ("'%s", "'%s + 1", "-'%s", "'%s * $100", '"%s"', '"%sx" - 1', '"x%s"', '~"%s"', '"%s%s" >> 8'):
            yield f.replace('%s', chr(c))
    for c in range(33, 127):
        if chr(c) != '"':
            yield '"%c"' % c
            yield '"%cx" - 1' % c
    for n in range(0, 12):
        yield '"%s"' % 'ABCDEFGHIJKL'[:n]
        yield '-"%s"' % 'ABCDEFGHIJKL'[:n] if n else '0'
    for v in (0, 1, 9, 10, 255, -1, 1 << 40):
        yield '[%s]d' % ('%d' % v if v >= 0 else '0-%d' % -v)
        yield '[%s]d + 1' % ('%d' % v if v >= 0 else '0-%d' % -v)


def spacing():
    for o1 in BIN:
        for o2 in BIN[::2]:
            for sp in itertools.product(('', ' ', '  '), repeat=4):
                yield '5%s%s%sa%s%s%s9' % (sp[0], o1, sp[1], sp[2], o2, sp[3])
    for u in UN[1:]:
        for u2 in UN[1:]:
            for sp in itertools.product(('', ' '), repeat=4):
                s = u + sp[0] + u2 + sp[1] + '$55' + sp[2] + '+' + sp[3] + '1'
                if (u + u2 in ('<<', '>>')) and not sp[0]:
                    continue
                yield s
    for l, r in ('[]', '()'):
        for sp in itertools.product(('', ' '), repeat=6):
            yield '%s%s%s5%s+%s2%s%s%s*3' % (sp[0], l, sp[1], sp[2], sp[3], sp[4], r, sp[5])


def deep():
    for n in range(1, 30):
        yield '[' * n + '5' + ']' * n
        yield '-' * n + '5'
        yield '~' * n + '5'
        yield '!' * n + '5'
        yield '[1+' * (n // 2) + '5' + ']' * (n // 2)
    for n in range(1, 61):
        yield '+'.join(['3'] * n)
        yield '-'.join(['3'] * n)
        yield '*'.join(['3'] * n)
        yield '^'.join(str(i) for i in range(1, n + 1))
    for n in range(2, 14):
        ops = ['?', '||', '&&', '|', '^', '&', '==', '<', '<<', '+', '*']
        yield ''.join('%d%s' % (i + 1, ops[i % len(ops)]) for i in range(min(n, 11))) + '7'


HEAD = ' processor 6502\n org $100\nk equ 5\nm set 2\n'
POS = [
    ' dc.b %s\n', ' dc.w %s\n', ' dc.l %s\n', ' byte %s,1\n', ' word 2,%s\n', ' long %s\n', ' dc.s %s\n',
    ' ds %s,$ee\n', ' ds 3,%s\n', ' ds.w %s\n', ' ds.l 2,%s\n', ' org $200+[%s]\n dc.b 1\n', ' rorg %s\nx dc.w x\n',
    ' align %s\n dc.b 1\n', ' align 16,%s\n', 'x equ %s\n dc.l x\n', 'x = %s\n dc.l x\n', 'x set %s\n dc.l x\n',
    'x eqm %s\n dc.l x\n dc.l x+1\n', ' if %s\n dc.b 1\n else\n dc.b 2\n endif\n', ' repeat %s\n dc.b 9\n repend\n',
    ' ifconst %s\n dc.b 7\n endif\n', ' lda #%s\n', ' lda %s\n', ' lda %s,x\n', ' ldx %s,y\n', ' sta [%s],x\n',
    ' jmp %s\n', ' bne $102+[[%s]&63]\n', 'f eqm ..+1\n dv.w f %s\n', 'f eqm [..]*[%s]\n dv.l f 1,2\n', ' org *,%s\n ds 1\n',
    ' echo %s\n dc.b 1\n', ' if 1\n dc.w %s\n eif\n', ' mac q\n dc.l {1}\n endm\n q %s\n', ' dc.l %s,%s\n', ' lda (%s),y\n',
    ' lda (%s,x)\n', ' jmp (%s)\n',
]
PEXPR = ['0', '1', '7', '255', '256', '-1', '1+2*3', '[1+2]*3', '10-3-2', '1<<4', '$1234>>4', '$1234&$ff', '<$1234', '>$1234',
         '6/2', '7%4', 'k', 'm', 'k+m*2', '~0&3', '!0', '!k', '1==1', '1!=1', 'k>m', 'k<m', '3&&4', '0||2', '1?9', '0?9',
         'l-$100', 'l', '.', '*', '.-$100', '"A"', "'A", '%1010', '017', '0x1f', '-k+300', 'fwd', 'fwd-fwd+1', '<fwd', 'und0', 'k*k-m',
         '1|6', '5^3', '3<<2>>1', '2+3<<1', '1<2', '2>=2', '2<=1', '100/7*7', '-7/2', '-7%3', '1/0', '5%0']


def positions():
    for p in POS:
        for e in PEXPR:
            yield (HEAD + 'l\n' + p.replace('%s', e) + 'fwd equ 6\n', ())
            yield (HEAD + 'l\n' + p.replace('%s', e) + 'fwd dc.b 1\n', ())


def threeval():
    """Operands not known in the first pass."""
    ops = ['0', '1', 'f0', 'f1', 'f5']
    for o1 in BIN:
        for x, y in itertools.product(ops, repeat=2):
            yield (' processor 6502\n org 0\n dc.l %s%s%s\nf0 = 0\nf1 = 1\nf5 = 5\n' % (x, o1, y), ())
            yield (' processor 6502\n org 0\n if %s%s%s\n dc.b 1\n else\n dc.b 2\n endif\nf0 = 0\nf1 = 1\nf5 = 5\n' % (x, o1, y), ())
            for o2 in ('&&', '||', '?', '+', '=='):
                for w in ('0', '1', 'f0', 'f1'):
                    yield (' processor 6502\n org 0\n dc.l %s%s%s%s%s\nf0 = 0\nf1 = 1\nf5 = 5\n' % (x, o1, y, o2, w), ())
            for u in UN[1:]:
                yield (' processor 6502\n org 0\n dc.l %s[%s%s%s]\nf0 = 0\nf1 = 1\nf5 = 5\n' % (u, x, o1, y), ())


NAMED = ['x', 'y', 'sp', 'X', 'Y', 'SP', 'Sp', 's', 'a', 'xy', 'x1', 'spx', '_x', 'd', 'r', '.x', 'e', 'l', 'h', 'on', 'b1', 'q0x1']
NAMED_EXPR = ['%s', '%s+1', '[%s+1]', '[%s+1]*2', '2*[%s+1]', '[[%s+1]]', '-[%s+1]', '[%s]', '[%s-1]', '[%s+k]', '[1+%s]', '<[%s+300]', '[%s+%s]', '%s*%s', '[ %s+1]', '%s-[%s+1]', '[%s]d', '!%s', '%s&&1', '1?%s']
NAMED_PLACES = [' dc.b <[%s]\n', ' dc.b %s\n', ' dc.w %s\n', ' dc.w 1,%s\n', ' dc.l %s,2\n', ' byte %s\n', ' word.w %s\n', ' ds %s,1\n', ' ds 2,%s\n', 'v = %s\n dc.w v\n', 'v set %s\n dc.w v\n', 'v eqm %s\n dc.w v\n', ' if %s\n dc.b 1\n else\n dc.b 2\n endif\n', ' repeat %s\n dc.b 1\n repend\n',
                ' org $200+[%s]\n dc.b 1\n', ' align %s\n dc.b 1\n', 'f eqm ..\n dv f %s\n', 'f eqm ..*[%s]\n dv.w f 1,2\n', ' mac w\n dc.w {1}\n endm\n w %s\n', ' rorg %s\nv dc.w v\n rend\n', '{I} #%s\n', '{I} #<[%s]\n', '{J} %s\n', 'v,%s dc.b 1\n', ' org $200,%s\n ds 2\n']
LOAD = {'6502': (' lda', ' jmp'), '65c02': (' lda', ' jmp'), '6803': (' ldaa', ' jmp'), '6303': (' ldaa', ' jmp'), '68705': (' lda', None), '6811': (' ldaa', None), '68908': (' lda', None), 'f8': (None, ' jmp')}


def named():
    """Symbols named like registers and parts of the notation, on every processor."""
    for cpu, n, e, p in itertools.product(gen.PNAME, NAMED, NAMED_EXPR, NAMED_PLACES):
        i, j = LOAD[cpu]
        if '{I}' in p and not i or '{J}' in p and not j or '{J}' in p and n.lower() in ('x', 'y', 'sp') and '[' in e:
            continue
        if p.startswith('v,') and (n == 'l' or ' ' in e):
            continue
        t = p.replace('{I}', i or '').replace('{J}', j or '').replace('%s', e.replace('%s', n))
        yield (' processor %s\n org $100\nk = 3\n%s = 5\n' % (gen.PNAME[cpu], n) + t, ())
        if e in ('%s+1', '[%s+1]', '[%s+k]'):
            yield (' processor %s\n org $100\nk = 3\n' % gen.PNAME[cpu] + t + '%s = 5\n' % n, ())


KINDS = ['7', '$1f', 'eq', 'se', 'em', 'lab', 'fwd', 'feq', 'fset', 'fem', 'de', 'me', 'st', '.lo', '2$', '.fl', '3$', '.', '*', '"AB"', "'A", '[eq+1]', 'em2', 'emf']
KIND_PRE = ' processor 6502\n org $1234\nlab\neq = 9\nse set 10\nse set se+1\nem eqm eq-4\nem2 eqm .-lab\nemf eqm feq+1\nst set "XY"\n.lo nop\n2$ nop\n'
KIND_POST = '.fl nop\n3$ nop\nfwd\nfeq = 13\nfset set 14\nfem eqm 15\n'


def kinds():
    """Operands of every kind around every operator."""
    for a, o, b in itertools.product(KINDS, BIN, KINDS):
        if (a, o) == ('*', '*') or (o, b) == ('*', '*') or '/*' in o + b or '*/' in a + o:
            t = '%s %s %s' % (a, o, b)
        else:
            t = a + o + b
        for place in (' dc.l %s\n', ' if %s\n dc.b 1\n else\n dc.b 2\n endif\n', 'v = %s\n dc.l v\n'):
            yield (KIND_PRE + place % t + KIND_POST, ('-Dde=12', '-Mme=eq+1'))


def string_values():
    """Strings as numbers: every length, one byte of another kind at every place."""
    for n in range(1, 11):
        for p in range(n):
            for b in (0x21, 0x7e, 0x7f, 0x81, 0xa5, 0xc3, 0xfe, 0xff):
                for base in ('A', '\xe1'):
                    s = base * p + chr(b) + base * (n - p - 1)
                    yield (' processor 6502\n org 0\n dc.l "%s"+0,["%s">>32]&$ffffffff\nv = "%s"-1\n dc.l v,v>>32\n' % (s, s, s), ())


def ex(name, bound, gen, n=48, chunk=16):
    return Space(name, bound, lambda: batches(gen(), n), SCRIPT, chunk=chunk)


def spaces(tier):
    big = tier == 'thorough'
    v3 = ['0', '1', '2', '3', '7', '$100', '$ffff', 'c'] + (['big', 'min', '63', '64', '$80000000', 'str'] if big else [])
    v4 = list(itertools.product(['1', '2', '7', '0'] if big else ['1', '2', '7'], repeat=4))
    uv = list(itertools.product(['0', '1', '$1234', 'min', '$80'] if big else ['0', '1', '$1234'], repeat=3))
    return [
        ex('constants', 'all notations of 0..%d and of 2^k-1, 2^k, 2^k+1 for k = 8..64; all characters; strings of length 0..11'
           % 65536, lambda: notations(65537)),
        ex('edge-pairs', '20 binary operators x 33x33 boundary values; 5 unary operators and their pairs', edge_pairs),
        ex('edge-symbols', '20 operators x 11x11 symbols, strings, characters, current address, with and without blanks', edge_syms),
        ex('edge-triples', 'a op b op c: 20x20 operators x %d^3 boundary values' % (14 if big else 8), lambda: triples([lit(v) for v in (EDGE[::2][-14:] if big else EDGE[-8:])])),
        ex('triples', 'a op b op c: 20x20 operators x %d^3 values' % len(v3), lambda: triples(v3)),
        ex('quads', 'a op b op c op d: 20^3 operators x %d value tuples' % len(v4), lambda: quads(v4)),
        ex('quins', 'five operands, 13^4 operators (every precedence level) x %d value tuples' % 4,
           lambda: quins([('1', '2', '3', '4', '5'), ('7', '3', '2', '1', '6'), ('0', '1', '0', '2', '1'), ('9', '4', '8', '3', '2')])),
        ex('unary', 'one optional unary operator per operand: 20x20x6^3 x %d value triples' % len(uv), lambda: unaries(uv)),
        ex('unary-tight', 'unary operators directly after binary operators',
           lambda: unary_tight([('1', '2'), ('$1234', '3'), ('0', 'c')])),
        ex('brackets', 'bracketed groupings of three and four operands, [] and ()',
           lambda: brackets([('1', '2', '3'), ('7', '3', '2'), ('2', '5', 'c')])),
        ex('spacing', 'blanks at every place of an expression', spacing),
        ex('deep', 'brackets, unary chains and operand chains up to the documented stack sizes', deep, n=1, chunk=16),
        progs('positions', '%d places where an expression is allowed x %d expressions x 2 definitions of a later symbol'
              % (len(POS), len(PEXPR)), positions),
        progs('names', '8 processors x %d symbol names (registers, digits, one letter) x %d expressions x %d places' % (len(NAMED), len(NAMED_EXPR), len(NAMED_PLACES)), named),
        progs('string-values', 'strings of length 1..10, 8 bytes at every place', string_values),
        progs('kinds', '%d kinds of operand in pairs x 20 operators x 3 places' % len(KINDS), kinds),
        progs('later-symbols', 'operators over operands known only in a later pass', threeval),
    ]
