"""P09: data directives."""
import itertools

import scale
from common import Space, prog, proglist, progs, texts, words

CPU = ['6502', '6803', 'F8', '68HC11', '65c02', 'HD6303', '68705', '68908']
P = ' processor 6502\n org $1000\n'
PB = ' processor 6803\n org $1000\n'

DIRS = ['dc', 'dc.b', 'dc.w', 'dc.l', 'dc.s', 'byte', 'word', 'long', '.byte', '.word', '.long', 'DC.B', 'Dc.W', 'dc.B', 'dc.W', 'dc.L', 'dc.S', 'dc.bx', 'byte.w', 'byte.l', 'byte.b', 'word.b', 'word.l', 'word.w', 'long.b', 'long.w', 'byte.s', 'word.s', 'long.s']
VALS = ['0', '1', '$7f', '$80', '$ff', '-1', '-128', '$100', '-255', '-256', '$1234', '$ffff', '-$ffff', '$10000', '$12345678', '$fffffffff', '-2', '"A"', "'A", '"AB"', '""', '"hello world"', 's', 'k', '.', 'fwd', 'e']


def pre(cpu):
    return ' processor %s\n org $1000\ns set "xyz"\nk = $1234\ne eqm .+1\n' % cpu


def single():
    for c in CPU:
        ds = DIRS + (['db', 'dw', 'dd', 'db.w', 'db.l', 'db.s', 'dw.b', 'dw.l', 'dw.s', 'dd.b', 'dd.w', 'dd.s', 'db.b', 'dw.w', 'dd.l', 'DB', 'Dw'] if c == 'F8' else [])
        for d in ds:
            for v in VALS:
                yield (pre(c) + 'l %s %s\nm dc.b 1\nfwd = $2345\n' % (d, v), ())
                yield (pre(c) + 'l %s %s\nm dc.b 1\nfwd = $2345\n' % (d, v), ('-S',))
                yield (pre(c) + ' %s 1,%s,2\n dc.w .\nfwd dc.b 1\n' % (d, v), ())


def lists():
    """All lists of up to three values."""
    for c in ('6502', '6803'):
        for d in ('dc.b', 'dc.w', 'dc.l', 'dc.s', 'word'):
            for w in words(['0', '$7f', '-1', '$12', '"AB"', '""', 's', 'k-$1200', '.-$1000', '"a,b;c"', "','"[:2]], 3, 1):
                yield (pre(c) + ' %s %s\n dc.w .\n' % (d, ','.join(w)), ())


def counts():
    """Number of operands and string lengths around the buffer size."""
    rng = list(range(1, 40)) + list(range(200, 212))
    for d, n1 in (('dc.b', 1), ('dc.w', 2), ('dc.l', 4), ('dc.s', 2)):
        for n in rng:
            v = [str(i % 10) for i in range(n)]
            yield (P + ' %s %s\nx dc.w x\n' % (d, ','.join(v)), ())
            yield (PB + ' %s %s\nx dc.w x\n' % (d, ','.join(v)), ())
        for n in list(range(0, 20)) + list(range(240, 270)) + list(range(500, 520)) + list(range(900, 1015)):
            s = ''.join(chr(33 + i % 90) for i in range(n)).replace('"', 'q')
            yield (P + ' %s "%s"\nx dc.w x\n' % (d, s), ())
            yield (P + ' %s 1,"%s"\nx dc.w x\n' % (d, s[:1005]), ())
        for n in range(2, 12):
            s = ('"' + 'abcdefghij' * 10 + '"')
            yield (P + ' %s %s\nx dc.w x\n' % (d, ','.join([s] * n)[:1000].rsplit(',', 1)[0]), ())
        # a string symbol repeated: more bytes in one statement than a line is long
        for ln in (1, 2, 3, 7, 100, 250, 255, 256, 500, 900):
            for k in (1, 2, 3, 4, 5, 8, 10, 50, 100):
                yield (P + 's set "%s"\n %s %s\nx dc.w x\n' % ('Az' * (ln // 2) + 'Q' * (ln & 1), d, ','.join(['s'] * k)), ())
                yield (P + 's set "%s"\n %s %s,7\nx dc.w x\n' % ('Az' * (ln // 2) + 'Q' * (ln & 1), d, ','.join(['1,s'] * k)), ())


def thousand():
    """Every operand count up to 500 (as long as the line may be), values in order."""
    for n in range(1, 501):
        yield (P + ' dc.b ' + ','.join(str(i % 10) for i in range(n)) + '\nx dc.w x\n', ())
        yield (PB + ' dc.w ' + ','.join(str(i % 10) for i in range(n)) + '\nx dc.w x\n', ())
        yield (P + ' dc.l ' + ','.join(str((i * 3) % 10) for i in range(n)) + '\nx dc.w x\n', ())
        yield (P + 'f eqm ..*2\n dv.w f ' + ','.join(str((i * 3) % 10) for i in range(n)) + '\nx dc.w x\n', ())


def dv():
    fns = ['..', '..+1', '..*..', '-..', '<..', '>..', '[..+1]*2', '..&$f', 'k', '.', '..+.', '..-fwd', 'g', '~..&$ff', '..>5', '..&&1', '"A"', 's']
    for c in ('6502', '6803'):
        for d in ('dv', 'dv.b', 'dv.w', 'dv.l', 'dv.s', 'DV.W'):
            for f in fns:
                for a in ('0', '1', '5,6', '$12,"AB",-3', '"hello"', 's', 'fwd', '.,.', '""', 'g', "'A,'B"):
                    yield (pre(c) + 'g = 3\nf eqm %s\n %s f %s\nx dc.w x\nfwd = $21\n' % (f, d, a), ())
    for n in (1, 2, 255, 256, 257, 1020, 1021, 1022, 1023, 1024, 1025):
        yield (P + 's set "%s"\nf eqm ..+1\n dv f %s\nx dc.w x\n' % ('AB' * (n // 8), ','.join(['s'] * 4)), ())
        yield (P + 's set "%s"\nf eqm ..+1\n dv.l f %s\nx dc.w x\n' % ('AB' * (n // 8), ','.join(['s'] * 4)), ())
    # redefinition between uses
    yield (P + 'f eqm ..+1\n dv f 1\nf eqm ..+2\n dv f 1\n dv f 2,3\n', ())
    yield (P + 'f eqm ..+1\ng eqm f+f\n dv g 1,2\n', ())
    yield (P + ' dv f 1\nf eqm ..+1\n', ())
    yield (P + ' dv g 1\n', ())
    yield (P + 'g = 5\n dv g 1\n', ())


def ds():
    for c in ('6502', '6803', 'F8'):
        for e, sz in (('', 1), ('.b', 1), ('.w', 2), ('.l', 4)):
            for f in ('', ',0', ',1', ',$12', ',$1234', ',-1', ',$12345678', ',"A"', ',k', ',fwd'):
                for n in (0, 1, 2, 3, 4, 5, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049):
                    yield (pre(c) + ' ds%s %d%s\nx dc.w x\nfwd = $55\n' % (e, n, f), ())
    for n in range(0, 2101):
        yield (P + ' ds %d,$a7\nx dc.w x\n' % n, ())
        yield (P + ' ds.w %d,$a734\nx dc.w x\n' % n, ())
        yield (PB + ' ds.l %d,$a7341256\nx dc.w x\n' % n, ())


def hexes():
    H = '0123456789abcdefABCDEF'
    for a in H:
        for b in H:
            yield (P + ' hex %s%s\n dc.w .\n' % (a, b), ())
    for n in range(0, 500):
        t = ''.join('%02x' % (i * 37 & 255) for i in range(n))
        yield (P + ' hex %s\nx dc.w x\n' % t, ())
        yield (P + ' hex %s\nx dc.w x\n' % ' '.join(t[i:i + 2] for i in range(0, min(len(t), 660), 2)), ())
        yield (P + ' hex %s\nx dc.w x\n' % ' '.join(t[i:i + 6] for i in range(0, min(len(t), 660), 6)), ())


def together():
    """Directives one after the other: nothing of one shows in the next."""
    st = [' dc.b 1,2\n', ' dc.w $1234\n', ' dc.l $12345678\n', ' dc.s $5678\n', ' ds 3,7\n', ' ds.w 2,$abcd\n', ' hex 0a0b\n', ' dv f 1,2\n', ' dv.w f "AB"\n', 's set "abc"\n', ' dc.b s\n', ' dc "xy",s\n',
          'f eqm ..*3\n', 's set "pqrs"\n', ' dc.w fwd\n', ' lda #1\n']
    return texts(P + 's set "Z"\nf eqm ..+1\n', st, 4, 1, tail='fwd = $4321\n')


def swapped():
    for c in CPU:
        for v in (0, 1, 0xff, 0x100, 0x1234, 0xffff, 0x10000, 0x123456):
            for d in ('dc.s', 'dc.S', 'dv.s f', 'dc.w', 'dc.l', 'word', 'long', 'dv.w f', 'dv.l f', 'ds.w 2,', 'ds.l 2,', 'ds 2,'):
                yield (' processor %s\n org 0\nf eqm ..\n %s %d\n' % (c, d, v), ())
                yield (' processor %s\n org 0\nf eqm ..\n %s v\nv = %d\n' % (c, d, v), ())


def bytevalues():
    """Strings of every byte value, alone and next to others, in every size and byte order."""
    for c in range(1, 256):
        if c in (10, 13, 34, 0x80) or c == 26:
            continue
        ch = chr(c)
        for cpu in ('6502', '6803'):
            for d in ('dc.b', 'dc.w', 'dc.l', 'dc.s', 'dv f', 'dv.w f', 'dv.l f', 'dv.s f'):
                for g in ('..', '..*$10203', '-..', '~..'):
                    if g == '..' or d[:2] == 'dv':
                        yield (' processor %s\n org 0\nf eqm %s\n %s "%sA%s"\n dc.w .\n' % (cpu, g, d, ch, ch), ())


def large():
    for c in ('6502', '6803'):
        for e, sz in (('', 1), ('.b', 1), ('.w', 2), ('.l', 4)):
            for n in (16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000):
                for f in ('', ',$12345678', ',fwd', ',-2'):
                    yield (pre(c) + 'l ds%s %d%s\nx dc.l x,l\nfwd = $55\n' % (e, n, f), ())


def spaces(tier):
    return [
        progs('single', '%d directives x %d operands x 8 processors, plain and strict, alone and within a list' % (len(DIRS), len(VALS)), single),
        progs('lists', 'lists of 1..3 operands out of 11, five directives, both byte orders', lists),
        progs('counts', 'operand counts, string lengths 0..1014 and total lengths around the buffer size', counts, chunk=8),
        progs('every-count', 'operand counts 1..500', thousand, proglist, chunk=8),
        progs('dv', '18 expressions x 6 directives x 11 lists', dv),
        progs('ds', 'sizes 0..2100 in bytes, words and longs; fill values', ds),
        progs('hex', 'every pair of digits; 0..499 bytes with three groupings', hexes),
        progs('sequences', 'words of length 1..4 over 16 statements', together),
        progs('byte-values', 'strings with every byte value x 8 directives x 4 expressions x both byte orders', bytevalues),
        progs('large', 'DS of 16383..70000 elements', large, chunk=8),
        progs('byte-order', 'word, long and swapped data on every processor', swapped),
        Space('scale', 'up to 131073 data lines', lambda: scale.data(scale.counts(tier == 'thorough')), scale.exactly, chunk=1),
    ]
