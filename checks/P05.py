"""P05: the passes end in a consistent fixed point."""
from common import progs, stable, stable_early, texts

P = ' processor 6502\n'

SIZES = ['a lda b\n', 'b lda a\n', 'c sta c,x\n', ' lda d\n', 'd = c-2\n', 'a = c+1\n', 'c = $80\n', ' ds 2\n', ' bne a\n',
         ' dc.w a,b,c\n', ' org c+$10\n', ' align 4\n', ' if a>$ff\n nop\n endif\n', ' ds c-a\n', 'e = b-a\n', ' ds e\n']

CONDS = [' if f\n', ' if g\n', ' if g-f\n', ' else\n', ' endif\n', 'f = 1\n', 'g = f+1\n', 'f\n', 'h set 0\n', 'h set f\n',
         ' dc.b 1\n', ' dc.w f,g\n', ' dc.b h\n', ' ds 2\n', ' if f==2\n dc.b 9\n endif\n', ' lda f\n']

SEGS = [' seg a\n', ' seg.u b\n', ' seg\n', ' org l\n', ' org $1000\n', 'l = $2000\n', 'm\n', 'k dc.b 1\n', ' dc.w m,k\n', ' ds 3\n',
        ' rorg q\n', ' rend\n', 'q = $300\n', ' align 8,7\n', ' org ., $ee\n', ' ds m-k\n']

SETS = ['x set 1\n', 'x set x+1\n', 'y = x\n', 'y = z\n', 'z eqm x+1\n', 'v = 5\n', 'y = v\n', ' dc.b x\n', ' dc.b z,y\n', ' subroutine\n',
        '.l dc.b 1\n', ' dc.b <.l\n', ' q\n', ' repeat x\n dc.b x\n repend\n', 'x set z\n', 'x set y+1\n', '1$ lda 1$\n', 'n\n', 'w set "AB"\n', ' dc.b w\n']
QMAC = ' mac q\n.l bne .l\n dc.b x\n endm\n'

# tests for being defined ask what is known so far, earlier passes included: compared with the model only
DEFINED = [' if f\n', ' ifconst f\n', ' ifnconst f\n', ' ifnconst g\n', ' else\n', ' endif\n', 'f = 1\n', 'g = 2\n', ' dc.b 1\n', ' dc.b f\n', ' dc.b g\n', 'f\n', ' lda g\n', ' ifndef g\ng = 2\n dc.b 4\n endif\n']

# every pass learns a little more, and moves the code
MOVE = ['a lda b\n', 'b lda c\n', 'c lda a\n', ' lda b,x\n', ' ds 1\n', ' ds 5\n', ' lda .+2\n', ' jmp b\n', ' bne c\n', ' lda c-a\n', ' org b+5\n', ' lda d\n', 'd = b-5\n']


# SET symbols read above their assignment
EARLY = [P + ' org $10\n dc.b h\nh set f\n lda f\nf\n',
         P + ' org $10\n dc.b h\nh set f\nf\n',
         P + ' org $10\n dc.b h\nh set 5\n',
         P + ' org $10\n dc.b h\nh set g\ng = 6\n',
         P + ' org $10\n dc.b h\nh set 1\nh set h+1\n',
         P + ' org $10\n lda h\nh set $80\n']


def twice():
    """A fixed symbol given two values: equal or rejected."""
    vs = ['0', '1', '2', '-1', '$7f', '$80', '$ff', '$100', '$101', '$7fff', '$8000', '$ffff', '$10000', '$10001', '$7fffffff', '$80000000', '$ffffffff', '$100000000', '$100000001', '-$100000000', '$7fffffffffffffff', 'f', 'f+1',
          '"A"', '"B"', '$41']
    for u in vs:
        for v in vs:
            yield (P + ' org 0\nx = %s\n dc.l x\nx = %s\nf = 1\n' % (u, v), ())
            yield (P + ' org 0\n lda late\nx = %s\n dc.l x\nx = %s\nf dc.b 1\nlate\n' % (u, v), ())
            if '"' not in u + v:
                # the value moves between the passes
                yield (P + ' org 0\nx = y\n dc.l x\ny set %s\ny set %s\nf = 1\n' % (v, u), ())
                yield (P + ' org 0\n if late\nx = %s\n else\nx = %s\n endif\n dc.l x\nf = 1\nlate = 1\n' % (u, v), ())
    for a in (1, 0xff, 0x100, 0xffff, 0x10000, 0x10001, 0x100ff):
        for b in (1, 0xff, 0x100, 0xffff, 0x10000, 0x10001, 0x100ff):
            # a label at two places
            yield (P + ' org $%x\nx nop\n org $%x\nx nop\n dc.l x\n' % (a, b), ('-f2',))
            yield (P + ' org $%x\nx nop\n rorg $%x\nx nop\n dc.l x\n' % (a, b), ('-f2',))
            yield (P + ' org $%x\nx nop\nx = $%x\n dc.l x\n' % (a, b), ('-f2',))
            yield (P + 'x = $%x\n org $%x\nx nop\n dc.l x\n' % (a, b), ('-f2',))


def chains():
    for n in range(1, 31):
        for lim in ((), ('-p3',), ('-p40',), ('-P40',)):
            # each assignment depends on the next line
            yield (P + ' org 0\n' + ''.join('s%d = s%d+1\n' % (i, i + 1) for i in range(n)) + 's%d = 7\n dc.b s0\n' % n, lim)
            yield (P + ' org 0\n dc.b s0\n' + ''.join('s%d = s%d+1\n' % (i, i + 1) for i in range(n)) + 's%d dc.b 1\n' % n, lim)
            # each origin depends on a later one
            yield (P + ''.join(' seg g%d\n org l%d+4\nl%d dc.b %d\n' % (i, i + 1, i, i) for i in range(n)) +
                   ' seg z\n org $100\nl%d\n dc.b 1\n' % n, lim + ('-f2',))
            yield (P + ' org 0\n' + ''.join(' if s%d\ns%d = 1\n dc.b %d\n else\ns%d = 1\n endif\n' % (i + 1, i, i, i) for i in range(n)) +
                   's%d = 1\n' % n, lim)
            # counts that depend on what follows
            yield (P + ' org 0\n' + ''.join(' ds l%d-l%d\nl%d dc.b 1\n' % (i + 2, i + 1, i) for i in range(n)) +
                   'l%d dc.b 1\nl%d\n' % (n, n + 1), lim)
            yield (P + ' org 0\n' + ''.join(' repeat s%d\ns%d set s%d\n dc.b %d\n repend\n' % (i + 1, i, i + 1, i) for i in range(n)) +
                   's%d = 1\n' % n, lim)


def cascade():
    """Zero page decisions that each free one byte and pull the next label under $100."""
    for org in range(0xc0, 0x104):
        for n in (1, 2, 3, 8, 20):
            yield (P + ' org $%x\n' % org + ''.join(' lda l%d\n' % i for i in range(n)) + ''.join('l%d dc.b %d\n' % (i, i) for i in range(n)), ())
            yield (P + ' org $%x\n' % org + ''.join('l%d lda l%d\n' % (i, n - 1 - i) for i in range(n)), ())
            yield (P + ' org $%x\n' % org + ''.join('l%d lda l%d\n' % (i, (i + 1) % n) for i in range(n)), ())
            yield (P + ' org $%x\n' % org + ''.join('l%d lda l%d-%d,x\n' % (i, (i + 1) % n, i) for i in range(n)) + ' align 16\nz dc.w z\n', ())


def leaks():
    """State set in one pass (fill, list mode, segment, scope, open conditional) must be reset in the next."""
    late = ' lda late\n'
    tails = ['late = $20\n', 'late dc.b 1\n', ' if late\n dc.b 3\n endif\nlate = 1\n', 'x = late\nlate = y\ny = $21\n']
    sets = [' org $30,$aa\n', ' list off\n', ' seg other\n org $80\n', ' seg.u un\n org $80\nu ds 2\n', ' rorg $700\n', ' subroutine\n.l\n', '1$\n n\n',
            ' if late\n', ' ifconst late\n dc.b 2\n endif\n', ' mac late2\n dc.b 5\n endm\n late2\n', 'v set 9\n', 'e eqm v+1\n', ' end\n', ' processor 6502\n',
            ' repeat 2\n dc.b 6\n repend\n', 'w set w1\nw1 = late\n', ' incdir "d"\n', ' dc.b 1,2\n dc.b ...\n', ' lda #...\n', 'sum set ...\n', 'l.l eqm .\n dc.b l.l\n',
            ' subroutine n2\n', ' org .,3\n', ' dc.s late\n']
    heads = [' org $10\n', ' org $10,$55\n', '']
    mids = [' ds 3\n', ' org $40\n dc.b 4\n', '.l lda .l\n', '1$ lda 1$\n', ' dc.w .\n', ' seg third\n org $100\n dc.b 7\n', ' dc.w ...\n']
    for h in heads:
        for s1 in sets:
            for s2 in sets:
                for m in mids:
                    for t in tails:
                        yield (P + h + late + s1 + m + s2 + t, ('-f2',) if len(m) & 1 else ())


def sums():
    """The checksum of what has been put out, behind every amount of data."""
    for n in list(range(0, 40)) + list(range(120, 135)) + list(range(250, 262)) + [300, 400, 480]:
        for d in (' dc.b ' + ','.join(str(i % 9 + 1) for i in range(n)), ' dc.w ' + ','.join(str(i % 9 + 1) for i in range(n)), ' dc.l ' + ','.join(str(i % 9 + 1) for i in range(n)), ' hex ' + '3f' * n, ' dc "%s"' % ('a' * n), ' dc.l "%s"' % ('a' * n), ' ds %d,3' % n, ' ds %d,255' % (n * 9), ' incbin "b"',
                  ' repeat %d\n dc.b 255,255\n repend' % n, ' org $100+%d,7\n nop' % n, ' align %d,9' % (n + 1)):
            if n == 0 and d[1:3] in ('dc', 'he', 'al'):
                continue
            for late in ('', ' lda later\n'):
                t = ' processor 6502\n org $100\n' + late + d + '\n dc.l ...\n dc.b 1\n dc.w [...]&$ffff\nlater = 7\n'
                yield ((('a.asm', t), ('b', bytes((i * 37 + 11) & 255 for i in range(n)))), ())


def spaces(tier):
    big = tier == 'thorough'
    k = 1 if big else 0
    return [
        progs('sizes', 'words of length <= %d over %d statements (labels, sizes, origins that depend on each other), around $fe' % (4 + k, len(SIZES)),
              lambda: texts(P + ' org $f8\n', SIZES, 4 + k, need=[('a', 'a\n'), ('b', 'b\n'), ('c', 'c = $90\n'), ('d', 'd = 4\n'), ('e', 'e = 1\n')]), stable),
        progs('conditions', 'words of length <= %d over %d statements (conditionals on symbols defined later)' % (4 + k, len(CONDS)),
              lambda: texts(P + ' org $10\n', CONDS, 4 + k, need=[('f', 'f = 1\n'), ('g', 'g = 0\n'), ('h', 'h set 3\n')]), stable),
        progs('defined', 'words of length <= %d over %d statements (IFCONST and its relatives)' % (4 + k, len(DEFINED)),
              lambda: texts(P + ' org $10\n', DEFINED, 4 + k)),
        progs('segments', 'words of length <= %d over %d statements (segments, origins, relocation), format 2' % (4 + k, len(SEGS)),
              lambda: texts(P + ' org $10\n', SEGS, 4 + k, args=('-f2',), need=[('l', 'l = $200\n'), ('m', 'm\n'), ('k', 'k dc.b 9\n'), ('q', 'q = $400\n')]), stable),
        progs('assignments', 'words of length <= %d over %d statements (SET, EQU, EQM, local labels, macros)' % (4 + k, len(SETS)),
              lambda: texts(P + ' org $10\n' + QMAC, SETS, 4 + k), stable),
        progs('movement', 'words of length <= %d over %d statements (code that moves from pass to pass)' % (4 + k, len(MOVE)),
              lambda: texts(P + ' org $f9\n', MOVE, 4 + k, minlen=3, uniq=True, need=[('a ', 'a\n'), ('b ', 'b\n'), ('c ', 'c\n'), ('d ', 'd = 4\n')]), stable),
        progs('movement-5', 'words of length 5 over the first 9 of them',
              lambda: texts(P + ' org $f9\n', MOVE[:9], 5, minlen=5, uniq=True, need=[('a ', 'a\n'), ('b ', 'b\n'), ('c ', 'c\n')]), stable),
        progs('twice', 'a fixed symbol given two values, 26x26 values in five places', twice, stable),
        progs('chains', 'dependency chains of length 1..30 x pass limits', chains, stable),
        progs('cascade', 'mutually dependent zero page decisions, 68 origins', cascade, stable),
        progs('early', 'SET symbols read above their first assignment, %d programs' % len(EARLY), lambda: ((x, ()) for x in EARLY), stable_early),
        progs('sums', 'the checksum behind 70 amounts of data of 12 kinds', sums),
        progs('leaks', 'state set in one pass x what would show it in the next', leaks, stable),
    ]
