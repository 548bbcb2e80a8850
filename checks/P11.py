"""P11: REPEAT loops."""
import itertools

import scale
from common import Space, proglist, progs, same, stable, texts, words

P = ' processor 6502\n org $100\nx set 0\n'
MAC = ' mac m\n dc.b {1}\n.l lda .l\n endm\n'

STMTS = [' dc.b x\n', 'x set x+1\n', ' if x&1\n', ' if x>1\n', ' else\n', ' endif\n', ' ds 2,3\n', ' m x\n', ' dc.w .\n', ' include "i"\n', ' nop\n', ' align 4\n']
COUNTS = [0, 1, 2, 3, 7]


def files(t):
    return (('a.asm', t), ('i', ' dc.b $ee\nx set x+2\n'))


def bodies(n):
    for w in balanced(STMTS, n):
        b = ''.join(w)
        for n in COUNTS:
            yield (files(P + MAC + ' repeat %d\n%s repend\n dc.b $ff\n' % (n, b)), files(P + MAC + b * n + ' dc.b $ff\n'), ())


def nests():
    """repeat trees: (count, before, inner, after)"""
    inner = [' dc.b x\n', 'x set x+1\n dc.b x\n', '', ' m x\n', ' if x&1\n dc.b 8\n endif\nx set x+1\n']
    cs = ['0', '1', '2', '3', 'x', 'k', '-1']
    for a in cs:
        for b in cs:
            for i in inner:
                for j in inner:
                    yield (P + MAC + 'k = 2\n repeat %s\n%s repeat %s\n%s repend\n%s repend\n dc.w .,x\n' % (a, j, b, i, j), ())
    for a, b, c in words(['0', '1', '2', '3'], 3, 3):
        yield (P + ' repeat %s\n dc.b 1\n repeat %s\n dc.b 2\n repeat %s\n dc.b 3\nx set x+1\n repend\n dc.b 4\n repend\n dc.b 5\n repend\n dc.b x\n' % (a, b, c), ())
        yield (P + ' repeat %s\n repeat %s\n repeat %s\n dc.b 3\n repend\n repend\n repend\n dc.b x\n' % (a, b, c), ())


def counts():
    for n in list(range(0, 1040)) + [2000, 4095, 4096, 5000, 10000, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 100000, 131071, 131072, 131073]:
        yield (P + ' repeat %d\nx set x+1\n dc.b <x\n repend\n dc.w x,.\n' % n, ())
    for e in ('k', 'k-1', 'k-2', 'k-3', 'f', 'f-1', 'f-6', 'f-7', '-k', '1<<1', '[k]', '(k)', 'k*k', '%11', '$3', "'A-63", '.-$100', 'x', 'x+1', 'e', 'f-f', 'k==2', 'k!=2', '0', '00', '-0', '~0', '!0', '!1', 'und', 'und-und', '4/3', '2?1', '"a"-$60'):
        for d in ('f = 5\n', 'f dc.b 1\n', 'f = g\ng = 7\n'):
            yield (P + 'k = 2\ne eqm k+1\n repeat %s\n dc.b 7\n repend\n dc.b 9\n%s' % (e, d), ())
            yield (P + 'k = 2\ne eqm k+1\n mac m\n repeat %s\n dc.b 7\n repend\n dc.b 8\n endm\n m\n%s' % (e, d), ())


STRUCT = [' repeat 2\n', ' repeat 0\n', ' repeat x\n', ' repend\n', ' if 0\n', ' if x-1\n', ' else\n', ' endif\n', 'x set x+1\n', ' dc.b x\n']


def balanced(alphabet, n, used=0, stack=''):
    """Words of length <= n whose blocks are properly nested (what others mean is not specified)."""
    if not stack and used:
        yield ()
    if len(stack) > n:
        return
    for s in alphabet:
        o = (s.split() or [''])[0]
        st = stack
        if o == 'repeat':
            st += 'r'
        elif o == 'if':
            st += 'i'
        elif o == 'else':
            if st[-1:] != 'i':
                continue
            st = st[:-1] + 'e'
        elif o == 'endif':
            if st[-1:] not in ('i', 'e'):
                continue
            st = st[:-1]
        elif o == 'repend':
            if st[-1:] != 'r':
                continue
            st = st[:-1]
        if len(st) > n - 1:
            continue
        for w in balanced(alphabet, n - 1, 1, st):
            yield (s,) + w


def structure(n):
    for w in balanced(STRUCT, n):
        yield (P + ''.join(w) + ' dc.w x\n', ())


def files_macros():
    body = [' repeat 2\n', ' repend\n', ' dc.b x\n', 'x set x+1\n', ' m\n', ' include "i"\n']
    for w in words(body, 4, 1):
        if w.count(body[0]) != w.count(body[1]):
            continue
        d = 0
        bad = False
        for s in w:
            d += (s == body[0]) - (s == body[1])
            bad |= d < 0
        if bad:
            continue
        t = ''.join(w)
        inner = ' repeat 3\n dc.b 5\nx set x+1\n repend\n'
        if ' m\n' not in t:
            yield ((('a.asm', P + ' mac m\n' + t + ' endm\n m\n dc.b 9\n m\n'), ('i', inner)), ())
        if 'include' not in t:
            yield ((('a.asm', P + ' mac m\n' + inner + ' endm\n include "j"\n dc.b 9\n repeat 2\n include "j"\n repend\n'), ('j', t)), ())
        yield ((('a.asm', P + ' mac m\n' + inner + ' endm\n' + t + ' dc.b 9\n'), ('i', inner)), ())


def left():
    """Loops left by MEXIT or by the end of the macro, called from loops."""
    for w in words([' if 1\n', ' if 0\n', ' endif\n', ' mexit\n', ' repeat 2\n', ' repeat 3\n', ' dc.b 1\n'], 5, 2):
        st = []
        for s in w:
            if s == ' endif\n':
                if not st or 'if' not in st.pop():
                    break
            elif s.split()[0] in ('if', 'repeat'):
                st.append(s)
        else:
            if not any('repeat' in s for s in w):
                continue
            t = P + ' mac m\n' + ''.join(w) + ' endm\n'
            for o in (' repeat 2\n m\n dc.b 7\n repend\n', ' repeat 2\n m\n repeat 2\n m\n dc.b 7\n repend\n dc.b 6\n repend\n',
                      ' mac n\n repeat 2\n m\n dc.b 5\n repend\n endm\n repeat 2\n n\n dc.b 7\n repend\n')[:3 if len(w) < 5 else 1]:
                yield (t + o + ' dc.b 8\n', ())


def comments():
    """Comments, of one and of more lines, on the lines of the loop: every place x every place, in files, macros and included files."""
    cs = ['', ' ; c', ' /* c */', ' /* c\n c */', ' /* c\n repend\n c */', '/* c\n\n c */ ;d', ' ; /* c']
    for a, b, c, n in itertools.product(cs, cs, cs, (0, 1, 2, 3)):
        t = ' repeat %d%s\n dc.b x%s\nx set x+1\n repend%s\n dc.b $ff\n' % (n, a, b, c)
        yield (P + t + t + ' dc.w .\n', ())
        if n == 2:
            yield (P + ' repeat 2\n' + t + ' repend\n dc.w .\n', ())
            yield ((('a.asm', P + ' include "i"\n dc.w .\n'), ('i', t)), ())
            yield (P + ' mac m\n' + t + ' endm\n m\n dc.w .\n m\n', ())
            yield (P + 'l1 repeat 2%s\nl2%s\n repeat 2%s\n dc.b x\n repend%s\nx set x+1\n repend%s\nl4 dc.w l4\n'.replace('l2', 'y set x') % (a, b, c, a, b), ())


def positions():
    """The block begins and ends anywhere in the file (seek positions) and lines may have any length or ending."""
    for pad in range(0, 130):
        c = ';' + 'x' * pad
        for eol in ('\n', '\r\n'):
            yield (P + c + eol + ' repeat 3' + c + eol + ' dc.b 1' + eol + ' dc.b 2' + c + eol + ' repend' + eol + ' dc.b 3' + eol, ())
    for n in (500, 1000, 1010, 4000, 4090, 4096, 8192, 20000):
        yield (P + '; pad\n' * n + ' repeat 3\n dc.b 1\n' + '; pad\n' * (n % 1000) + ' repend\n dc.b 3\n', ())
        yield (P + ' repeat 2\n' + ' dc.b 1\n' * (n // 8) + ' repend\n dc.b 3\n', ())
    for last in (' repend', ' repend\n', ' repend ; x', ' REPEND\n', ' .repend\n', 'l repend\n', '\trepend\n'):
        yield (P + ' repeat 3\n dc.b 1\n' + last, ())
        yield (P + ' repeat 0\n dc.b 1\n' + last, ())
    for first in (' repeat 3', ' REPEAT 3', ' .repeat 3', 'l repeat 3', 'l: repeat 3', '\trepeat\t3', ' repeat 3 ; c', ' repeat  3 ', ' repeat 1+2', ' repeat [3]'):
        yield (P + first + '\n dc.b 1\n repend\n dc.w .\n', ())


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        progs('unrolled', 'balanced bodies of 1..%d statements out of 12 x counts 0, 1, 2, 3, 7: equal to the body written out' % (4 + k), lambda: bodies(4 + k), same),
        progs('nests', 'two nested loops, 7x7 counts x 5x5 bodies; three nested loops, 4^3 counts', nests, stable),
        progs('counts', 'every count 0..1039 and five larger; 35 count expressions', counts, stable),
        progs('structure', 'balanced words of length 1..%d over 10 statements' % (7 + k), lambda: structure(7 + k), stable),
        progs('files', 'words of length 1..4 over 6 statements within macros and included files', files_macros, stable),
        progs('left', 'words of length 2..5 over 7 statements in a macro whose loops stay open, called from loops', left, stable),
        progs('comments', '7 comments of one or more lines in three places of a loop, 4 counts', comments, stable),
        progs('positions', 'line lengths, file positions, spellings', positions, proglist),
        Space('scale', 'up to 131073 lines and 4 MB before and in loops, iterations of nested loops', lambda: scale.repeats(scale.counts(tier == 'thorough')), scale.exactly, chunk=1),
    ]
