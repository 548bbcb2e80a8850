"""P19: the list file."""
import itertools

import scale
from common import Case, Space, diff, filelist, model, norm_list, proglist, progs, short, words
from P11 import balanced

P = ' processor 6502\n org $100\nx set 0\n mac m\n dc.b {1}\n.l lda .l\n endm\n'
TAIL = ' dc.w .,x\nf = $33\ng\n'
FILES = (('i', ' dc.b $44\n nop ; c\n'), ('j', ' list off\n dc.b 1\n list on\n dc.b 2\n'), ('k', ' dc.b 5\n list off\n dc.b 6\n'), ('n', ' list localoff\n dc.b 7\n include "i"\n list localon\n dc.b 8\n'), ('b', bytes(range(20))))

STMTS = [' dc.b x\n', 'x set x+1\n', ' lda f\n', 'l%d lda g ; comment\n', ' m 7\n', ' ds 5,1\n', ' org $180\n', ' if f\n', ' if 0\n', ' else\n', ' endif\n', ' repeat 2\n', ' repend\n', ' include "i"\n', ' include "n"\n', ' incbin "b"\n', ' echo "e",x\n', ' list off\n', ' list on\n', ' seg.u u\n org 3\nv%d ds 2\n seg c\n org $300\n', ' rorg $500\n', ' subroutine\n', 'e eqm .+1\n', ' dc "text;",$a\n', ' mac q%d\n nop\n endm\n', '; only a comment\n', '\n', ' align 16\n', ' list localoff\n', ' list localon\n', ' /* c */ nop\n', ' dc.l $12345678\n', 'q%d = $12345678\n', '/* a\n b */\n', ' include "j"\n', ' include "k"\n', ' hex 0102030405\n', ' lda.w 5\n', 'z%d = -1\n']


def number(w):
    return ''.join(s % i if '%d' in s else s for i, s in enumerate(w))


def ok(w):
    return ' org $180\n' not in w or ' repeat 2\n' not in w and w.count(' org $180\n') == 1 and ' align 16\n' not in w and not any('seg.u' in s for s in w)


CORE = [s for s in STMTS if s in (' dc.b x\n', 'x set x+1\n', ' lda f\n', ' m 7\n', ' ds 5,1\n', ' if f\n', ' if 0\n', ' else\n', ' endif\n', ' repeat 2\n', ' repend\n', ' include "n"\n', ' list off\n', ' list on\n', ' list localoff\n', ' rorg $500\n', ' include "k"\n', '/* a\n b */\n')]


def blocks(n, alphabet=STMTS):
    for w in balanced(alphabet, n):
        if not ok(w):
            continue
        rep = 0
        bad = False
        for s in w:
            rep += s == ' repeat 2\n'
            rep -= s == ' repend\n'
            if rep and ('%d' in s):
                bad = True
        if not bad:
            yield ((('a.asm', P + number(w) + TAIL),) + FILES, ())


def listing_words(n):
    """ON, OFF, LOCALON, LOCALOFF at any place of files and macros."""
    al = [' list on\n', ' list off\n', ' list localoff\n', ' list localon\n', ' dc.b 1\n', ' include "i"\n', ' mm\n', ' LIST OFF\n', 'a%d list on\n']
    for w in words(al, n, 1):
        yield ((('a.asm', P + ' mac mm\n dc.b 9\n endm\n' + number(w) + ' nop\n'), ('i', ' dc.b 3\n nop\n')), ())
    for w in words([' list ON\n', ' list OFF\n', ' list LOCALOFF\n', ' list LOCALON\n', ' list on\n', ' list off\n', ' list localoff\n', ' list localon\n', ' LIST on ; c\n'], 3, 1):
        yield ((('a.asm', P + ' mac mm\n dc.b 9\n endm\n' + ' nop\n'.join(w) + ' nop\n mm\n include "i"\n nop\n'), ('i', ' dc.b 3\n nop\n')), ())
    inner = [' list on\n', ' list off\n', ' list localoff\n', ' list localon\n', ' dc.b 1\n']
    for w in words(inner, 3, 1):
        for b in ((' include "i"\n', ' mm\n', ' if 0\n include "i"\n endif\n', ' repeat 2\n mm\n repend\n')):
            yield ((('a.asm', P + ' mac mm\n' + ''.join(w) + ' endm\n dc.b 4\n' + b + ' dc.b 5\n'), ('i', ''.join(w))), ())


def everypass(item):
    """-L: the listings of all passes one after the other."""
    files, args = item
    fl = filelist(files)
    m = model(fl, args, want_list=True, list_all=True)
    r, = yield [Case([fl[0][0], *args, '-oo', '-ss', '-Ll'], fl, ('o', 's', 'l'))]
    d = diff(m, r)
    if d or m.rc:
        return d
    a, b = norm_list(m.listing), norm_list(r.files[2].decode('latin-1'))
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return 'list file line %d: expected %s, got %s' % (i + 1, short(a[i:i + 1]), short(b[i:i + 1]))
    return None


def passes():
    for n in range(0, 9):
        t = ' processor 6502\n org $100\n' + (' dc.b a0\n' if n else ' dc.b 1\n') + ''.join('a%d = a%d+1\n' % (i, i + 1) for i in range(n)) + 'a%d = 1\n' % n
        yield (t, ())
        yield (t + ' list off\n nop\n list on\n', ())
    for w in words([' lda f\n', ' list off\n', ' list on\n', ' include "i"\n', ' if f\n dc.b 1\n else\n dc.b 2\n endif\n', ' m 2\n', ' dc.b 1\n'], 3, 1):
        yield ((('a.asm', P + ''.join(w) + TAIL), ('i', ' dc.b 9\n list off\n lda g\n list on\n')), ())


def sizes():
    """Number of bytes on a line: the first four are shown."""
    for n in range(0, 30):
        yield (P + (' dc.b ' + ','.join(str(i + 1) for i in range(n)) if n else ' nop') + '\n dc.b 255\n', ())
        yield (P + ' ds %d,$aa\n dc.b 255\n' % n, ())
        yield (P + ' hex %s\n dc.b 255\n' % ('0a' * n) if n else P, ())
        yield (P + ' dc "%s"\n dc.b 255\n' % ('abcdefgh' * 5)[:n] if n else P, ())
        yield (P + ' dc.w ' + ','.join(str(i) for i in range(n)) + '\n' if n else P, ())
        yield (P + ' dc.l ' + ','.join(str(i) for i in range(n)) + '\n' if n else P, ())
        yield (P + ' org $%x\n nop\nl nop\n' % (0x100 << n) if n < 7 else P, ())
        yield (P + 'v = $%x\n' % (1 << n), ())
        yield (P + 'v = -%d\n' % (1 << n), ())
        yield ((('a.asm', P + ' incbin "b"\n nop\n'), ('b', bytes(n))), ())
    for n in (100, 255, 256, 257, 1000, 1023, 1024, 1025, 2048, 5000):
        yield (P + ' ds %d,$aa\n nop\n' % n, ())
        yield (P + ' align %d\n nop\n' % n, ())
        yield (P + '\n' * n + ' nop\n', ())
        yield (P + ' repeat %d\n nop\n repend\n' % n, ())
    for a in (0, 1, 9, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xfffe, 0xffff, 0x10000, 0x12345, 0x20000):
        for s in (' nop\n', 'l nop\n', 'l\n', ' ds 2\n', 'v = 5\n', 'v set 6\n', '; c\n', ' rorg $%x\n nop\n' % (a + 5), ' seg.u u\n org $%x\n ds 1\nl2 ds 3\n' % a):
            yield (' processor 6502\n org $%x\n' % a + s + ' dc.b 1\n', ('-f3',))
            for up in (0x100000, 0xffff00, 0x1000000, 0x12345678, 0x7fff0000):
                yield (' processor 6502\n org $%x\n' % (up + (a & 0xff)) + s + ' dc.b 1\n', ('-f3', '-m3000000'))


def texts():
    """Source text as shown: labels, comments, tabs, strings, long lines."""
    labs = ['', 'l', 'label', 'abcdefghij', 'abcdefghijk', 'averylonglabelname', '.l', '1$', 'l:', '^l', 'n,5']
    ops = [' nop', '\tnop', ' NOP', ' lda #1', ' lda   #1', '\tlda\t#1', ' LDA.W 5', ' dc.b 1,2', ' dc.b  1 , 2', ' dc "a  b"', " dc.b 'a", " lda #' ", ' .dc 1', ' #nop', ' = 5', ' set 5', ' equ 5+k', ' ds 1', '', ' m 1', ' dc "x;y"', ' echo "a b"', ' dc "\t"']
    coms = ['', ' ;', ' ; c', ';c', '\t;\tc', ' ; a  b', ' /* c */', ' /* c */ ; d', ' ; ' + 'c' * 60, ' ; "q"', '   ', ' ; tab\there']
    for l, o, c in itertools.product(labs, ops, coms):
        if l in ('^l', 'l:') and not o or (l and o.startswith(' #')) or (not l and ('=' in o or 'set' in o or 'equ' in o)):
            continue
        if l and l[-1:] != ':' and not o and c == ';c':
            continue
        yield (' processor 6502\n org $100\nk = 1\n mac m\n nop\n endm\n%s%s%s\n nop\n' % (l, o, c), ())
    for n in list(range(1, 100)) + list(range(240, 260)) + list(range(500, 520)) + list(range(1000, 1021)):
        yield (' processor 6502\n org $100\n nop ;%s\n nop\n' % ('c' * min(n, 1015)), ())
        if n < 1005:
            yield (' processor 6502\n org $100\n%s nop\n' % ('l' * n), ())
            yield (' processor 6502\n org $100\n dc "%s"\n' % ('s' * n), ())
        yield (' processor 6502\n org $100\n nop%s; c\n nop\n' % (' ' * n if n < 1005 else ' '), ())
        yield (' processor 6502\n org $100\n nop%s; c\n nop\n' % ('\t' * min(n, 100)), ())


def nesting():
    for n in range(0, 34):
        yield (P + ''.join(' mac m%d\n m%d\n dc.b %d\n endm\n' % (i, i + 1, i) for i in range(n)) + ' mac m%d\n nop\n endm\n m0\n' % n if n < 31 else P, ())
        fs = [('f%d' % i, ' nop\n include "f%d"\n dc.b %d\n' % (i + 1, i)) for i in range(n)] + [('f%d' % n, ' dc.b 99')]
        yield ((('a.asm', P + ' include "f0"\n nop\n'), *fs), ())
        yield (P + ' if 1\n' * n + ' nop\n' + ' endif\n' * n, ())
        yield (P + ' if 0\n' * n + ' nop\n' + ' else\n dc.b 1\n endif\n' * n, ())
        if n < 12:
            yield (P + ' repeat 1\n' * n + ' nop\n' + ' repend\n' * n, ())
            yield (P + ' repeat %d\n nop\n dc.b 1\n repend\n' % n, ())
    for c, b in (('6502', ' lda #1\n bne .\n jmp 5\n'), ('68hc11', ' ldaa #1\n ldx #5\n bra .\n'), ('6803', ' ldd #5\n'), ('hd6303', ' xgdx\n'), ('68705', ' brset 1,5,.\n'), ('68908', ' lda #1\n mov 5,6\n'), ('f8', ' li 5\n lr a,1\n br .\n'), ('65c02', ' bra .\n')):
        for f in ('-f1', '-f2', '-f3'):
            yield (' processor %s\n org $100\nl%s dc.w l\n' % (c, b), (f,))


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        progs('blocks', 'balanced programs of up to %d statements out of %d' % (3 + k, len(STMTS)), lambda: blocks(3 + k), proglist),
        progs('deep', 'balanced programs of up to %d statements out of %d' % (4 + k, len(CORE)), lambda: blocks(4 + k, CORE), proglist),
        progs('switches', 'words of length 1..%d over LIST directives, inclusions and macro calls' % (4 + k), lambda: listing_words(4 + k), proglist),
        progs('all-passes', 'the listing of every pass', passes, everypass),
        progs('sizes', 'bytes per line 0..29 and large, addresses, values', sizes, proglist),
        progs('texts', 'labels x operations x comments, lengths 1..1020', texts, proglist),
        progs('nesting', 'depth 0..33 of macros, files, conditionals; processors', nesting, proglist),
        Space('scale', 'up to 131073 lines before a listed line, addresses', lambda: scale.listings(scale.counts(tier == 'thorough')), scale.listed, chunk=1),
    ]
