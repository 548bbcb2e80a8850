"""P12: macros."""
import re

import gen
import refasm
import scale
from common import Space, model, prog, proglist, progs, same, stable, texts, words
from P11 import balanced

P = ' processor 6502\n org $100\nx set 0\nk = 5\n'
N = ' mac n\n dc.b $a0,{1}\n endm\n'

LINES = [' dc.b {1}\n', ' dc.b {2},{1}\n', ' dc.b {0}\n', ' lda {1}\n', ' ds {2},{1}\n', ' if {1}\n', ' else\n', ' endif\n', ' repeat {2}\n', ' repend\n', ' n {2}\n', ' dc.w .\n', 'x set x+{1}\n']


def subst(body, text):
    """The definition of a macro call: {0} is the whole text, {n} the n-th argument."""
    args = [text]
    rest = text
    while rest:
        a, c, rest = rest.partition(',')
        args.append(a)
        rest = rest.lstrip(' ')
    return re.sub(r'\{(\d+)\}', lambda g: args[int(g.group(1))], body)


CALLS = ['1,2', '0,3', '2,1', '$10,0', 'k,k-4', '1, 2']


def expansions(n):
    for w in balanced(LINES, n):
        b = ''.join(w)
        for c in CALLS:
            yield (P + N + ' mac m\n' + b + ' endm\n m %s\n dc.b $ff\n' % c, P + N + subst(b, c) + ' dc.b $ff\n', ())


def supported(t):
    try:
        model((('a.asm', t),), ())
        return True
    except refasm.Unsupported:
        return False


def arguments():
    """Shapes of argument texts."""
    shapes = ['1', '$12', '-1', '1+2', 'k', '.', '"A"', "'A", '[1+2]', '(3)', '<$1234', ' 1', '1 ', '#5', '%101', 'x', '"a b"', "' ", '1 + 2', '{', '1}', 'fwd', '$ff', '"AB"', '0', '!0', 'k-k', '"it\'s"', '";"', 'a.b']
    uses = [' dc.b {1}\n', ' dc.w {1}\n', ' lda {1}\n', ' dc.b {0}\n', ' if {1}\n dc.b 1\n endif\n', 'y = {1}\n dc.b <y\n', ' n {1}\n', ' dc.b {1},{1}\n', 'z set {1}\n dc.b <z\n', ' dc.b {2}\n', ' echo {0}\n']
    for s in shapes:
        for u in uses:
            if s in ('{', '1}', 'a.b'):
                continue
            if s == '#5' and 'lda' not in u:
                continue
            yield (P + N + ' mac m\n' + u + ' endm\n m %s\n dc.b 9\nfwd = $44\n' % s, ())
            yield (P + N + ' mac m\n' + u + ' endm\n m %s,7\n dc.b 9\nfwd = $44\n' % s, ())
            yield (P + N + ' mac m\n' + u + ' endm\n m 7,%s\n dc.b 9\nfwd dc.b 1\n' % s, ())
    # commas inside brackets separate arguments too
    for s in ('(4,x)', '(4),y', '4,x', '[1,2]', '[1],2', '[1,2],3', '[1,2],[3,4]', '[[1,2],3]', '(4,x),7', '7,(4,x)'):
        n = len(s.split(','))
        for u in (' lda {0}\n', ' lda {1},{2}\n', ' lda {2},{3}\n', ' dc.b {1}+3],[{2}\n', ' dc.b {1}]]+[0],[[[{2}+[{1}]]\n', ' dc.b {1}+3]],[[{2}\n', ' dc.b [{%d}\n' % n, ' dc.b {%d}\n' % n, ' dc.b {%d}\n' % (n + 1), ' dc.b {2}\n', ' if {2}\n dc.b 1\n endif\n', ' if [{2}\n dc.b 1\n endif\n', ' n [{2}\n'):
            for t in (' m %s\n', ' if 1\n m %s\n endif\n', ' repeat 2\n m %s\n repend\n'):
                t = P + N + ' mac m\n' + u + ' endm\n' + t % s + ' dc.b 9\n'
                if supported(t):
                    yield (t, ())
    for s in ('1,,2', ',1', ',', '1,', '1,2,', ',,', '1,,', ' , 1', '1 ,2', '1 , 2', '1,  2,   3', '"a,b"', '(1,2)', '[1,2]', "',,2", '1;2', '1 ;,2', '1/* c */,2', '1,2/*c*/'):
        for u in (' dc.b {1}\n', ' dc.b {2}\n', ' dc.b 5{1}\n', ' dc.b 5{2}\n', ' dc.b 5{3}\n', ' dc.b {0}\n'):
            if '"' in s and '"' in u or s == '1,2,' and '{0}' in u or s in (',', ',,', '1,', '1,,', ' , 1', ',1', '1,,2') and u in (' dc.b {1}\n', ' dc.b {2}\n', ' dc.b {0}\n'):
                continue
            if s in ('"a,b"', '(1,2)', '[1,2]', "',,2"):
                if '{0}' not in u or s != '"a,b"':
                    continue
            try:
                subst(u, s.replace(';', '/').partition('/')[0].strip())
            except IndexError:
                continue
            yield (P + ' mac m\n' + u + ' endm\n m %s\n dc.b 9\n' % s, ())


def many():
    """Number of arguments and argument numbers."""
    for n in list(range(0, 41)) + [64, 100, 200]:
        a = ','.join(str(i % 100) for i in range(1, n + 1))
        for j in sorted({0, 1, 2, 3, 9, 10, 11, n - 1, n, n + 1, n // 2}):
            if j >= 0 and not (j == 0 and n == 0):
                yield (P + ' mac m\n dc.b {%d}\n endm\n m %s\n dc.b $99\n' % (j, a), ())
        if n:
            yield (P + ' mac m\n' + ''.join(' dc.b {%d}\n' % j for j in range(1, n + 1)) + ' endm\n m %s\n' % a, ())
            yield (P + ' mac m\n dc.b ' + ','.join('{%d}' % j for j in range(n, 0, -1)) + '\n endm\n m %s\n' % a, ())
    for ln in list(range(1, 40)) + list(range(240, 260)) + [500, 800, 1000]:
        s = ('0' * ln + '1')[-ln:]
        yield (P + ' mac m\n dc.b {1}\n dc.b {2}\n endm\n m %s,7\n' % s, ())
        if ln <= 300:
            yield (P + ' mac m\n dc.b {1}+{1},{2}\n endm\n m %s,7\n' % s, ())
        yield (P + ' mac %s\n dc.b {1}\n endm\n %s 7\n %sx 8\n' % ('q' * ln, 'q' * ln, 'q' * ln), ())
        yield (P + ' mac %s\n dc.b {1}\n endm\n mac %sr\n dc.b {1}+1\n endm\n %s 7\n %sr 8\n' % (('q' * ln,) * 4), ())


def nested(n):
    """Macros calling macros: words over definitions' bodies."""
    A = [' dc.b 1\n', ' b {1}\n', ' b 9,{1}\n', ' mexit\n', ' if {1}\n b 0\n endif\n', ' repeat 2\n b {1}\n repend\n']
    B = [' dc.b {1}\n', ' c {1}\n', ' mexit\n', ' dc.b {0}\n', ' if {1}\n', ' else\n', ' endif\n']
    C = ' mac c\n dc.b $c0,{1}\n endm\n'
    for wa in words(A, 3, 1):
        for wb in words(B, n if len(wa) < 3 else 2, 1):
            yield (P + C + ' mac b\n' + ''.join(wb) + ' endm\n mac a\n' + ''.join(wa) + ' endm\n a 1\n dc.b $f1\n a 0\n dc.b $f2\n', ())


def mexits():
    body = [' dc.b 1\n', ' mexit\n', ' if {1}\n', ' else\n', ' endif\n', ' repeat 2\n', ' repend\n', ' n 3\n']
    outer = [' m 1\n dc.b 7\n m 0\n', ' repeat 2\n m 1\n dc.b 7\n repend\n', ' if 1\n m 1\n dc.b 7\n else\n m 0\n endif\n', ' if 0\n m 1\n else\n m 1\n dc.b 8\n endif\n', ' mac o\n m 1\n dc.b $d0\n m 0\n dc.b $d1\n endm\n o\n dc.b $d2\n', ' include "i"\n dc.b 7\n']
    for w in balanced(body, 5):
        t = P + N + ' mac m\n' + ''.join(w) + ' endm\n'
        for o in outer[:3] if len(w) > 4 else outer:
            yield ((('a.asm', t + o + ' dc.b $ff\n'), ('i', ' m 1\n dc.b 6\n')), ())
    # conditionals and repeats still open when the macro ends or is left
    for w in words([' if {1}\n', ' if 1\n', ' if 0\n', ' else\n', ' mexit\n', ' repeat 2\n', ' dc.b 1\n'], 4, 1):
        t = P + ' mac m\n' + ''.join(w) + ' endm\n'
        yield (t + ' m 1\n dc.b 7\n m 0\n dc.b 8\n', ())
        yield (t + ' if 1\n m 1\n dc.b 7\n else\n dc.b 6\n endif\n dc.b 8\n', ())
        yield (t + ' repeat 2\n m 1\n dc.b 7\n repend\n dc.b 8\n', ())


def recursion():
    for n in range(0, 40):
        yield (P + ' mac r\n if {1}\n dc.b {1}\n r {1}-1\n endif\n endm\n r %d\n dc.b $ff\n' % n, ())
        yield (P + ' mac r\n if {1}\n r {1}-1\n dc.b {1}\n endif\n endm\n r %d\n dc.b $ff\n' % n, ())
        yield (P + ' mac r\n if !{1}\n mexit\n endif\n dc.b 1\n r [{1}]-1\n dc.b 2\n endm\n r %d\n dc.b $ff\n' % n, ())
        yield (P + 'c set %d\n mac r\n if c\nc set c-1\n dc.b c\n r\n endif\n dc.b $e0\n endm\n r\n dc.b $ff\n' % n, ())
        if n < 20:
            yield (P + ' mac e\n if {1}\n dc.b $e\n o {1}-1\n endif\n endm\n mac o\n if {1}\n dc.b $0\n e {1}-1\n endif\n endm\n e %d\n' % n, ())
        if n < 9:
            yield (P + ' mac r\n if {1}\n r {1}-1\n dc.b {1}\n r {1}-1\n endif\n endm\n r %d\n dc.b $ff\n' % n, ())
        # long chains of different macros
        if n:
            yield (P + ''.join(' mac m%d\n dc.b %d\n m%d\n dc.b %d\n endm\n' % (i, i, i + 1, 100 + i) for i in range(n)) + ' mac m%d\n dc.b 99\n endm\n m0\n' % n, ())


def definitions():
    """Names and places of definitions."""
    names = ['m', 'M', 'foo', 'Foo', 'FOO', 'm1', '_m', 'lda2', 'a_b', 'x', 'dcb', 'iff', 'endmm', 'mexit2', 'abcdefghijklm', 'nopqrstuvwxyz', 'QuiZ', 'z', 'Z', 'aZ', 'A1z9']
    for n in names:
        for c in {n, n.lower(), n.upper(), n.swapcase()}:
            for d in (' mac', ' MAC', ' macro', ' Macro', ' .mac'):
                for e in (' endm', ' ENDM', ' .endm', 'l endm'):
                    yield (P + '%s %s\n dc.b {1}\n%s\n %s 7\nq %s 8\n dc.w q\n' % (d, n, e, c, c), ())
    # the text of a definition is not looked at before the macro is called
    for b in ('n,nowhere = 5\n', 'n,nowhere nop\n', 'n,nowhere\n', 'n,{1} = 5\n dc.b n7\n', 'n,{1}+1 dc.b 5\n', 'n,"x",{1}: nop\n', ' dc.b nowhere\n', ' foo\n', ' lda ((\n', ' if nowhere\n', ' include "none"\n', ' org nowhere\n', ' dc.b 1/0\n', ' err\n', ' repeat nowhere\n', ' n,1\n', 'n,"a\n', ' dc.b "open\n', 'n = 5\nn = 6\n', ' else\n', ' repend\n', ' m\n', '.a,nowhere nop\n'):
        for t in (' mac m\n%s endm\n dc.b 1\n', ' mac m\n%s dc.b 2\n endm\n if 0\n m 7\n endif\n lda f\nf = 5\n', ' mac m\n%s endm\n mac o\n m 7\n endm\n dc.b 1\n'):
            yield (P + t % b, ())
            yield (P + t % b, ('-S',))
        if '{1}' in b:
            yield (P + ' mac m\n%s endm\n m 7\n m 8\nn7 = 3\n' % b, ())
            yield (P + ' mac m\n%s endm\n m 7\n' % b, ())
    st = [' mac a\n dc.b 1\n endm\n', ' mac b\n a\n dc.b 2\n endm\n', ' mac a\n dc.b 3\n endm\n', ' a\n', ' b\n', ' if 0\n mac a\n dc.b 4\n endm\n endif\n', ' if late\n mac b\n dc.b 5\n endm\n endif\n', ' include "i"\n', ' dc.b 9\n', ' lda late\n']
    for w in words(st, 4, 1):
        # a macro has to be defined above its first call
        t = ''.join(w)
        ok = True
        known = set()
        for s in w:
            if s == ' a\n' and 'a' not in known or s == ' b\n' and ('b' not in known or 'a' not in known):
                ok = False
            if s.startswith(' mac a') or s.startswith(' include'):
                known.add('a')
            if s.startswith(' mac b'):
                known.add('b')
        if ok:
            yield ((('a.asm', P + t + 'late = 0\n'), ('i', ' mac a\n dc.b 6\n endm\n dc.b 8\n')), ())
            yield ((('a.asm', P + t + 'late = 0\n'), ('i', ' mac a\n dc.b 6\n endm\n dc.b 8\n')), ('-S',))


def contexts():
    """Calls from everywhere; labels on and within the call."""
    m = ' mac m\n.l dc.b {1}\n lda .l\nx set x+1\n endm\n'
    calls = [' m 1\n', 'q m 1\n', 'q: m 1\n', '.l m 1\n', ' M 1 ; c\n', '\tm\t1\n', ' .m 1\n', ' m  1 , 2 \n']
    wraps = ['%s', ' if 1\n%s endif\n', ' if 0\n%s endif\n', ' if late\n%s endif\n', ' repeat 2\n%s repend\n', ' mac o\n%s endm\n o\n', ' include "i"\n', ' seg s\n org $300\n%s', ' rorg $900\n%s rend\n', ' subroutine\n%s', ' seg.u u\n org 5\n%s']
    for c in calls:
        for w1 in wraps:
            for w2 in wraps:
                if '%s' not in w1:
                    continue
                body = w1.replace('%s', w2.replace('%s', c))
                if body.count(' mac o') > 1:
                    continue
                if 'q' in c and 'repeat' in body:
                    continue
                yield ((('a.asm', P + m + body + ' dc.b $ff\n dc.w .,x\nlate = 1\n'), ('i', c)), ('-f2',))


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    n = 4 + k
    return [
        progs('expansion', 'balanced bodies of 1..%d lines out of %d x %d calls: equal to the text with the arguments put in' % (n, len(LINES), len(CALLS)), lambda: expansions(n), same),
        progs('arguments', 'argument shapes x uses', arguments),
        progs('many', '0..200 arguments, argument numbers, lengths of arguments and names', many),
        progs('nested', 'words over bodies of two macros calling each other (lengths 1..3 and 1..%d)' % (3 + k), lambda: nested(3 + k)),
        progs('mexit', 'MEXIT and unfinished blocks at every place of a body of up to 5 lines', mexits),
        progs('recursion', 'recursion depth 0..39, chains of 1..39 macros', recursion),
        progs('definitions', 'names in any case, 23 bodies that are not run, words of length 1..4 over 10 statements defining and calling', definitions),
        progs('end', 'END in macros 0..5 deep, in 6x5 surroundings, in the first and in an included file', gen.ended),
        progs('contexts', '8 calls in 11x11 contexts, with listing', contexts, proglist),
        Space('scale', 'up to 70000 calls, lines of a body and definitions', lambda: scale.macros(scale.counts(tier == 'thorough')), scale.exactly, chunk=1),
    ]
