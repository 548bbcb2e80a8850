"""P10: conditional assembly."""
import scale
from common import Space, prog, proglist, progs, texts, words

P = ' processor 6502\n org 0\nk = 1\n'

IFS = [' if 0\n', ' if 1\n', ' if f\n', ' ifconst k\n', ' ifnconst k\n', ' else\n', ' endif\n', ' dc.b %d\n']


def numbered(t):
    n = 1
    while '%d' in t:
        t = t.replace('%d', str(n), 1)
        n += 1
    return t


def ifwords(alphabet, maxlen, minlen=0, tail=''):
    """Words of structure statements with a numbered marker after each."""
    for w in words(alphabet, maxlen, minlen):
        yield (P + ' dc.b 1\n' + ''.join(s + ' dc.b %d\n' % (i + 2) for i, s in enumerate(w)) + tail, ())


LABELLED = ['%s if 0\n', '%s if 1\n', '%s if f\n', '%s else\n', '%s endif\n', '%s ifconst k\n', '%s ifnconst k\n', '%s: endif\n', '.%s else\n', '%s: else\n']


def labelled(maxlen):
    """Labels on the lines of the conditionals themselves, with their values or whether they exist."""
    for w in words(LABELLED, maxlen, 1):
        t, use = '', ''
        for i, s in enumerate(w):
            n = 'l%d' % i
            t += s % n + ' dc.b %d\n' % (i + 2)
            n = ('.' if s[0] == '.' else '') + n
            use += ' ifconst %s\n dc.w %s\n else\n dc.b $ff\n endif\n' % (n, n)
        yield (P + ' dc.b 1\n' + t + ' endif\n' * 0 + use + 'f = 1\n', ())
        # closed in any case: what remains open is closed by the end of a macro
        yield (P + ' mac mm\n' + t + ' endm\n mm\n' + use.replace('.l', 'l') + 'f = 0\n', ())


def trees(depth, width):
    """Every balanced nest: sequence of blocks, each an IF with an optional ELSE, bodies again such sequences."""
    def seqs(d, w):
        yield ''
        if d == 0 or w == 0:
            return
        for first in blocks(d, w):
            yield first
    def blocks(d, w):
        for c in (' if 0\n', ' if 1\n', ' if f\n', ' if g\n', ' ifconst z\n', ' ifndef z\n'):
            for a in seqs(d - 1, w):
                yield c + ' dc.b %d\n' + a + ' dc.b %d\n endif\n'
                for b in seqs(d - 1, w):
                    yield c + ' dc.b %d\n' + a + ' else\n dc.b %d\n' + b + ' endif\n'
    for t in blocks(depth, width):
        yield (numbered(P + t + ' dc.b %d\nf = 1\ng = 0\n'), ())


JUNK = [' foo bar\n', ' lda (((\n', ' dc.b "abc\n', " lda '\n", '"\n', ' dc.b {9}\n', ' err\n', ' include "nofile"\n', ' incbin "nofile"\n', 'a b c d\n', ' mac q\n dc.b 1\n endm\n', ' mac q\n if 0\n endm\n', ' mac q\n endif\n endm\n',
        ' mexit\n', ' end\n', ' repeat 3\n dc.b 1\n repend\n', ' repeat und\n dc.b 1\n repend\n', ' repeat 0\n dc.b 1\n repend\n', ' repeat -1\n repend\n', '+++\n', ' processor foo\n', ' seg.u z\n', "don't do this\n", '=5\n', ' = 5\n',
        'k = 2\n', 'k set 3\n', 'x = und\n', 'x,und = 1\n', 'x,"abc dc.b 1\n', ' org 9\n', ' org und\n', ' rorg 9\n', ' rend\n', ' dc.b 1/0\n', ' ds -1\n', ' align 0\n', 'l\n', 'l: nop\n', '.l nop\n', '1$ nop\n', ' subroutine\n', ' if und\n dc.b 1\n endif\n',
        ' if 1/0\n endif\n', ' if (((\n endif\n', ' if\n endif\n', ' ifconst (((\n else\n endif\n', ' if 1\n else\n dc.b 1\n endif\n', ' if 0\n else\n dc.b 1\n endif\n', ' ifnconst und\n dc.b 1\n endif\n', ' ifndef und\n dc.b 1\n endif\n', ' ifdef k\n', ' elseif\n',
        ' echo "no"\n', ' list off\n', ' m\n', ' m 1,2\n', ' hex 0\n', ' bne k+5000\n', ' lda.w #5\n', ' lda #300\n', ' dv x 1\n', 'x eqm x\n', 'x setsym 5\n', ' incdir "zz"\n', ' trace on\n', '/* c */ dc.b 1\n', '; endif\n', ' dc.b 1 ; endif\n', 'endif\n', 'else\n', '^endif\n',
        '\n', ' ' * 50 + '\n', 'x' * 1000 + '\n', ' {1}\n', ' {\n', '}\n', ' .\n', '.\n', '..\n', '*\n', ' dc.b "endif"\n', ' if 0 ; x\n ELSE\n EndIf\n', ' IF 0\n .else\n .endif\n', ' #if 0\n #endif\n', '\x01\x02\n', '\xff\xfe\n', ' eif\n if 0\n']


def junk():
    mac = ' mac m\n dc.b {1}\n endm\n'
    for j in JUNK:
        for pre, post in ((' if 0\n', ' endif\n'), (' if 1\n dc.b 2\n else\n', ' endif\n'), (' if 0\n if 1\n', ' endif\n endif\n'), (' if 0\n if 0\n else\n', ' endif\n endif\n'),
                          (' if 0\n', ' else\n dc.b 4\n endif\n'), (' ifconst und\n', ' endif\n'), (' ifnconst k\n', ' endif\n'), (' repeat 0\n', ' repend\n'), (' if late\n', ' endif\n'), (' repeat 2\n if 0\n', ' endif\n repend\n'),
                          (' mac sk\n if 0\n', ' endif\n dc.b 6\n endm\n sk\n')):
            for z in ('', 'z dc.w late\n'):
                if '{' in j and 'mac' in pre and j.strip() in ('{', '}'):
                    continue
                if 'mac q' in j and 'mac sk' in pre:
                    continue
                yield (P + mac + pre + j + post + ' dc.b 9\n' + z + 'late = 0\n', ())
    # with -S a second definition of a macro is an error, but not one in skipped text
    for w in ('mac', 'macro'):
        for pre, post in ((' if 0\n', ' endif\n'), (' if 1\n dc.b 2\n else\n', ' endif\n'), (' if 0\n if 1\n', ' endif\n endif\n'), (' ifconst und\n', ' endif\n'), (' ifnconst k\n', ' endif\n'), (' repeat 0\n', ' repend\n'), (' if 1\n', ' endif\n'), ('', '')):
            for opts in ((), ('-S',)):
                for z in ('', 'z dc.w late\nlate = 0\n'):
                    for body in (' dc.b 7\n', '', ' dc.b {1}+1\n'):
                        yield (P + 'k = 2\n' + mac + pre + ' %s m\n' % w + body + ' endm\n' + post + ' m 5\n' + z, opts)
                        yield (P + 'k = 2\n' + pre + ' %s m\n' % w + body + ' endm\n' + post + mac + ' m 5\n' + z, opts)


def values():
    """Which values select."""
    conds = ['0', '1', '-1', '2', '$100', '$10000', '$100000000', '1<<63', '1-1', 'k', 'k-1', '!k', 'f', 'f-6', 'f==6', 'f<6', '!f', '"A"-65', "'A-65", 'und', 'f&&und', '.', '*', '.-1', '[0]', '(1)', 'x', 'x-1', 'e', 'e-1', '0*f', 'f-f', 'k==1', 'k!=1', 'k>0', 'k<0', '0&&und', '1||und', '0?und', '%0', '00', '$0']
    for c in conds:
        for w in (' if', ' IF', ' ifconst', ' ifnconst', ' ifndef', ' .if', ' .IFCONST', ' ifdef'):
            if w == ' ifdef':
                continue
            for d in ('f = 6\n', 'f dc.b 1\n', ''):
                yield (P + 'x set 1\ne eqm x\n%s %s\n dc.b 2\n else\n dc.b 3\n endif\n%s' % (w, c, d), ())
                yield (P + 'x set 1\ne eqm x\n if 1\n%s %s\n dc.b 2\n endif\n dc.b 4\n endif\n%s' % (w, c, d), ())


def defined():
    st = [' ifconst a\n dc.b 1\n endif\n', ' ifnconst a\n dc.b 2\n endif\n', ' ifndef a\n dc.b 3\n endif\n', 'a = 5\n', 'a\n', 'a set 6\n', 'a eqm 7\n', ' ifnconst a\na = 8\n endif\n', ' ifconst b+a\n dc.b 4\n endif\n', 'b = 1\n',
          'a set "str"\n', ' dc.b <a\n', ' lda late\n', 'a = und\n']
    return texts(P, st, 4, tail='late = $30\n')


def macros():
    """Conditionals opened and closed in macros, repeats and included files."""
    body = [' if {1}\n', ' if 1\n', ' else\n', ' endif\n', ' dc.b 5\n', ' mexit\n']
    for w in words(body, 4, 1):
        m = ' mac m\n' + ''.join(w) + ' endm\n'
        yield (P + m + ' m 0\n dc.b 7\n m 1\n dc.b 8\n', ())
        yield (P + m + ' if 0\n m 1\n else\n m 0\n dc.b 9\n endif\n dc.b 8\n', ())
        yield (P + m + ' if 1\n m 1\n dc.b 7\n else\n m 0\n dc.b 9\n endif\n dc.b 8\n', ())
    fbody = [' if 0\n', ' if 1\n', ' else\n', ' endif\n', ' dc.b 5\n', ' if late\n']
    for w in words(fbody, 4, 1):
        inc = ''.join(w)
        for main in (' include "i"\n dc.b 7\n', ' if 1\n include "i"\n dc.b 7\n else\n dc.b 8\n endif\n dc.b 9\n', ' if 0\n include "i"\n dc.b 7\n else\n dc.b 8\n include "i"\n endif\n dc.b 9\n'):
            yield ((('a.asm', P + main + 'late = 0\n'), ('i', inc)), ())
    rb = [' if x-1\n', ' if 1\n', ' else\n', ' endif\n', ' dc.b x\n', 'x set x+1\n']
    for w in words(rb, 5, 1):
        yield (P + 'x set 1\n repeat 3\n' + ''.join(w) + ' repend\n dc.b 7\n', ())


def deep():
    for n in list(range(1, 70)) + [100, 127, 128, 129, 200, 255, 256, 257, 500, 1000]:
        for c in (' if 1\n', ' if 0\n', ' if f\n', ' ifconst k\n'):
            yield (P + c * n + ' dc.b 1\n' + ' endif\n' * n + ' dc.b 2\nf = 1\n', ())
            yield (P + (c + ' dc.b 3\n else\n dc.b 4\n') * n + ' dc.b 1\n' + ' endif\n' * n + ' dc.b 2\nf = 1\n', ())
            yield (P + (c + ' dc.b 3\n else\n') * n + ' endif\n' * (n - 1) + ' dc.b 5\n endif\n dc.b 2\nf = 0\n', ())


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        progs('structure', 'words of length <= %d over 7 conditional statements, a marker after each' % (5 + k), lambda: ifwords(IFS[:7], 5 + k, tail='f = 1\n')),
        progs('structure-2', 'words of length <= %d over if / else / endif with listing' % (8 + k), lambda: ifwords([' if 0\n', ' if 1\n', ' else\n', ' endif\n'], 7 + k), proglist),
        progs('labelled', 'words of length <= %d over %d conditional statements with labels' % (4 + k, len(LABELLED)), lambda: labelled(4 + k)),
        progs('trees', 'every nest of depth 2 with six conditions', lambda: trees(2, 1)),
        progs('skipped', '%d kinds of text in skipped places x 11 ways to skip x 2 passes; macros defined again in 8 places, with and without -S' % len(JUNK), junk),
        progs('values', '39 conditions x 7 spellings x 3 definitions', values),
        progs('defined', 'words of length <= 4 over 14 statements testing and defining a symbol', defined),
        progs('nested-files', 'conditionals within macros, included files and repeats', macros),
        progs('deep', 'nesting up to 1000', deep),
        Space('scale', 'up to 131073 conditionals one after the other, nested, and skipped lines', lambda: scale.conditions(scale.counts(tier == 'thorough')), scale.exactly, chunk=1),
    ]
