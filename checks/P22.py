"""P22: no source and no options crash or hang the tools."""
import itertools

import gen
from common import Case, Space, batches, filelist, progs, short, words

ENV = {'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:strict_string_checks=1',
       'UBSAN_OPTIONS': 'abort_on_error=1:halt_on_error=1'}
VARIANTS = {'dasm': ('plain', 'dasm', {}), 'ftohex': ('plain', 'ftohex', {}), 'adasm': ('asan', 'dasm', ENV), 'aftohex': ('asan', 'ftohex', ENV)}
NOTES = ('programs run with the address and undefined-behaviour sanitizers where a space says so',)

P = ' processor 6502\n org $100\n'


def bad(r, what=''):
    if r.rc < 0:
        return '%sended by signal %d%s: %s' % (what, -r.rc, ' (time limit)' if r.timeout() else '', short(r.err[-600:], 700))
    if b'Sanitizer' in r.err or b'runtime error' in r.err:
        return '%s%s' % (what, short(r.err[:600], 700))
    if r.rc > 64:
        return '%sexit status %d: %s' % (what, r.rc, short(r.err[-300:]))
    return None


def runs(prog):
    def script(item):
        """Item (files, args): ends by itself."""
        files, args = item
        fl = filelist(files)
        r, = yield [Case([fl[0][0], *args], fl, ('a.out', 'o', 'l', 's'), prog=prog)]
        return bad(r)
    return script


asan, plain = runs('adasm'), runs('dasm')


def san(name, bound, items, chunk=16):
    return Space(name, bound + '; with sanitizers', items, asan, chunk=chunk)


DIRECTIVES = ['org', 'rorg', 'rend', 'ds', 'ds.w', 'ds.l', 'dc', 'dc.b', 'dc.w', 'dc.l', 'byte', 'word', 'long', 'dv', 'dv.w', 'hex', 'align', 'equ', '=', 'set', 'eqm', 'setstr', 'setsym', 'echo', 'if', 'ifconst', 'ifnconst', 'else', 'endif', 'eif', 'repeat', 'repend', 'mac', 'macro', 'endm', 'mexit', 'include', 'incbin', 'incdir', 'seg', 'seg.u', 'subroutine', 'processor', 'end', 'err', 'list', 'trace', 'undefined', 'lda', 'lda.w', 'lda.b', 'jmp', 'bne', 'm', 'sleep', '.byte', '#dc', 'dc.x', 'dc.', '.', 'incbin.b', 'mac.w', 'end.b', 'nop.', 'dc.bw', 'lda.abcdefgh', 'org.w', 'rend.l']
OPERANDS = ['', '1', '-1', '$ffffffff', '$7fffffffffffffff', '-$7fffffffffffffff-1', '$ffffffffffffffffff', 'x', 'f', 'u', '.', '*', '..', '.l', '1$', '"str"', '""', '"', "'", "'a", "''", '(', ')', '[', ']', '{', '}', '{1}', '{0}', '{99}', '{-1}', '{x}', '()', '[]', '[1]d', '[x]d', '1,2', ',', ',,', '1,', ',1', '#', '#1', '#x', '#"a"', '(1)', '(1),y', '(1,x)', '1,x', '1,y', 'x,x', '+', '-', '!', '~', '<', '>', '/', '%', '&', '|', '^', '?', '=', '==', '<<', '>>', '&&', '||', '1+', '+1', '1/0', '1%0', '1<<64', '1<<-1', '-1>>63', '1<<1000', '1?2?3', 'x.y', 'x/y', '0x10', '$', '%', '%1', '%2', '0', '08', '@', '\\', '`', ';', '/*', '*/', '1 2', 'a b c', 'on', 'off', 'localon', 'x x', 'u.s', 'no.file', 'self', '"self"', '"no.file"', '"no.file",1', '"b",1,1', '"b",-1', '"b",99', 'e', 'm', '6502', 'f8', '68hc11', '.x', '[[1]]', '((((1', '))))', '1]]]]', '"a"+1', '"a"+"b"', 'e,e', '1,"a",$', '"abc", 5', '\t', '1\t,\t2', '\x01', '\xff', '\x80', 'a\x00b', 'e2', 'k k', 'q 1,2', '-9223372036854775808/-1', '-9223372036854775808%-1', '9223372036854775807+1', '9223372036854775807*2', '- -1', '-(-9223372036854775807-1)']
LABELS = ['', 'l', '.l', '1$', 'l:', '^l', 'l,5', 'l,"s"', '"', ',', ':', '$', '{1}', '0', 'l.m', 'x']
SETUP = P + 'x set 5\ne eqm x+1\ne2 eqm e2\nk = "str"\nq eqm ..\n mac m\n dc.b {1}\n.a bne .a\n endm\n'


def statements(labels, prog_tail=' nop\nf = 5\n'):
    for l, d, o in itertools.product(labels, DIRECTIVES, OPERANDS):
        if d == 'repeat' and ('ffff' in o or '922337' in o or '<<' in o or o in ('.', '*')):
            continue
        yield ((('a.asm', (SETUP + '%s %s %s\n' % (l, d, o) + prog_tail).encode('latin-1')), ('self', ' nop\n'), ('b', b'abc')), ())


def mnemonic_lines():
    """Every instruction of every processor with every operand, 12 to a program."""
    for cpu in gen.CPUS:
        ops = [o for o in OPERANDS if '/*' not in o and '*/' not in o and o not in ('((((1', '[', '(')]
        for m in gen.mnemonics(cpu):
            for b in batches(ops, 16):
                yield ((('a.asm', (' processor %s\n org $100\nx = 5\nf = 5\ne eqm x+1\n' % cpu + ''.join(' %s %s\n' % (m, o) for o in b)).encode('latin-1')),), ())


CHARS = [chr(i) for i in range(1, 256) if i not in (10,)]
SOME = [c for c in '\t\r !"#$%&\'()*+,-./019:;<=>?@[\\]^_`aAz{|}~\x01\x7f\x80\xff']


def lines(contexts, chars, n, per):
    for ctx in contexts:
        for b in batches((''.join(w) for w in words(chars, n, n)), per):
            yield ((('a.asm', (SETUP + ''.join(ctx % s + '\n' for s in b)).encode('latin-1')),), ())


CTX = ['%s', ' dc.b %s', ' %s', 'l%s', ' lda %s', ' dc "%s"', ' m %s', ' if %s\n endif', 'y set %s', ' include %s', ' incbin %s', ' lda.%s 1', ' hex %s', ' echo %s', ' seg %s', ' mac %s\n nop\n endm', ' nop ;%s', ' nop /*%s', ' list %s', ' processor %s', ' setsym %s', ' dv q %s', ' #%s', 'x eqm %s', '%s eqm 1', '%s = 1', '%s, nop', '{%s} nop', ' dc.b {%s}', ' m {%s}', ' org %s', ' incdir %s', ' subroutine %s', ' ds %s', 'l,%s nop']


BLOCKS = [' mac a\n', ' endm\n', ' repeat 2\n', ' repend\n', ' if 0\n', ' else\n', ' endif\n', ' mexit\n', ' include "i"\n', ' a 1\n', '/*\n', '*/\n', ' end\n', ' dc.b {1}\n', ' rorg 9\n', ' include "a.asm"\n']


def structures(n, alphabet=None):
    al = alphabet or [' mac a\n', ' endm\n', ' repeat 2\n', ' repend\n', ' if x\n', ' if 0\n', ' else\n', ' endif\n', ' mexit\n', ' include "i"\n', ' a 1\n', 'x set x-1\n', '/*\n', '*/\n', ' end\n', ' dc.b {1}\n', ' seg.u v\n', ' org 5\n', ' rorg 9\n', ' rend\n', ' subroutine\n', '.l lda .l\n', ' processor 6502\n', ' include "a.asm"\n']
    for w in words(al, n, n):
        yield ((('a.asm', P + 'x set 2\n' + ''.join(w)), ('i', ' repeat 2\n nop\n if 1\n')), ())


def exprs(n):
    tk = ['1', 'x', 'f', 'u', '"s"', '(', ')', '[', ']', '+', '-', '*', '/', '%', '<<', '!', '?', ',', '$', "'", '.', 'e', '#', ']d']
    for b in batches((''.join(w) for w in words(tk, n, 1)), 24):
        if any('[' in e or '(' in e for e in b):
            for e in b:
                if '[' in e or '(' in e or e.count('"') & 1:
                    yield ((('a.asm', SETUP + 'f = 5\n dc.w %s\n' % e),), ())
        rest = [e for e in b if '[' not in e and '(' not in e]
        yield ((('a.asm', SETUP + 'f = 5\n' + ''.join(' dc.w %s\n' % e for e in rest)),), ())


def contexts_expr(n):
    tk = ['1', 'x', 'u', '"s"', '(', ')', '[', ']', '+', '-', '/', '<<', ',', '$', "'", '.', 'e', '#']
    for c in (' org %s\n', ' ds %s\n', ' if %s\n endif\n', ' align %s\n', ' lda %s\n', 'y = %s\n', ' echo %s\n', 'l,%s nop\n', ' rorg %s\n', ' dv q %s\n', ' bne %s\n', 'y eqm %s\n dc.b y\n'):
        for w in words(tk, n, 1):
            yield ((('a.asm', SETUP + c % ''.join(w)),), ())


def lengths(step):
    """Over-long things: names, operands, lines, lists, nesting."""
    ns = sorted(set(range(0, 70 if step < 100 else 40)) | set(range(80, 1100, step)) | {k + d for k in (64, 128, 256, 512, 1024) for d in range(-8, 9, 1 if step < 100 else 2)} | {1000, 1010, 1015, 1019, 1021, 1022, 1023, 1024, 2048, 4096, 8191, 8192})
    T = [
        lambda n: '%s nop\n dc.w %s\n' % ('l' * n, 'l' * n),
        lambda n: ' %s 1\n' % ('o' * n),
        lambda n: ' dc.b %s\n' % ('1' * n),
        lambda n: ' dc.b $%s\n' % ('f' * n),
        lambda n: ' dc "%s"\n' % ('s' * n),
        lambda n: 's = "%s"\n dc s\n' % ('s' * n),
        lambda n: ' nop ;%s\n' % ('c' * n),
        lambda n: ' nop %s\n' % (' ' * n),
        lambda n: '%snop\n' % (' ' * n),
        lambda n: '%snop\n' % ('\t' * n),
        lambda n: ' dc.b %s1\n' % ('-' * n),
        lambda n: ' dc.b %s1\n' % ('~' * n),
        lambda n: ' dc.b %s1%s\n' % ('(' * n, ')' * n),
        lambda n: ' dc.b %s1%s\n' % ('[' * n, ']' * n),
        lambda n: ' dc.b %s1\n' % ('1+' * n),
        lambda n: ' dc.b %s1\n' % ('1,' * n),
        lambda n: ' dc.w %s1\n' % ('u,' * n),
        lambda n: ' lda.%s 1\n' % ('w' * n),
        lambda n: ' m %s\n' % ('a' * n),
        lambda n: ' m %s1\n' % ('1,' * n),
        lambda n: ' m {%s}\n' % ('1' * n),
        lambda n: ' dc.b {%s}\n' % ('1' * n),
        lambda n: ' mac %s\n nop\n endm\n %s\n' % ('q' * n, 'q' * n),
        lambda n: ' include "%s"\n' % ('i' * n),
        lambda n: ' include %s\n' % ('i' * n),
        lambda n: ' incbin "%s"\n' % ('i' * n),
        lambda n: ' incdir "%s"\n include "i"\n' % ('d' * n),
        lambda n: ' incdir "%s"\n include "%s"\n' % ('d' * n, 'i' * n),
        lambda n: ' seg %s\n' % ('s' * n),
        lambda n: ' seg.u %s\n org 5\nq ds 1\n' % ('s' * n),
        lambda n: ' processor %s\n' % ('p' * n),
        lambda n: ' list %s\n' % ('p' * n),
        lambda n: ' hex %s\n' % ('0' * n),
        lambda n: ' hex %s\n' % ('ab ' * n),
        lambda n: ' echo "%s"\n' % ('e' * n),
        lambda n: ' echo %s1\n' % ('1,' * n),
        lambda n: 'z eqm %s\n dc.b z\n' % ('1' * n),
        lambda n: 'z eqm %s1\n dc.b z\n' % ('1+' * n),
        lambda n: 'z,%s nop\n' % ('1' * n),
        lambda n: 'z%s nop\n' % (',1' * n),
        lambda n: 'z%s nop\n' % (',"s"' * n),
        lambda n: '.%s nop\n dc.w .%s\n' % ('l' * n, 'l' * n),
        lambda n: '%s$ nop\n dc.w %s$\n' % ('1' * n, '1' * n),
        lambda n: ' setsym %s\n' % ('y' * n),
        lambda n: ' nop /* %s */\n' % ('c' * n),
        lambda n: '/*\n%s\n*/\n nop\n' % ('c' * n),
        lambda n: ' if 1\n' * n + ' nop\n' + ' endif\n' * n,
        lambda n: ' repeat 1\n' * min(n, 300) + ' nop\n' + ' repend\n' * min(n, 300),
        lambda n: ' foo %s\n' % ('x' * n),
        lambda n: ' lda #%s\n' % ('x' * n),
        lambda n: ' lda (%s),y\n' % ('x' * n),
        lambda n: ' bne %s\n' % ('x' * n),
        lambda n: ' lda %s,x\n' % ('$' + '0' * n + '5'),
        lambda n: ' dc.b %%%s\n' % ('0' * n),
        lambda n: ' dc.b 0%s\n' % ('0' * n),
        lambda n: " dc.b '%s\n" % ('a' * n),
        lambda n: ' dc.b %s\n' % ('"a",' * n + '1'),
        lambda n: ' dc.b %s\n' % ('"a"+' * n + '1'),
        lambda n: ' dc.b %s\n' % ('[1]d,' * n + '1'),
        lambda n: ' dc.b %s1\n' % ('1?' * n),
        lambda n: 'a%s\n' % ('a' * n),
        lambda n: 'a' * n,
        lambda n: ' ' * n,
        lambda n: ' dc.b 1' + ' ' * n,
        lambda n: '\x01' * n + '\n',
        lambda n: '\xff' * n + '\n nop\n',
        lambda n: '{' * n + '\n nop\n',
        lambda n: ' ' + '"' * n + '\n nop\n',
        lambda n: '%s^l nop\n' % ('^' * n),
        lambda n: ' mac w\n dc.b {%d}\n endm\n w %s\n' % (n, '1,' * min(n, 200) + '1'),
        lambda n: ' mac w\n dc.b "%s{1}"\n %s{1}\n endm\n w %s\n' % ('s' * (n // 2), 's' * (n // 2), 'a' * (n // 2)),
        lambda n: ' mac w\n dc.b %s\n endm\n w 1,2\n' % ('{1}+{2}+' * n + '1'),
        lambda n: ' mac w\n dc.b %s\n endm\n w %s\n' % ('{1}' * min(n, 100), '1' * n),
        lambda n: ' nop\r' * n,
        lambda n: ' nop\r\n' * n,
        lambda n: ' seg s%d\n org 1\n nop\n' % n + ''.join(' seg t%d\n org %d\n nop\n' % (i, i) for i in range(min(n, 300))),
        lambda n: ' ds %d,1\n nop\n' % n,
        lambda n: ' ds.l %d,1\n nop\n' % n,
        lambda n: ' align %d\n nop\n' % (n + 1),
        lambda n: ' dc.l %s1\n' % ('1,' * n),
        lambda n: ' incbin "b",%d\n' % n,
        lambda n: ' dc.%s 1\n' % ('b' * n),
        lambda n: ' dv q %s1\n' % ('1,' * n),
        lambda n: 'z%s setstr s%s\n dc z%s\n' % (('y' * n,) * 3),
    ]
    for t in T:
        for n in ns:
            yield ((('a.asm', (SETUP + t(n)).encode('latin-1')), ('b', bytes(300))), ('-ll', '-ss'))
    F = [' lr a,%s', ' lr %s,a', ' li %s', ' lis %s', ' dci %s', ' pi %s', ' ins %s', ' bt %s,.', ' bt 1,%s', ' as %s', ' br %s', ' lisu %s', ' sl %s', ' out %s', ' db %s', ' %s']
    for t in F:
        for n in ns:
            for c in ('1', 'x', '(', '1,'):
                if len(t) + n * len(c) < 1100:
                    yield ((('a.asm', ' processor f8\n org 0\n' + t % (c * n) + '\n'),), ('-ll',))
    for c, m in (('68hc11', 'ldaa %s'), ('68hc11', 'brset %s,1,.'), ('68hc11', 'bset %s,x,5'), ('68705', 'brset %s,5,.'), ('68705', 'bset %s'), ('68908', 'mov %s,5'), ('68908', 'cbeq %s,.'), ('6803', 'ldd %s'), ('hd6303', 'aim %s,5'), ('65c02', 'bbr0 5,%s')):
        for n in ns:
            for x in ('x', '0', '(', '1,', '#'):
                if n * len(x) < 1100:
                    yield ((('a.asm', ' processor %s\n org 0\n ' % c + m % (x * n) + '\n'),), ())


def amplified(step):
    """Short lines that stand for long texts: names built from long strings and numbers, arguments used many times, expressions used in expressions."""
    ns = [0, 1, 2, 3, 5, 10, 30, 50, 60, 63, 64, 65, 80, 99, 100, 101, 102, 103, 104, 105, 110, 113, 114, 115, 126, 127, 128, 129, 170, 200, 250, 255, 256, 257, 300, 330]
    ns = sorted(set(ns) | set(range(0, 330, step)))
    stems = ['z', '.z', '5', '^z', 'z:', ' z', '', '.', 'zz.z']
    vals = ['1', '1000000000', '-1000000000', '$7fffffffffffffff', '"0123456789"', '"' + 'q' * 100 + '"', '"' + 'q' * 900 + '"', '""', '. ']
    tails = ['nop', '= 1', 'set 1', 'eqm 1', 'equ 5', 'mac', 'dc.b 1', '', 'setstr a', 'subroutine', 'seg', 'ds 2', 'org 5']
    for st in stems:
        for v in vals:
            for n in ns:
                for tl in tails[:3] if n > 10 and st not in ('z', '.z') else tails[:8]:
                    yield ((('a.asm', P + 'n = %s\n%s%s %s\n nop\n' % (v, st, ',n' * n, tl)),), ('-ss', '-ll'))
    for v in vals:
        for n in ns:
            for u in (' dc.b n%s\n', 'a set z%s\n', 'a set .z%s\n dc.b a\n', ' echo n%s\n', ' dv q n%s\n', ' mac w\n dc.b {1}\n endm\n w n%s\n', 'a = n%s\n', 'a eqm n%s\n dc.b a\n', ' lda n%s\n', ' if n%s\n endif\n'):
                yield ((('a.asm', SETUP + 'n = %s\n' % v + u % (',n' * n)),), ('-ss', '-ll'))
    for n in (1, 10, 100, 200, 250, 255, 256, 300, 330, 400, 500, 600, 800, 900, 1000):
        for k in (1, 2, 3, 4, 5, 8, 10, 20, 50, 100, 200, 300):
            a = 'a' * n
            for body in (' dc.b "%s"\n', ' dc.b %s\n', '%s nop\n', '.%s nop\n', ' %s\n', ' lda.%s 1\n', ' m %s\n', ' include "%s"\n', ';%s\n', ' echo "%s"\n', '%s = 1\n', ' nop %s\n', ' dc.b 1 ;%s\n', '/*%s*/\n', 'l %s\n', ' if %s\n endif\n', ' seg %s\n', 'l,%s nop\n'):
                yield ((('a.asm', SETUP + ' mac w\n' + body % ('{1}' * k) + ' endm\n w %s\n' % a),), ('-ll',))
        # every level doubles the argument
        for d in (1, 2, 3, 4, 6, 10):
            yield ((('a.asm', P + ''.join(' mac w%d\n w%d {1}{1}\n endm\n' % (i, i + 1) for i in range(d)) + ' mac w%d\n dc.b "{1}"\n endm\n w0 %s\n' % (d, 'a' * n)),), ('-ll',))
            yield ((('a.asm', P + ''.join('s%d eqm %s\n' % (i, 's%d+s%d' % (i + 1, i + 1)) for i in range(d)) + 's%d eqm %s\n dc.w s0\n' % (d, '1' + '+1' * (n // 2))),), ('-ss', '-ll'))
            yield ((('a.asm', P + 's set "%s"\n' % ('a' * min(n, 990)) + ' dc s%s\n echo s%s\n' % (',s' * d, ',s' * d)),), ('-ss', '-ll'))
            yield ((('a.asm', P + ' dc s%s\n echo s%s\n' % (',s' * d, ',s' * d)),), ('-ss', '-ll', '-Ds="%s"' % ('a' * n)))
    # a name with a long rest of the line behind it
    for name in ('z', '.z', '1$', '^z', '.', '..', '...', '1', '$1', "'q", '"q"', '{1}', 'nop', 'mac', 'w'):
        for rest in ('+1', ',1', '-.', '|z', '*1$', ' ', '!', '<', '[', ')'):
            for k in (10, 100, 250, 300, 345, 400, 450, 500, 505, 510, 515, 520, 600, 800, 1000, 1010, 1020, 1030):
                r = (rest * k)[:520 if rest == ')' and name == '^z' else 1030]       # the messages grow with the square
                yield ((('a.asm', P + ' dc.b %s%s\n' % (name, r)),), ('-ss', '-ll'))
                yield ((('a.asm', P + 'a set %s%s\n dc.b a\na eqm %s%s\n dc.b a\n' % (name, r, name, r)),), ('-ss', '-ll'))
                if rest in (',1', ' ', '!', '['):
                    yield ((('a.asm', P + '%s%s\n' % (name, r)),), ('-ss', '-ll'))
                    yield ((('a.asm', P + ' %s%s\n lda.%s%s\n' % (name, r, name, r)),), ('-ss', '-ll'))
    for a in (1, 100, 500, 900, 1000):
        for b in (1, 100, 500, 900, 1000):
            yield ((('a.asm', P + ' incdir "%s"\n include "%s"\n' % ('d' * a, 'i' * b)),), ())
            yield ((('a.asm', P + ' include "%s"\n incbin "%s"\n' % ('i' * b, 'i' * b)),), ('-I' + 'd' * a, '-I' + 'd/' * a))
            yield ((('a.asm', P + ' mac %s\n %s\n endm\n %s %s\n' % ('m' * a, 'f' * b, 'm' * a, 'x' * b)),), ('-ll',))
            yield ((('a.asm', P + '%s subroutine\n.%s nop\n lda .%s\n' % ('s' * a, 'l' * b, 'l' * b)),), ('-ll', '-ss'))
            yield ((('a.asm', P + ' seg %s\n org 5\n %s\n' % ('s' * a, 'f' * b)),), ('-v4', '-ll'))
            yield ((('a.asm', P + ' seg.u %s\n org 5\n%s nop\n' % ('s' * a, 'f' * b)),), ('-v4', '-Ll', '-ss', '-T1'))


def le(v):
    return (v & 0xffff).to_bytes(2, 'little')


# name, largest n that must be accepted, source lines, bytes, (options, other files)
LONG = [
    ('label', 500, lambda n: '%s nop\n dc.w %s\n' % ('l' * n, 'l' * n), lambda n: b'\xea\x00\x01', None),
    ('labels', 400, lambda n: '%sx = 1\n%sy = 2\n dc.b %sx,%sy\n' % (('l' * (n - 1),) * 4), lambda n: b'\x01\x02', None),
    ('local', 400, lambda n: '.%sx nop\n.%sy nop\n dc.w .%sx,.%sy\n' % (('l' * (n - 1),) * 4), lambda n: b'\xea\xea\x00\x01\x01\x01', None),
    ('string', 900, lambda n: ' dc "%s"\n' % ('s' * n), lambda n: b's' * n, None),
    ('strsym', 900, lambda n: 's = "%s"\n dc s\n' % ('s' * n), lambda n: b's' * n, None),
    ('zeros', 200, lambda n: ' dc.b $%s5,%%%s1,%s7,0%s3\n' % ('0' * n, '0' * n, '', '0' * (n - 1)), lambda n: b'\x05\x01\x07\x03', None),
    ('comment', 9000, lambda n: ' nop ;%s\n dc.b 1\n' % ('c' * n), lambda n: b'\xea\x01', None),
    ('blanks', 900, lambda n: ' nop%s\n dc.b 1\n' % (' ' * n), lambda n: b'\xea\x01', None),
    ('indent', 900, lambda n: '%snop\n%sdc.b 1\n' % (' ' * n, '\t' * n), lambda n: b'\xea\x01', None),
    ('ccomment', 900, lambda n: ' nop /* %s */\n dc.b 1\n' % ('c' * n), lambda n: b'\xea\x01', None),
    ('mlcomment', 900, lambda n: '/*\n%s\n*/\n nop\n dc.b 1\n' % ('c' * n), lambda n: b'\xea\x01', None),
    ('inccomment', 9000, lambda n: '/*\n' + 'c\n' * n + '*/\n nop\n', lambda n: b'\xea', None),
    ('unary', 12, lambda n: ' dc.w %s5\n' % ('-' * n), lambda n: le(5 if n % 2 == 0 else -5), None),
    ('parens', 12, lambda n: ' dc.w %s5%s\n' % ('(' * n, ')' * n), lambda n: le(5), None),
    ('brackets', 12, lambda n: ' dc.w %s5%s\n' % ('[' * n, ']' * n), lambda n: le(5), None),
    ('sum', 300, lambda n: ' dc.w %s1\n' % ('1+' * n), lambda n: le(n + 1), None),
    ('right', 12, lambda n: ' dc.w %s1%s\n' % ('1+[' * n, ']' * n), lambda n: le(n + 1), None),
    ('list', 300, lambda n: ' dc.b %s2\n' % ('1,' * n), lambda n: b'\x01' * n + b'\x02', None),
    ('hex', 450, lambda n: ' hex %s\n' % ('a5' * n), lambda n: b'\xa5' * n, None),
    ('macname', 300, lambda n: ' mac %sx\n dc.b 1\n endm\n mac %sy\n dc.b 2\n endm\n %sx\n %sy\n' % (('q' * (n - 1),) * 4), lambda n: b'\x01\x02', None),
    ('macarg', 400, lambda n: ' mac w\n dc.b {1},{2}\n endm\n w %s5,7\n' % ('$' + '0' * n), lambda n: b'\x05\x07', None),
    ('macargs', 60, lambda n: ' mac w\n dc.b {%d}\n endm\n w %s\n' % (n, ','.join(str(i % 200) for i in range(1, n + 1))), lambda n: bytes([n % 200]), None),
    ('maclines', 9000, lambda n: ' mac w\n' + ' dc.b {1}\n' * n + ' endm\n w 7\n', lambda n: b'\x07' * n, None),
    ('seg', 300, lambda n: ' seg %sx\n org $100\n dc.b 1\n seg %sy\n org $101\n dc.b 2\n seg %sx\n seg %sy\n dc.b 3\n' % (('q' * (n - 1),) * 4), lambda n: b'\x01\x02\x03', None),
    ('eqm', 400, lambda n: 'z eqm %s1\n dc.w z\n' % ('1+' * n), lambda n: le(n + 1), None),
    ('dollar', 300, lambda n: '%s1$ nop\n dc.w %s1$\n' % ('1' * (n - 1), '1' * (n - 1)), lambda n: b'\xea\x00\x01', None),
    ('ifs', 60, lambda n: ' if 1\n' * n + ' nop\n' + ' endif\n' * n, lambda n: b'\xea', None),
    ('ifs0', 60, lambda n: ' if 0\n' * n + ' nop\n' + ' endif\n' * n + ' dc.b 1\n', lambda n: b'\x01', None),
    ('repeats', 30, lambda n: ' repeat 1\n' * n + ' nop\n' + ' repend\n' * n, lambda n: b'\xea', None),
    ('macros', 20, lambda n: ''.join(' mac w%d\n w%d\n dc.b %d\n endm\n' % (i, i + 1, i & 255) for i in range(n)) + ' mac w%d\n nop\n endm\n w0\n' % n, lambda n: b'\xea' + bytes((n - 1 - i) & 255 for i in range(n)), None),
    ('opblanks', 400, lambda n: ' lda%s#5\n' % (' ' * n), lambda n: b'\xa9\x05', None),
    ('arg', 400, lambda n: ' lda #%s\n%s = 5\n' % ('x' * n, 'x' * n), lambda n: b'\xa9\x05', None),
    ('index', 400, lambda n: '%s = 5\n lda (%s),y\n lda %s,x\n' % ('x' * n, 'x' * n, 'x' * n), lambda n: b'\xb1\x05\xb5\x05', None),
    ('equs', 9000, lambda n: ''.join('s%d = %d\n' % (i, i & 255) for i in range(n)) + ' dc.b s%d,s0\n' % (n - 1), lambda n: bytes([(n - 1) & 255, 0]), None),
    ('lines', 9000, lambda n: '\n' * n + ' nop\n', lambda n: b'\xea', None),
    ('include', 200, lambda n: ' include "%s"\n dc.b 1\n' % ('i' * n), lambda n: b'\x02\x01', lambda n: ((), (('i' * n, ' dc.b 2\n'),) if n < 256 else ())),
    ('incbin', 200, lambda n: ' incbin "%s"\n dc.b 1\n' % ('i' * n), lambda n: b'\x02\x01', lambda n: ((), (('i' * n, b'\x02'),) if n < 256 else ())),
    ('incdir', 200, lambda n: ' include "i"\n dc.b 1\n', lambda n: b'\x02\x01', lambda n: (('-I' + 'd' * n,), (('d' * n + '/i', ' dc.b 2\n'),) if n < 256 else ())),
    ('incdir2', 200, lambda n: ' incdir "%s"\n include "i"\n dc.b 1\n' % ('d' * n), lambda n: b'\x02\x01', lambda n: ((), (('d' * n + '/i', ' dc.b 2\n'),) if n < 256 else ())),
    ('define', 400, lambda n: ' dc.b %sx,%sy\n' % (('l' * (n - 1),) * 2), lambda n: b'\x05\x06', lambda n: (('-D%sx=5' % ('l' * (n - 1)), '-D%sy=6' % ('l' * (n - 1))), ())),
    ('defval', 300, lambda n: ' dc.w x\n', lambda n: le(n + 1), lambda n: (('-Dx=' + '1+' * n + '1',), ())),
    ('defeqm', 300, lambda n: ' dc.w x\n', lambda n: le(n + 1), lambda n: (('-Mx=' + '1+' * n + '1',), ())),
    ('defines', 200, lambda n: ' dc.b s%d\n' % (n - 1), lambda n: bytes([(n - 1) & 255]), lambda n: (tuple('-Ds%d=%d' % (i, i & 255) for i in range(n)), ())),
]


def right(item):
    """Item (index, n): a success has the right bytes; up to the stated length it is a success."""
    i, n = item
    name, top, text, want, more = LONG[i]
    args, files = more(n) if more else ((), ())
    r, = yield [Case(['a.asm', '-f3', '-oo', *args], (('a.asm', P + text(n)),) + tuple(files), ('o',), cpu=4000)]
    d = bad(r)
    if d:
        return d
    if r.rc == 0 and r.files[0] != want(n):
        return '%s of length %d: wrong output %s' % (name, n, short(r.files[0]))
    if r.rc and n <= top:
        return '%s of length %d: exit status %d: %s' % (name, n, r.rc, short(r.out[-200:]))
    return None


def long_items(most):
    ns = sorted(set(range(1, most)) | {k + d for k in (256, 512, 1024, 2048, 4096, 8192) for d in range(-3, 4)})
    for i in range(len(LONG)):
        for n in ns:
            yield (i, n)


def bytes_files(prefixes):
    for p in prefixes:
        for a in range(256):
            yield ((('a.asm', p + bytes([a])),), ())
        for a, b in itertools.product([0, 1, 9, 10, 13, 26, 32, 34, 36, 39, 42, 44, 46, 47, 48, 59, 61, 91, 94, 97, 123, 125, 128, 160, 255], repeat=2):
            yield ((('a.asm', p + bytes([a, b])),), ())


def two_bytes():
    for a, b in itertools.product(range(256), repeat=2):
        yield ((('a.asm', bytes([a, b])),), ())


def option_items():
    o = ['-' + c for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?-=+. ']
    vals = ['', '0', '1', '2', '3', '4', '9', '-1', '99999999999999999999', 'x', '=', 'x=', '=1', 'x=1', 'x="', 'x=(', 'x=[1', 'x=x', 'x=1/0', '.', 'x,y', 'x' * 300, 'x' * 2000, 'x=' + '1+' * 50 + '1', 'x=' + '(' * 50, '%s%n', 'no/x', 'x=' + 'y' * 1500, 'x' * 1200 + '=5']
    src = (('a.asm', P + 'x set 5\n nop\n dc.b x\n'), )
    for a, v in itertools.product(o, vals):
        if a in ('-o', '-l', '-L', '-s') and v.startswith('/'):
            continue
        yield (src, (a + v,))
    for a, b in itertools.product([x + v for x in ('-f', '-D', '-M', '-v', '-d', '-T', '-E', '-p', '-P', '-m', '-I', '-S', '-R', '-l', '-L', '-s', '-o') for v in ('', '1', '0', 'x')], repeat=2):
        yield (src, (a, b))
    for o, name, v, n in itertools.product(('-D', '-M'), ('x', '.x', '1$', '..', '...', '.', '', 'x' * 1000, '.' + 'x' * 1020, '1' * 1000 + '$', '1' * 1100 + '$', '.' + 'x' * 1100), ('1', '+1', '"', 'x', '1$', '.x', '(', ' ', ','), (0, 1, 100, 400, 500, 600, 1000, 1020, 1030, 1040, 1100, 2000, 5000, 10000)):
        yield (src, (o + name + '=' + v * n, '-ss'))


def usage_script(item):
    args, prog = item
    r, = yield [Case(list(args), (('a.asm', P + ' nop\n'), ('d/', '')), ('a.out', 'o', 'l', 's'), prog=prog)]
    return bad(r)


def usage_items():
    al = ['', '-', '-f3', 'a.asm', 'none', 'd', '-o', '-oo', '-Dx', '--', '-v9', '-f', '1', '2', '3', '4', 'x', '-x', '-1']
    for n in range(0, 4):
        for w in itertools.product(al, repeat=n):
            yield (w, 'adasm')
            if n < 4:
                yield (tuple('h' if x in ('a.asm',) and i == 2 else x for i, x in enumerate(w)), 'aftohex') if not (n > 2 and w[2] == '') else (w[:2], 'aftohex')


def hexfile(item):
    fmt, data = item
    r, = yield [Case([str(fmt), 'i', 'h'], (('i', data),), ('h',), prog='aftohex')]
    return bad(r)


def hex_items():
    for f in (1, 2, 3):
        for n in list(range(0, 40)) + [255, 256, 257, 1000]:
            yield (f, bytes(n))
            yield (f, b'\xff' * n)
            yield (f, bytes((i * 3 + 1) & 255 for i in range(n)))
        for w in itertools.product((0, 1, 2, 5, 16, 255), repeat=4):
            yield (f, bytes(w))


def verbose(n):
    """Everything printed: verbose, debug, list and symbol files of odd programs."""
    al = [' mac a\n nop\n endm\n', ' a\n', 'x eqm x\n', 'z eqm "s"\n', 'y = "s"\n', ' dc.b undef\n', ' seg.u v\n', ' org 5\n', ' foo\n', ' include "none"\n', ' include "i"\n', ' dc "%s%n%d"\n', ' echo "%s%n%d",1\n', ' %s%n\n', '%s%n = 1\n', ' dc.b 1,2,3,4,5,6\n', ' if 0\n', 'l\n', ' rorg 7\n', ' list off\n', 'v set -1\n', ' err\n', ' repeat 2\n nop\n repend\n', ' dc.l $12345678\n', ' lda fw\n']
    opts = [('-v4', '-d1', '-ll', '-ss'), ('-v3', '-Ll', '-ss', '-T1'), ('-v2', '-T2', '-ss', '-E1'), ('-v1', '-E2', '-ll')]
    for w in words(al, n, 1):
        for o in opts:
            yield ((('a.asm', P + ''.join(w)), ('i', ' nop\n%s foo\n')), o)


def cpus_switch():
    cs = ['6502', '65c02', '6803', 'hd6303', '68705', '68hc11', '68908', 'f8', 'foo', '']
    for a, b in itertools.product(cs, repeat=2):
        for s in (' nop\n', ' lda 5\n', ' mac nop\n dc.b 1\n endm\n nop\n', ' dc.w $1234\n', ' ldaa #5\n', ' li 5\n'):
            yield (' processor %s\n org 5\n%s processor %s\n%s' % (a, s, b, s), ())
            yield (s + ' processor %s\n' % a + s, ())


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        san('statements', 'labels x %d directives x %d operands' % (len(DIRECTIVES), len(OPERANDS)), lambda: statements(LABELS if k else ['', 'l'])),
        Space('labels', '%d labels x %d directives x %d operands; plain build' % (len(LABELS), len(DIRECTIVES), len(OPERANDS)), lambda: statements(LABELS), plain),
        san('instructions', 'every instruction of every processor x %d operands, 16 to a program' % len(OPERANDS), mnemonic_lines),
        san('characters', '%d contexts x words of length 1..2 of characters' % len(CTX), lambda: itertools.chain(lines(CTX, CHARS, 1, 1 if k else 8), lines(CTX, SOME, 2, 1 if k else 40))),
        Space('lines', 'words of length 2..3 of characters in contexts; plain build', lambda: itertools.chain(lines(CTX, SOME, 2, 1), lines(CTX[:6], SOME, 3, 16)), plain),
        san('structures', 'words of length 1..%d over block statements' % (3 + k), lambda: itertools.chain.from_iterable(structures(i) for i in range(1, 4 + k))),
        Space('structures4', 'words of length 4 over block statements; plain build', lambda: structures(4, None if k else BLOCKS), plain),
        san('expressions', 'words of length 1..%d over expression tokens' % (3 + k), lambda: exprs(3 + k)),
        Space('contexts', 'words of length 1..3 over expression tokens in 12 places; plain build', lambda: contexts_expr(3), plain),
        san('lengths', 'length of every part of a line: 0..1100 and around powers of two to 8192', lambda: lengths(7 if k else 149)),
        san('amplified', 'short lines standing for long texts: built names, repeated arguments, doubling', lambda: amplified(3 if k else 1000)),
        Space('long', '%d kinds of long names, lists, nestings: lengths 1..%d and around powers of two to 8192; right or rejected' % (len(LONG), 1100 if k else 700), lambda: long_items(1101 if k else 701), right),
        san('files', 'files of one or two bytes behind prefixes', lambda: bytes_files([b'', b' processor 6502\n dc.b ', b' processor 6502\nl', b' processor 6502\n ', b' processor 6502\n include "', b' processor 6502\n mac x\n'])),
        Space('two-bytes', 'all files of two bytes; plain build', two_bytes, plain),
        san('options', 'every option letter x values, pairs of options', option_items),
        Space('usage', 'words of up to 3 arguments of dasm and ftohex; with sanitizers', usage_items, usage_script, chunk=16),
        Space('ftohex', 'small files in every format; with sanitizers', hex_items, hexfile, chunk=16),
        san('verbose', 'words of length 1..%d over odd statements x sets of reporting options' % (2 + k), lambda: verbose(2 + k)),
        san('processors', 'pairs of processors', cpus_switch),
    ]
