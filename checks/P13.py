"""P13: local labels."""
import scale
from common import Space, prog, proglist, progs, same, words

P = ' processor 6502\n org $100\n'


class Namer:
    """Writes a program with local labels, and the same program with every local label renamed by its scope."""

    def __init__(self):
        self.loc, self.ren = [], []
        self.last = [0, 0]                  # scopes opened so far: dotted, dollar
        self.cur = [0, 0]
        self.g = 0

    def new(self, k):
        self.last[k] += 1
        self.cur[k] = self.last[k]

    def name(self, i):
        k = NAMES[i][-1] == '$'
        return 'L%d_%d_%d' % (k, self.cur[k], i)

    def tok(self, t):
        """returns the text with local names; appends the renamed text"""
        c = t[0]
        if c in 'dr':
            i = int(t[1:])
            f = '%s\n nop\n' if c == 'd' else ' dc.w %s\n'
            self.ren.append(f % self.name(i))
            return f % NAMES[i]
        if c == 'b':
            i = int(t[1:])
            self.ren.append(' bne %s\n' % self.name(i))
            return ' bne %s\n' % NAMES[i]
        if c == 'S':
            self.new(0)
            self.ren.append(' dc.b $ea\n')
            return ' subroutine\n dc.b $ea\n'
        if c == 'N':
            self.g += 1
            self.new(0)
            self.new(1)
            self.ren.append('g%d dc.b $eb\n' % self.g)
            return 'g%d subroutine\n dc.b $eb\n' % self.g
        if c == 'G':
            self.g += 1
            self.new(1)
            self.ren.append('g%d dc.b $ec\n' % self.g)
            return 'g%d dc.b $ec\n' % self.g
        if c == 'E':                        # text of an expression over two labels
            self.ren.append(' dc.b <[%s+%s]\n' % (self.name(0), self.name(1)))
            return ' dc.b <[%s+%s]\n' % (NAMES[0], NAMES[1])
        raise ValueError(t)


NAMES = ['.a', '1$', '.b', '2$', '.ab', '11$']


def pair(w):
    n = Namer()
    loc = ''.join([n.tok(t) for t in w])
    return P + loc, P + ''.join(n.ren), ()


def scopes(n):
    for w in words(['d0', 'r0', 'd1', 'r1', 'S', 'G'], n, 1):
        yield pair(w)


def scopes2(n):
    for w in words(['d0', 'r0', 'd2', 'r2', 'd4', 'r4', 'd1', 'r1', 'd3', 'r3', 'd5', 'r5', 'b0', 'b1', 'N', 'S', 'G', 'E'], n, 1):
        yield pair(w)


def macros(n, nb):
    bodies = [b for b in words(['d0', 'r0', 'd1', 'r1', 'S', 'G'], nb, 1)]
    for w in words(['d0', 'r0', 'd1', 'r1', 'S', 'G', 'M'], n, 1):
        if 'M' not in w:
            continue
        for b in bodies:
            if 'G' in b and w.count('M') > 1:
                continue                    # the global label would be defined twice
            yield expand(w, b, ())


def nested(n):
    """A macro calling another one with labels of the same names."""
    for b in words(['d0', 'r0', 'd1', 'r1', 'n', 'S'], n, 1):
        if 'n' not in b:
            continue
        for i in words(['d0', 'r0', 'd1', 'r1', 'S'], 2, 1):
            for w in (('M',), ('d0', 'M', 'r0'), ('r0', 'M', 'M', 'd0'), ('d1', 'M', 'r1'), ('M', 'G', 'M'), ('d0', 'S', 'M', 'r0')):
                yield expand(w, b, i)


def expand(w, body, inner):
    n = Namer()

    def run(ts, out):
        for t in ts:
            if t in ('M', 'n'):
                save = list(n.cur)
                n.new(0)
                n.new(1)
                run(body if t == 'M' else inner, [])
                n.cur = save
                out.append(' %s\n' % ('m' if t == 'M' else 'n'))
            else:
                out.append(n.tok(t))
        return out
    loc = ''.join(run(w, []))

    def define(name, ts):
        x = Namer()
        x.g = 50
        return ' mac %s\n' % name + ''.join(' n\n' if t == 'n' else x.tok(t) for t in ts) + ' endm\n'
    mac = (define('n', inner) if inner else '') + (define('m', body) if body else '')
    ren = ''.join(n.ren)
    if 'G' in body:                         # number the macro's global labels as in its text
        return (P + mac + loc, ())
    return (P + mac + loc, P + ren, ())


def either(item):
    """With a hand-renamed equivalent where there is one."""
    if len(item) == 2:
        return prog(item)
    return same(item)


def statements(n):
    """Assignments to local names, tests for being defined, other places."""
    st = ['.a = 5\n', '.a set 6\n', '.a set 7\n', '1$ = 8\n', '.a nop\n', '1$ nop\n', ' dc.b <.a\n', ' dc.b <1$\n', ' subroutine\n', '.a subroutine\n', 'g%d nop\n', 'h%d = 3\n', 'i set 3\n', ' ifconst .a\n dc.b 1\n endif\n', ' ifnconst 1$\n dc.b 2\n endif\n', '.e eqm .a+1\n', ' dc.b <.e\n']
    for w in words(st, n, 1):
        yield (P + ''.join(s % i if '%d' in s else s for i, s in enumerate(w)) + ' dc.b $ff\n', ())


NEUTRAL = [' seg s\n org $300\n', ' seg t\n org $400\n', ' seg.u v\n org 0\n ds 1\n seg s\n org $300\n', ' org $200\n', ' rorg $500\n', ' rend\n', ' align 4\n', ' ds 3\n', ' hex 0102\n', ' dc.b 1\n',
           ' include "i"\n', ' include "j"\n', ' include "k"\n', ' incdir "d"\n', ' incbin "b"\n', ' list off\n', ' list on\n', ' echo 1\n', ' repeat 2\n nop\n repend\n', ' repeat 0\n subroutine\n repend\n',
           ' if 1\n nop\n endif\n', ' if 0\n subroutine\n endif\n', ' if 0\ng0 nop\n endif\n', ' mac q%d\n subroutine\n.a nop\ng nop\n endm\n', ' processor 6502\n', 'v set 5\n', 'e eqm 6\n', 'y%d = 4\n', ' m\n', ' n\n', ' nop\n', ' bne .a\n', ' ifconst .a\n endif\n', ' mac z%d\n endm\n z%d\n', '; c\n', '']


def neutral():
    """What stands between the definition and the use of a local name, and the scope it leaves."""
    head = ' processor 6502\n org $100\n mac m\n.a lda .a\n1$ lda 1$\n endm\n mac n\n subroutine\n.a lda .a\n nop\n m\n lda .a\n endm\n'
    files = (('i', ' nop\n'), ('j', ' subroutine\n.b lda .b\n'), ('k', 'z nop\n'), ('b', b'xyz'))
    for i, a in enumerate(NEUTRAL):
        for j, b in enumerate(NEUTRAL):
            a2, b2 = a.replace('%d', '1'), b.replace('%d', '2')
            for t in ('.a nop\n1$ nop\n%s%s lda .a\n lda 1$\n', ' lda .a\n lda 1$\n%s%s.a nop\n1$ nop\n', '.a nop\n1$ nop\n%s subroutine\n.a nop\n%s lda .a\n lda 1$\n', '.a nop\n1$ nop\n%sg nop\n1$ nop\n%s lda .a\n lda 1$\n',
                      ' subroutine\n.a nop\n1$ nop\n%s.b = .a\n2$ = 1$\n%s lda .b\n lda 2$\n'):
                yield ((('a.asm', head + t % (a2, b2)),) + files, ('-f2',))


def owners():
    """Labels of every form end the scope of n$ names, and SUBROUTINE with or without one that of .x names."""
    for g in ['g', '_g', '_', '__', 'G', 'Z', 'z', 'a1', 'g_', 'x', 'a', 'A', 'lda', 'org', 'g.h', 'g.', 'g1', '_1', 'gg' * 40, 'g@', 'end', 'if', 'm', 'aZ9', 'g,1', 'g,"x"', 'g,k']:
        for c in ('', ':'):
            for s in (' nop\n', '\n', ' dc.b 7\n', ' ds 2\n', ' = 5\n', ' set 5\n', ' eqm 5\n', ' subroutine\n', ' org $180\n', ' align 8\n', ' hex 01\n', ' m\n', ' rorg $300\n', ' seg t\n org $200\n', ' ifconst k\n endif\n', ' list on\n', ' include "i"\n', ' incbin "i"\n', ' repeat 1\n nop\n repend\n'):
                if c and s[:4] in (' = 5', ' set', ' eqm') and ',' in g:
                    continue
                head = ' processor 6502\n org $100\nk = 3\n mac m\n nop\n endm\n'
                for t in ('1$ nop\n.a nop\n%s1$ nop\n dc.b <1$,<.a\n', '1$ nop\n.a nop\n%s dc.b <.a\n', '1$ nop\n%s dc.b <1$\n', ' dc.b <1$\n1$ nop\n%s dc.b <1$\n1$ nop\n'):
                    yield ((('a.asm', head + t % (g + c + s)), ('i', ' nop\n')), ('-f2',))


def macro_statements(n):
    st = ['.a = 5\n', '.a set 6\n', '1$ = 8\n', '.a nop\n', '1$ nop\n', ' dc.b <.a\n', ' dc.b <1$\n', ' subroutine\n', ' mexit\n', ' if 0\n.a nop\n endif\n', ' ifconst .a\n dc.b 1\n endif\n', '.e eqm .a+1\n']
    for w in words(st, n, 1):
        yield (P + ' mac m\n' + ''.join(w) + ' endm\n.a = 9\n1$ = 10\n m\n dc.b <.a,<1$\n m\n dc.b <.a,<1$\n', ())


def counts():
    """Many scopes: every number of them, with forward and backward references."""
    for n in list(range(0, 130)) + [255, 256, 257, 999, 1000, 1001, 1100]:
        yield (P + ''.join(' subroutine\n dc.w .f\n.l dc.w .l\n.f\n' for i in range(n)), ())
        yield (P + ''.join('g%d dc.w 1$\n2$ dc.w 2$\n1$\n' % i for i in range(n)), ())
        yield (P + ' mac m\n dc.w .f\n.l dc.w .l,1$\n1$ nop\n.f\n endm\n' + ' m\n' * n, ())
        yield (P + ' mac m\n dc.w .f\n.l dc.w .l,1$\n1$ nop\n.f\n endm\n.l\n1$\n repeat %d\n m\n repend\n dc.w .l,1$\n' % n, ())
        yield (P + '.l\n1$ nop\n' + ''.join(' nop\n.x%d\n%d$ nop\n' % (i, i + 2) for i in range(n)) + ''.join(' dc.w .x%d,%d$\n' % (i, i + 2) for i in range(n)), ())
        # one scope does not see the one n scopes above
        if n:
            yield (P + ' subroutine\n.z\n' + ' subroutine\n' * n + ' dc.w .z\n', ())
            yield (P + '1$ nop\n' + ''.join('g%d\n' % i for i in range(n)) + ' dc.w 1$\n', ())
            yield (P + ' dc.w .z\n' + ' subroutine\n' * n + '.z\n', ())
    # scope numbers and names must not run together
    for a in ('.a', '.1', '.1a', '.11', '.a.b', '1$', '11$', 'a$', '0$', 'a1$', '_$'):
        for b in ('.a', '.1', '.1a', '.11', '.a.b', '1$', '11$', 'a$', '0$', 'a1$', '_$'):
            for k in (1, 2, 11):
                yield (P + '%s nop\n' % a + ' subroutine\ng0\n' + ''.join(' subroutine\ng%d\n' % (i + 1) for i in range(k)) + '%s nop\n dc.w %s\n' % (b, b), ())
                yield (P + '%s nop\n' % a + 'g0 subroutine\n' + '%s nop\n dc.w %s,%s\n' % (b, a, b), ())
    for ln in list(range(1, 70)) + list(range(120, 135)) + list(range(250, 262)) + list(range(500, 520)) + [900, 1000]:
        x = 'a' * ln
        yield (P + '.%s\n nop\n.%sb\n dc.w .%s,.%sb\n subroutine\n.%s nop\n dc.w .%s\n' % ((x,) * 6), ())
        yield (P + '%s$\n nop\nb%s$\n dc.w %s$,b%s$\ng\n%s$ nop\n dc.w %s$\n' % ((x,) * 6), ())


LEVEL = ['.a nop\n1$ nop\n%s dc.w .a,1$\n', ' dc.w .a,1$\n%s.a nop\n1$ nop\n', '%s.a nop\n1$ nop\n dc.w .a,1$\n', '.a nop\n1$ nop\n%s subroutine\n.a nop\n dc.w .a,1$\n', '.a nop\n%s%s1$ nop\n dc.w .a,1$\n', ' if 1\n.a nop\n1$ nop\n%s endif\n dc.w .a,1$\n', ' repeat 2\n.x set 1\n%s repend\n.a nop\n1$ nop\n dc.w .a,1$,.x\n']


def levels(n):
    """Macros calling macros n deep, a scope at every level with labels of the same names around the call."""
    for depth in range(1, n + 1):
        for w in words(range(len(LEVEL)), depth, depth):
            if depth > 3 and len(set(w)) > 2:
                continue
            t = ''
            for i, k in enumerate(w):
                t += ' mac m%d\n' % i + LEVEL[k].replace('%s', ' m%d\n' % (i - 1) if i else '') + ' endm\n'
            for o in LEVEL[:2]:
                yield (P + t + o.replace('%s', ' m%d\n' % (depth - 1)), ())
    for depth in range(1, 33):
        for b, a in (('.a nop\n1$ nop\n', ' dc.w .a,1$\n'), (' dc.w .a,1$\n', '.a nop\n1$ nop\n')):
            t = ''.join(' mac m%d\n' % i + b + (' m%d\n' % (i - 1) if i else '') + a + ' endm\n' for i in range(depth))
            yield (P + t + b + ' m%d\n' % (depth - 1) + a, ())
            yield (P + ' mac r\n' + b + ' if {1}\n r {1}-1\n endif\n' + a + ' endm\n' + b + ' r %d\n' % (depth % 18) + a, ())


def contexts():
    defs = ['.a', '.a:', '^.a', '1$', '1$:', '^1$', '.a nop', '1$ nop', ' ^.a nop']
    refs = [' dc.w %s', ' lda %s', ' bne %s', ' jmp (%s)', ' dc.b #<%s', ' lda #>%s', ' if %s > $102\n dc.b 1\n endif', 'v = %s+1', ' org %s+$10', ' ds <%s,1', ' repeat <%s&3\n dc.b 1\n repend', ' lda %s-1,x', ' dc.w [%s]', ' dc.w -%s', ' dc.w %s,%s', ' echo %s', ' include "i"', ' align 4,<%s', ' m %s']
    for d in defs:
        name = '.a' if '.a' in d else '1$'
        for r in refs:
            if r.startswith(' dc.b #'):
                r = ' dc.b <%s'
            t = r.replace('%s', name)
            for order in (0, 1):
                body = d + '\n' + t + '\n' if not order else t + '\n' + d + '\n'
                for wrap in ('%s', ' mac w\n%s endm\n w\n nop\n w\n', ' subroutine\n%s subroutine\n%s', 'g1\n%s', ' if 1\n%s endif\n'):
                    if wrap.count('%s') > 1:
                        b = wrap % (body, body) if name == '.a' and 'v =' not in body else wrap % (body, '')
                    elif ' mac w' in wrap and 'v =' in body:
                        continue
                    else:
                        b = wrap % body
                    if r.startswith(' org') and (order or ' mac' in wrap or 'subr' in wrap):
                        continue
                    yield ((('a.asm', P + ' nop\n mac m\n dc.w {1}\n endm\n' + b + ' dc.b $ff\n'), ('i', ' dc.w %s\n' % name)), ())


def names(n):
    """Local names made of dots, letters and digits: two of them in one scope, the first one again in the next."""
    al = [s for s in ('.' + ''.join(w) for w in words(list('aA.1_'), n, 1)) if s.strip('.')]
    al2 = ['.a', '.1', '..a', '.a.', '.a.a', '._', '1$', 'a$', '_$', '.A']
    for a in al:
        for b in al2:
            if a != b:
                yield (P + ' dc.w %s,%s\n%s nop\n%s nop\n dc.w %s,%s\n subroutine\n%s nop\n dc.w %s\n' % (a, b, a, b, a, b, a, a), ())
        yield (P + ' nop\n%s = 5\n dc.b %s,%s+1\n mac m\n dc.w %s\n%s nop\n endm\n m\n dc.b %s\n' % ((a,) * 6), ())
        yield (P + '%s nop\n nop\n subroutine\n dc.w %s\n' % (a, a), ())
    for a in (''.join(w) + '$' for w in words(list('aA1_0'), n, 1)):
        if a[0].isdigit() and not a[:-1].isdigit():
            continue
        for b in al2 + ['0$', '11$']:
            if a != b:
                yield (P + ' dc.w %s,%s\n%s nop\n%s nop\n dc.w %s,%s\ng\n%s nop\n dc.w %s\n' % (a, b, a, b, a, b, a, a), ())
        yield (P + '%s nop\n nop\ng\n dc.w %s\n' % (a, a), ())


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        progs('scopes', 'words of length 1..%d over definitions and references of .a and 1$, SUBROUTINE and a label: equal to the renamed source' % (6 + k), lambda: scopes(6 + k), same),
        progs('scopes-2', 'the same for 1..%d over 18 tokens' % (3 + k), lambda: scopes2(3 + k), same),
        progs('macros', 'words of length 1..%d with calls of a macro of 1..2 tokens: equal to the renamed source' % (4 + k), lambda: macros(4 + k, 2), either),
        progs('nested', 'macros calling macros, bodies of 1..%d and 1..2 tokens' % (3 + k), lambda: nested(3 + k), either),
        progs('levels', 'macros called up to %d deep over %d bodies, up to 32 deep over two, the same names at every level' % (5 + k, len(LEVEL)), lambda: levels(5 + k)),
        progs('statements', 'words of length 1..%d over 16 statements on local names' % (3 + k), lambda: statements(3 + k)),
        progs('between', 'pairs of %d statements between the definition and the use of local names' % len(NEUTRAL), neutral),
        progs('owners', '27 labels, with and without colon, on 19 statements between dollar and dot names', owners),
        progs('macro-statements', 'macro bodies of 1..%d out of 12 statements' % (3 + k), lambda: macro_statements(3 + k)),
        progs('counts', 'number of scopes 0..129 and around 256, 1000; lengths of names', counts),
        progs('names', 'local names of 1..%d dots, letters and digits in pairs' % (3 + k), lambda: names(3 + k)),
        progs('contexts', 'forms of definitions x places of references', contexts, proglist),
        Space('scale', 'up to 70000 scopes, expansions and calls', lambda: scale.local_labels(scale.counts(tier == 'thorough')), scale.exactly, chunk=1),
    ]
