"""P18: the symbol file."""
import itertools

import refasm
from common import Case, filelist, model, progs, short, words
from P14 import fletcher

P = ' processor 6502\n org $100\n'
TITLE = ['--- Symbol List (sorted by symbol)', '--- Symbol List (sorted by address)', '--- Symbol List (sorted by order)']


def judge(m, text, mode):
    ls = text.decode('latin-1').split('\n')
    if ls[0] != TITLE[mode] or ls[-2:] != ['--- End of Symbol List.', '']:
        return 'heading or end missing: %s' % short(ls[:1] + ls[-2:])
    got = [' '.join(x.split()) for x in ls[1:-2]]
    want = {}
    for name, value, order, line in refasm.symbol_lines(m.syms):
        want[' '.join(line.split())] = (name, value, order)
    a, b = sorted(want), sorted(got)
    if a != b:
        return 'expected %s, got %s' % (short([x for x in a if x not in b]), short([x for x in b if x not in a] or 'a line twice'))
    keys = [want[x] for x in got]
    for (n1, v1, o1), (n2, v2, o2) in zip(keys, keys[1:]):
        if (n1.lower() > n2.lower(), v1 > v2, o1 > o2)[mode]:
            return 'order %d: %s before %s' % (mode, n1, n2)
    return None


def symfile(item):
    """Item (files, args): the symbol file in all orders, with and without other outputs."""
    files, args = item
    fl = filelist(files)
    m = model(fl, args)
    vs = [(0, ()), (0, ('-T0',)), (1, ('-T1',)), (2, ('-T2',)), (2, ('-ll', '-T2')), (1, ('-v1', '-T1'))]
    rr = yield [Case([fl[0][0], *args, '-oo', '-ss', *o], fl, ('s',)) for _, o in vs]
    for (mode, o), r in zip(vs, rr):
        if (r.rc == 0) != (m.rc == 0):
            return 'exit status %d, expected %d' % (r.rc, m.rc)
        if m.rc:
            continue
        if r.files[0] is None:
            return 'no symbol file'
        d = judge(m, r.files[0], mode)
        if d:
            return 'options %s: %s' % (' '.join(o), d)
    return None


STMTS = ['b = 1\n', 'a = 2\n', 'C = -1\n', 'lab nop\n', 'Lab nop\n', 'a2 set 5\n', 'a2 set a2+1\n', ' lda b\n', ' lda c\n', 'c = 3\n', 'e eqm b+1\n', ' dc.b e\n', 's = "text"\n', '.l nop\n', '1$ nop\n', ' subroutine\n', ' m 5\n', ' dc.w lab2\n', 'lab2\n', 'u1 = nowhere\n', ' ifconst q\n endif\n', 'n,7 = 4\n', 't setstr some thing\n', 'z ds 0\n']


def statements(n):
    for w in words(STMTS, n, 0):
        if any(w.count(x) > 1 for x in ('lab nop\n', 'Lab nop\n', 'lab2\n', '.l nop\n', '1$ nop\n', 'z ds 0\n')):
            continue
        tail = ''
        if ' lda c\n' in w and 'c = 3\n' not in w:
            tail += 'c = 3\n'
        if ' lda b\n' in w and 'b = 1\n' not in w or 'e eqm b+1\n' in w and 'b = 1\n' not in w:
            tail += 'b = 1\n'
        if ' dc.w lab2\n' in w and 'lab2\n' not in w:
            tail += 'lab2\n'
        if ' dc.b e\n' in w and 'e eqm b+1\n' not in w:
            tail += 'e = 9\n'
        yield (P + ' mac m\n.k lda .k\nin{1} = {1}\n endm\n' + ''.join(w) + tail, ())


REFS = [' lda l1\n', 'l1 nop\n', ' rorg $500\n', ' rend\n', ' seg.u z\n org 5\n', ' seg y\n org $300\n', ' lda .k\n', '.k nop\n', 's set "ab"\n', ' dc s\n', 'e eqm l1\n', ' dc.w e\n', ' lda 5$\n', '5$ nop\n', 'q = l1\n', ' org $400\n', ' ifconst l1\n endif\n']


def references(n):
    """What is referenced, before and after, at relocated origins and in uninitialised segments."""
    for w in words(REFS, n, 1):
        if any(w.count(x) > 1 for x in ('l1 nop\n', '.k nop\n', '5$ nop\n', 'q = l1\n')):
            continue
        t = ''.join(w)
        for use, d in (('l1', 'l1 nop\n'), ('.k', '.k nop\n'), ('5$', '5$ nop\n')):
            if use in t and d not in t:
                t += d
        if ' dc s' in t and 's set' not in t or ' dc.w e' in t and 'e eqm' not in t:
            continue
        yield (P + t, ('-f2',))


def numbers():
    for n in list(range(0, 130)) + [255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 6000, 32768, 65535, 65536, 65537]:
        yield (P + ''.join('s%d = %d\n' % (i, (i * 7919) % 1000 - 300) for i in range(n)), ())
        yield (P + ''.join('s%d = %d\n' % (n - i, i) for i in range(n)), ())
        if n < 1000:
            yield (P + ''.join(' lda s%d\n' % (n - i) for i in range(n)) + ''.join('s%d nop\n' % (i + 1) for i in range(n)), ())
            yield (P + ''.join(' subroutine\n.l nop\n%d$ nop\n' % i for i in range(n)), ())
            yield (P + ' mac m\n.l lda .l\n endm\n' + ' m\n' * n, ())
    for n in range(0, 13):
        yield (P + 'q = a0\n' + ''.join('a%d = a%d+1\n' % (i, i + 1) for i in range(n)) + 'a%d = 1\n dc.b q\n' % n, ('-p30',))


def collisions():
    cl = {}
    for n in (1, 2, 3, 4):
        for w in itertools.product('abcdAB', repeat=n):
            s = ''.join(w)
            cl.setdefault(fletcher(s), []).append(s)
    for c in sorted(x for x in cl.values() if len(x) > 1):
        yield (P + ''.join('%s = %d\n' % (s, i) for i, s in enumerate(c)), ())
        yield (P + ''.join(' lda %s\n' % s for s in c) + ''.join('%s = %d\n' % (s, 50 - i) for i, s in enumerate(c)), ())


VALUES = [0, 1, -1, 9, 10, 15, 16, 255, 256, 4095, 4096, 65535, 65536, -65536, 0x7fffffff, 0x80000000, -0x80000000, 0xffffffff, 0x100000000, -0x100000000, 0x7fffffffffffffff, -0x7fffffffffffffff, 0x123456789abcdef, 0xff, -256]


def value_text(v):
    return '-$%x' % -v if v < 0 else '$%x' % v


def vals():
    for v in VALUES:
        for op in ('=', 'set', 'eqm'):
            yield (P + 'a %s %s\n' % (op, value_text(v)), ())
    for a, b in itertools.permutations(VALUES, 2):
        yield (P + 'b = %s\na = %s\n' % (value_text(a), value_text(b)), ())
        yield (P + 'a = %s\nb = %s\nc = %s\n' % (value_text(a), value_text(b), value_text(a)), ())
    for v in VALUES:
        if v >= 0 and v < 0x10000000:
            yield (P + ' rorg %s\nl nop\n rend\n' % value_text(v), ())


def names():
    for n in list(range(1, 80)) + list(range(120, 136)) + list(range(250, 262)) + [400, 511, 512, 513, 600, 800, 1000]:
        yield (P + '%s = 1\n' % ('n' * n), ())
        yield (P + '%sb = 2\n%sa = 1\n%s = 3\n' % (('n' * n,) * 3) if n < 999 else P, ())
        if n < 900:
            yield (P + '.%s nop\n%s$ nop\n' % ('n' * n, 'n' * n), ())
        yield (P + 'a = "%s"\n' % ('t' * min(n, 1000)), ())
        yield (P + 'a eqm %s\n' % ('1' * min(n, 1000)), ())
        yield (P + 'a setstr %s\n' % ('t' * min(n, 1000)), ())
    for t in ('', ' ', 'a b', ';', '/* */', "'", 'a,b', '%s', '%d%n', '\\', '$12', '????', 'str', '(R )', '---', 'x' * 30):
        yield (P + 'a = "%s"\nb = 1\n' % t, ())
        yield (P + 'a set "%s"\nb = 1\n' % t, ())
    for a, b, c in itertools.permutations(['a', 'B', 'A', 'b', '_', 'a1', 'A1', 'aa', 'Z', 'z', 'a_', '_a'], 3):
        yield (P + '%s = 1\n%s = 2\n%s = 3\n' % (a, b, c), ())


def options():
    ds = [('-Da=5',), ('-Db',), ('-Me=1+2',), ('-Da=5', '-Db=6'), ('-Db=6', '-Da=5'), ('-Dz="s"',), ('-Da=5', '-Mb=a+1')]
    for d in ds:
        for t in ('', ' dc.b 1\n', 'c = 3\n', 'c = a0\na0 = 4\n', ' ifconst a\n dc.b a\n endif\n', 'x nop\n lda y\ny\n', 'a set 9\n', 'b set 2\nc = 1\n', ' ifconst e\n dc.b e\n endif\n'):
            yield (P + t, d)
    for n in range(0, 60, 3):
        yield (P + ' lda f\nx = 3\nf = 1\n', tuple('-Dd%d=%d' % (n - i, i) for i in range(n)))
    for d in ((), ('-Da=5',)):
        for inc in ('b = 2\n', ' lda b\n', 'b\n', '.l\n'):
            yield ((('a.asm', P + 'c = 1\n include "i"\nd = 4\n' + ('b = 2\n' if 'lda' in inc else '')), ('i', inc)), d)


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        progs('statements', 'words of length 0..%d over %d statements, all orders' % (3 + k, len(STMTS)), lambda: statements(3 + k), symfile, chunk=16),
        progs('references', 'words of length 1..%d over %d statements, relocated and uninitialised code' % (3 + k, len(REFS)), lambda: references(3 + k), symfile, chunk=16),
        progs('numbers', '0..129 symbols and up to 6000; chains needing up to 14 passes', numbers, symfile, chunk=4),
        progs('collisions', 'all names of 1..4 letters sharing a hash chain', collisions, symfile, chunk=16),
        progs('values', 'pairs of %d values in any order' % len(VALUES), vals, symfile, chunk=16),
        progs('names', 'lengths of names and texts, triples of names', names, symfile, chunk=16),
        progs('options', 'symbols from the command line', options, symfile, chunk=16),
    ]
