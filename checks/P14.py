"""P14: symbols, assignments, names built from arguments, -D and -M."""
import itertools

import scale
from common import Case, Space, bytediff, diff, filelist, model, prog, progs, real_symbols, same, short, stable, words

P = ' processor 6502\n org $100\n'


def fletcher(s):
    a = b = 0
    for c in s:
        a = (a + ord(c)) & 255
        b = (b + a) & 255
    return ((a << 8) | b) & 0xFFF


def two(a, b, i, j):
    return P + ' dc.w %s,%s\n%s = %d\n%s = %d\n dc.w %s,%s\n' % (b, a, a, i, b, j, a, b)


def pairs():
    """Every pair of different names out of a set; each keeps its own value."""
    al = ['a', 'b', 'A', 'B', '_', 'a1', 'a2', 'aa', 'ab', 'ba', 'Aa', 'aA', 'a_', '_a', 'a.b', 'a.c', 'aab', 'aba', 'baa', 'abc', 'acb', 'Z', 'z9', 'lda', 'x', 'X', 'y', 'org', 'dc', 'processor', 'a1b', 'a11', '_1', '__', 'ab_', 'eq', 'end', 'A1', 'a?', 'a@']
    al = [x for x in al if '?' not in x and '@' not in x and '.' not in x]
    for a, b in itertools.permutations(al, 2):
        yield (two(a, b, 1, 2), ())
    for a, b in itertools.combinations(al, 2):
        yield (P + ' dc.w %s\n%s nop\n nop\n%s lda #1\n dc.w %s,%s\n' % (a, a, b, a, b), ())


def collisions(full):
    """Names sharing a hash chain: every pair within a class, all three positions in the chain."""
    cl = {}
    al = 'abcdefgh' if full else 'abcdef'
    for n in (2, 3, 4):
        for w in itertools.product(al, repeat=n):
            s = ''.join(w)
            cl.setdefault(fletcher(s), []).append(s)
    cl = [c for c in cl.values() if len(c) > 1]
    cl.sort()
    for c in cl:
        for a, b in itertools.combinations(c[:5], 2):
            yield (two(a, b, 3, 4), ())
        yield (P + ''.join('%s = %d\n' % (s, i) for i, s in enumerate(c)) + ''.join(' dc.w %s\n' % s for s in c), ())
        yield (P + ''.join(' dc.w %s\n' % s for s in c) + ''.join('%s nop\n' % s for s in reversed(c)), ())
        yield (P + ''.join('%s set %d\n' % (s, i) for i, s in enumerate(c)) + ''.join('%s set %s+10\n' % (s, s) for s in c) + ''.join(' dc.w %s\n' % s for s in c), ())


def long_collisions():
    """Long names of one hash chain that differ in a few characters only, wherever these are."""
    same = {}
    for w in itertools.product('abcdef', repeat=4):
        # order of the sums is what counts: equal first and second moments hash alike behind any prefix
        s = ''.join(w)
        v = [ord(c) for c in s]
        same.setdefault((sum(v), sum((4 - i) * c for i, c in enumerate(v))), []).append(s)
    cl = sorted(c for c in same.values() if len(c) > 1)
    for n in list(range(0, 70)) + [100, 126, 127, 128, 250, 252, 254, 255, 256, 400]:
        for pre, post in ((n, 0), (0, n), (n // 2, n - n // 2)):
            for c in cl[::3] if n < 70 else cl[::9]:
                a, b = ('x' * pre + s + 'y' * post for s in c[:2])
                yield (P + '%s = 1\n%s set 2\n dc.b %s\n dc.b %s\n' % (a, b, a, b), ())


def lengths():
    for n in list(range(1, 300)) + list(range(300, 1000, 20)) + list(range(1000, 1012)):
        x = 'a' * (n - 1)
        if n < 500:
            yield (P + '%sb = 1\n%sc = 2\n dc.b %sb\n dc.b %sc\n' % (x, x, x, x), ())
            yield (P + ' dc.b %sb\n dc.b %sc\n%sc = 1\n%sb = 2\n' % (x, x, x, x), ())
            yield (P + '%sb = 1\n%s = 2\n dc.b %sb\n dc.b %s\n' % (x, x + 'bb', x, x + 'bb'), ())
            yield (P + '%sb\n nop\nb%s\n dc.w %sb\n dc.w b%s\n' % (x, x, x, x) if x else P, ())
        else:
            yield (P + '%sb = 1\n%sc = 2\n' % (x, x), ())
            yield (P + '%sb\n nop\n%sc nop\n%s nop\n lda %sc\n' % (x, x, x, x), ())


def counts(full):
    for n in list(range(0, 260, 1 if full else 3)) + [511, 512, 513, 1000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 9000]:
        yield (P + ''.join('s%d = %d\n' % (i, i) for i in range(n)) + ''.join(' dc.w s%d\n' % i for i in range(n)), ())
        if n < 5000:
            yield (P + ''.join(' dc.w s%d\n' % i for i in range(n)) + ''.join('s%d\n dc.b %d\n' % (i, i & 255) for i in range(n)), ())
            yield (P + ''.join('s%d set %d\n' % (i, i) for i in range(n)) + ''.join('s%d set s%d+s%d\n' % (i, i, n - 1 - i) for i in range(n)) + ''.join(' dc.w s%d\n' % i for i in range(n)), ())
    # all names over a small alphabet at once
    for al, n in (('abAB_', 4), ('ab', 10), ('a1_', 6), ('xyzXYZ0189_', 3)):
        ns = [''.join(w) for k in range(1, n + 1) for w in itertools.product(al, repeat=k)]
        ns = [x for x in ns if not x[0].isdigit()]
        yield (P + ''.join('%s = %d\n' % (x, i) for i, x in enumerate(ns)) + ''.join(' dc.w %s\n' % x for x in ns), ())
        yield (P + ''.join(' dc.w %s\n' % x for x in ns) + ''.join('%s = %d\n' % (x, i) for i, x in enumerate(ns)), ())


EQ = ['a = 1\n', 'a = 2\n', 'a equ b\n', 'a set 3\n', 'a set a+1\n', 'a eqm b+1\n', 'b set 5\n', 'b = 5\n', 'b set a\n', 'b eqm a*2\n', ' dc.b a\n', ' dc.b b,a\n', 'a\n', 'b set b+a\n']


def assignments(n):
    for w in words(EQ, n, 1):
        if not any('dc' in x for x in w):
            continue
        yield (P + ''.join(w), ())


VALS = ['1', '-1', '$7fffffff', '$80000000', '$ffffffff', '$100000000', '-$80000000', '$7fffffffffffffff', '-$7fffffffffffffff', '0', '.', 'fwd', 'fwd-lab', '"A"', '"AB"', "'c", '1==1', '[1+2]', '%101', '017', '<$1234', '>fwd', '~0', 'b', 'b+1', '.-$100', '""']


def values():
    for v in VALS:
        for op in ('=', 'equ', 'set', 'eqm', 'EQU', 'Set', ' =', '.set', 'EqM'):
            for use in (' dc.b <a\n', ' dc.w a\n', ' dc.l a\n', ' if a\n dc.b 1\n endif\n', ' lda a\n', ' ds <a&3\n', 'c = a\n dc.l c\n', ' dc.b a\n', ' dc.l a+1\n', ' dc.l -a\n'):
                if v[0] == '"' and (use.startswith(' if') or use.startswith(' lda') or '<a&' in use or '-a' in use or 'a+1' in use or 'b <a' in use):
                    continue
                if v == '""' and 'dc' not in use:
                    continue
                t = 'b set 7\n nop\na %s %s\n%sb set 8\n%s' % (op, v, use, use.replace('c =', 'd =').replace('dc.l c', 'dc.l d'))
                yield (P + t + 'lab\n nop\nfwd\n', ())


def equ_twice():
    """A fixed value cannot change: every pair of values, also known late."""
    vs = ['1', '2', 'f', 'f+1', 'f-f+1', '.', 'b', '-1', '$ff', '0', '$100000001', '"A"', '"B"', '$41', '[2-1]', '$101', '$10001', '$ffff', '$ffffffff', '-$ff', '$7fffffff', '$80000001']
    for u, v in itertools.product(vs, repeat=2):
        for o1, o2 in (('=', '='), ('equ', '='), ('=', 'EQU')):
            for use in (' dc.l a\n', ' dc.b 3\n'):
                if use[4] == 'l' and '"' in u + v and False:
                    continue
                yield (P + 'b = 1\na %s %s\n%sa %s %s\nf dc.b 1\n' % (o1, u, use, o2, v), ())
        yield (P + 'b = 1\na = %s\n if f\na = %s\n endif\n dc.b 4\nf = 1\n' % (u, v), ())


def setstr():
    st = ['a setstr hello\n', 'a setstr b\n', 'b = 7\n', 'b set "t"\n', 'a setsym b\n', 'a set 9\n', 'b setstr c\n', 'c = 3\n', ' dc a\n', ' dc b,a\n', 'd setsym a\n', ' dc d\n', 'a setstr c+1\n']
    for w in words(st, 4, 1):
        if not any(' dc' in x for x in w):
            continue
        yield (P + ''.join(w) + 'hello = 5\nt = 6\n', ())
    for t in ('a', 'a b', 'a,b', '1', '$12', 'a+b', '(x)', 'x y  z', 'a;b', "it's", "'", 'a/*c*/', '[1]', '#', 'A B c', '\\', 'a:b', '=', '{1}', '%', '<a', 'a' * 50, 'a' * 255, 'a' * 256, 'a' * 300):
        for op in ('setstr', 'SETSTR'):
            yield (P + 'a %s %s\n dc a\n dc.b 9\n' % (op, t), ())
        yield (P + ' mac m\n{1} setstr {2}\n endm\n m a,%s\n dc a\n' % t, ()) if '{' not in t else (P, ())


def dynamic():
    """Names built from evaluated arguments and string parts."""
    parts = [',0', ',1', ',12', ',-1', ',i', ',i+1', ',"x"', ',"Ab"', ',$10', ',[2*3]', ',i*2', ',late', ',i,"y"', ',"p",i', ',1,2', ',"a","b"', ',i,i', ',%11', ',.', ',lab', ',"a.b"', ',"_"', ',"9"', ',"Z"', ',"@"', ',"x.",i', ',"_",i,"_"', ',"aZ.9_"', ',""']
    stmts = ['%s = 9\n', '%s set 9\n', '%s equ 9\n', '%s nop\n', '%s: nop\n', '%s\n', '%s eqm 9\n', '%s dc.b 1\n', '%s ds 2\n', '%s org $140\n', '^%s = 4\n', '%s\tset\t9\n', '%s=9\n']
    for p in parts:
        for s in stmts:
            for base in ('n', 'N_', 'x1', '.l', 'q'):
                if p == ',""':
                    continue
                t = P + 'i set 5\nlab = 3\n nop\n' + s % (base + p) + ' dc.b $ff\nlate = 4\n'
                yield (t, ())
                if base == 'n':
                    yield (P + 'i set 0\nlab = 3\n repeat 3\n' + s % (base + p) + 'i set i+1\n repend\n dc.b $ff\nlate = 4\n', ())
                    yield (P + 'lab = 3\n mac m\ni set {1}\n' + s % (base + p) + ' endm\n m 1\n m 2\n m 30\n dc.b $ff\nlate = 4\n', ())
    # EQU/SET of a dynamic name on the right hand side
    for p in parts:
        if p == ',""':
            continue
        yield (P + 'i set 5\nlab = 3\nn0 = 10\nn1 = 11\nn5 = 15\nn6 = 16\nn12 = 22\nn3 = 33\na set n%s\n dc.b a\n' % p + 'late = 4\nn4 = 5\nn = 6\nn16 = 3\nn10 = 4\nn-1 = 4\n'.replace('n-1 = 4\n', ''), ())
        yield (P + 'i set 5\nlab = 3\nnx = 1\nnAb = 2\nn5y = 3\nnp5 = 4\nn12 = 5\nnab = 6\nn55 = 7\na set n%s\n dc.b a\nlate = 0\n' % p, ())
    for v in [0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 999999, 1000000, 12345678, 123456789, 1000000000, 2147483647]:
        for a in ('i', '%d' % v, '$%x' % v, '[i]', 'i,"_",i', '"_",i,"_"'):
            name = {'i,"_",i': '%d_%d' % (v, v), '"_",i,"_"': '_%d_' % v}.get(a, str(v))
            yield (P + 'i set %d\nn,%s = 7\n dc.b n%s\n' % (v, a, name), ())
            yield (P + 'i set %d\nn,%s dc.b 1\n dc.w n%s\n' % (v, a, name), ())
            yield (P + 'i set %d\n dc.b n%s\nn,%s set 7\n dc.b n%s\n' % (v, name, a, name), ())
            yield (P + 'i set %d\nn%s = 7\nq set n,%s\n dc.b q\n' % (v, name, a), ())
            yield (P + 'q set n,%s\n dc.b q\nn%s = 7\ni = %d\n' % (a, name, v), ())
            if '"' not in a:
                yield (P + 'i set %d\nn%s = 7\nt setstr n,%s\nq setsym t\n dc.b q\n' % (v, name, a), ())
    for k in range(0, 40):
        yield (P + 'i set 0\n repeat %d\nn,i = i*3\ni set i+1\n repend\n' % k + ''.join(' dc.b n%d\n' % j for j in range(k)), ())
        yield (P + 'i set 0\n repeat %d\nn,i,"_",i dc.b i\ni set i+1\n repend\n' % k + ''.join(' dc.w n%d_%d\n' % (j, j) for j in range(k)), ())


def defline(item):
    """Item (options, lines, text): -D/-M options against the same assignments as source lines."""
    opts, lines, text = item
    f1 = filelist(text)
    f2 = filelist(lines + text)
    m = model(f1, opts)
    a, b = yield [Case(['a.asm', *opts, '-oo', '-ss'], f1, ('o', 's')), Case(['a.asm', '-oo', '-ss'], f2, ('o', 's'))]
    d = diff(m, a)
    if d:
        return d
    if (a.rc == 0) != (b.rc == 0):
        return 'exit status %d, with source lines %d' % (a.rc, b.rc)
    if a.rc == 0:
        if a.files[0] != b.files[0]:
            return 'against source lines: ' + bytediff(b.files[0], a.files[0])
        x, y = real_symbols(a.files[1]), real_symbols(b.files[1])
        if x != y:
            return 'symbols differ from those with source lines: %s / %s' % (short(x), short(y))
    return None


def defs():
    vs = ['1', '0', '$12', '-1', '1+2', '%101', '017', '$ffffffff', '$100000000', '"s"', "'A", '[3]', 'b', 'b+1', '~1', '!1', 'u', '<$1234', '1==1', '', '(4)', '-b', '"a b"', '1,2', '1-2', '5/2']
    uses = [' dc.b <a\n', ' dc.l a\n', ' ifconst a\n dc.b 1\n else\n dc.b 2\n endif\n', 'a set a+1\n dc.l a\n', ' lda a\n', ' if a\n dc.b 1\n endif\n', 'b set 6\n dc.l a\n', ' dc a\n', ' nop\n', ' dc.w a,b\n', 'a eqm 7\n dc.b a\n']
    for v in vs:
        for u in uses:
            if v in ('"s"', '"a b"') and (u.startswith(' if') and 'const' not in u or 'a+1' in u or 'lda' in u or '<a' in u):
                continue
            for k, op in (('D', 'set'), ('M', 'eqm')):
                if v == '1,2' and ('lda' in u or k == 'D' or 'a+1' in u or '<a' in u):
                    continue
                for pre, pl in (((), ''), (('-Db=3',), 'b set 3\n'), (('-Mb=4',), 'b eqm 4\n')):
                    if not pre and ('b' in v and v[0] != '"' or 'a,b' in u):
                        continue
                    if v == '':
                        if k == 'D':
                            yield ((*pre, '-Da'), pl + 'a set 0\n', P + u)
                        continue
                    yield ((*pre, '-%sa=%s' % (k, v)), pl + 'a %s %s\n' % (op, v), P + u)
    # several options: the later ones see the earlier ones
    al = [('-Da=1', 'a set 1\n'), ('-Da=2', 'a set 2\n'), ('-Db=a+1', 'b set a+1\n'), ('-Mb=a+1', 'b eqm a+1\n'), ('-Db', 'b set 0\n'), ('-Ma=b', 'a eqm b\n'), ('-Dc=b', 'c set b\n'), ('-DA=9', 'A set 9\n')]
    for w in words(al, 3, 1):
        o = tuple(x[0] for x in w)
        l = ''.join(x[1] for x in w)
        if '-Ma=b' in o and any(x.startswith('-Mb') or x.startswith('-Db=a') for x in o):
            continue
        known = set()
        ok = True
        for x, y in w:
            n, _, r = x[2:].partition('=')
            if r[:1] in ('a', 'b') and r[:1] not in known:
                ok = False
            known.add(n)
        if not ok:
            continue
        for u in (' dc.b a\n', ' dc.b b\n', ' ifconst c\n dc.b c\n endif\n ifconst A\n dc.b A\n endif\n'):
            if ' '.join(u.split()[1:]) in known or u[6] in known or 'ifconst' in u:
                yield (o, l, P + u)
    for n in range(1, 40):
        o = tuple('-Ds%d=%d' % (i, i * 3) for i in range(n))
        yield (o, ''.join('s%d set %d\n' % (i, i * 3) for i in range(n)), P + ''.join(' dc.b s%d\n' % i for i in range(n)))
    for ln in list(range(1, 40)) + [100, 255, 256, 500, 900]:
        x = 'n' * ln
        yield (('-D%s=5' % x,), '%s set 5\n' % x, P + ' dc.b %s\n' % x)
        yield (('-M%s=5' % x,), '%s eqm 5\n' % x, P + ' dc.b %s\n' % x)
        yield (('-Da=%s5' % ('0' * ln),), 'a set %s5\n' % ('0' * ln), P + ' dc.b a\n')


def eqm(n):
    """EQM is read anew at each use."""
    st = ['x set x+1\n', 'e eqm x\n', 'e eqm x*2\n', 'e eqm .\n', 'e eqm f+x\n', 'e eqm .-$100\n', ' dc.w e\n', ' dc.b <e+1\n', ' dc.b 2*e\n', ' nop\n', 'd eqm e\n', ' dc.w d\n', 'y = e\n', 'e eqm y\n', 'e eqm -x\n', 'e eqm x+1\n']
    for w in words(st, n, 2):
        if not any('dc' in s for s in w) or not any(s[:2] == 'e ' for s in w):
            continue
        if w.count('y = e\n') > 1 or 'y = e\n' in w and 'e eqm y\n' in w:
            continue
        tail = '' if 'y = e\n' in w or 'e eqm y\n' not in w else 'y = 3\n'
        yield (P + 'x set 0\n' + ''.join(w) + 'f dc.b 1\n' + tail, ())


def spaces(tier):
    full = tier == 'thorough'
    k = 1 if full else 0
    return [
        progs('pairs', 'every pair out of 34 names', pairs),
        progs('collisions', 'all names of 2..4 letters sharing a hash chain', lambda: collisions(True)),
        progs('long-collisions', 'names of 4..404 characters sharing a hash chain, differing in four characters only', long_collisions),
        progs('lengths', 'names of 1..299 characters, then in steps up to 1011', lengths),
        progs('counts', '0..259 symbols, up to 9000, all names over small alphabets', lambda: counts(full), chunk=4),
        progs('assignments', 'words of length 1..%d over %d assignments and uses' % (4 + k, len(EQ)), lambda: assignments(4 + k)),
        progs('values', '%d values x 9 forms of assignment x 10 uses' % len(VALS), values),
        progs('equ-twice', 'two fixed assignments, 22x22 values', equ_twice),
        progs('eqm', 'words of length 2..4 over 16 statements with expression macros', lambda: eqm(4)),
        progs('setstr', 'words of length 1..4 over 13 statements; texts', setstr),
        progs('dynamic', '20 argument lists x 13 statements x 5 stems', dynamic),
        progs('options', '-D and -M against SET and EQM lines', defs, defline),
        Space('scale', 'up to 70000 symbols and assignments', lambda: scale.symbols(scale.counts(tier == 'thorough')), scale.exactly, chunk=1),
    ]
