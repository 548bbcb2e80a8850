"""P15: INCLUDE and INCBIN."""
import itertools

import gen
import scale
from common import Case, Space, diff, filelist, model, prog, prog3, proglist, progs, same, words
from P11 import balanced

P = ' processor 6502\n org $100\nx set 0\n mac m\n dc.b $a0,{1}\n.l lda .l\n endm\n'

STMTS = [' dc.b x\n', 'x set x+1\n', ' if x\n', ' else\n', ' endif\n', ' repeat 2\n', ' repend\n', ' m x\n', ' lda f\n', '.k nop\n', ' subroutine\n', ' mac q\n dc.b 7\n endm\n', ' q\n', ' org $120\n']


def isbal(w):
    st = []
    for s in w:
        k = s.strip().split()[0]
        if k in ('if', 'repeat'):
            st.append([k, False])
        elif k == 'else':
            if not st or st[-1][0] != 'if' or st[-1][1]:
                return False
            st[-1][1] = True
        elif k == 'endif':
            if not st or st.pop()[0] != 'if':
                return False
        elif k == 'repend':
            if not st or st.pop()[0] != 'repeat':
                return False
    return not st


def inline(n):
    """Every balanced range of lines moved into a file of its own."""
    for w in balanced(STMTS, n):
        if ' q\n' in w and (' mac q\n dc.b 7\n endm\n' not in w or w.index(' q\n') < w.index(' mac q\n dc.b 7\n endm\n')):
            continue
        if any(w.count(x) > 1 for x in ('.k nop\n', ' org $120\n')) or '.k nop\n' in w and ' repeat 2\n' in w or ' org $120\n' in w and ' repeat 2\n' in w:
            continue
        t1 = P + ''.join(w) + ' dc.w .,x\nf = $33\n'
        for i in range(len(w)):
            for j in range(i + 1, len(w) + 1):
                if isbal(w[i:j]):
                    a = P + ''.join(w[:i]) + ' include "i"\n' + ''.join(w[j:]) + ' dc.w .,x\nf = $33\n'
                    yield ((('a.asm', a), ('i', ''.join(w[i:j]))), t1, ())


def trees(n):
    """all ordered trees with n nodes, a node being the tuple of its children"""
    def forests(k):
        if k == 0:
            yield ()
        for first in range(1, k + 1):
            for f in forests(first - 1):
                for rest in forests(k - first):
                    yield (f,) + rest
    return forests(n - 1)


def tree_files(tree, ending):
    files = []
    count = [0]

    def build(node):
        k = count[0]
        count[0] += 1
        slot = len(files)
        files.append(None)
        t = ' dc.b %d\n' % (k * 2)
        for c in node:
            j = build(c)
            t += ' include "f%d"\n dc.b $%x\n' % (j, 0x80 + k)
        t += ' dc.b %d' % (k * 2 + 1) + ending
        files[slot] = ('f%d' % k, t)
        return k
    build(tree)
    return files


def alltrees():
    for n in range(1, 6):
        for t in trees(n):
            for e in ('\n', '', '\r\n', '\n\n', '\n ; c', '\n end\n dc.b 99\n'):
                fs = tree_files(t, e)
                main = (('a.asm', ' processor 6502\n org $100\n include "f0"\n dc.b $ff\n dc.w .\n'),)
                yield (main + tuple(fs), ())


def depths():
    for n in range(0, 41):
        fs = [('f%d' % i, ' dc.b %d\n include "f%d"\n dc.b %d\n' % (i, i + 1, 100 + i)) for i in range(n)] + [('f%d' % n, ' dc.b 99\n')]
        yield ((('a.asm', ' processor 6502\n org 0\n include "f0"\n dc.b $ff\n'), *fs), ())
        fs = [('f%d' % i, ' if 1\n dc.b %d\n include "f%d"\n else\n dc.b 55\n endif\n dc.b %d\n' % (i, i + 1, 100 + i)) for i in range(n)] + [('f%d' % n, ' dc.b 99\n')]
        yield ((('a.asm', ' processor 6502\n org 0\n include "f0"\n dc.b $ff\n'), *fs), ())
        yield ((('a.asm', ' processor 6502\n org 0\n' + ' include "i"\n' * n + ' dc.b $ff\n'), ('i', ' dc.b 1\n nop\n')), ())
        yield ((('a.asm', ' processor 6502\n org 0\n repeat %d\n include "i"\n repend\n dc.b $ff\n' % n), ('i', ' dc.b 1\n nop')), ())
        yield ((('a.asm', ' processor 6502\n org 0\n mac m\n dc.b {1}\n include "i"\n dc.b 3\n endm\n' + ' m 8\n' * n + ' dc.b $ff\n'), ('i', ' dc.b 1\n nop')), ())
        # recursion under a condition
        yield ((('a.asm', ' processor 6502\n org 0\nc set %d\n include "i"\n dc.b $ff\n' % n), ('i', ' dc.b c\n if c\nc set c-1\n include "i"\n endif\n dc.b 9\n')), ())


def contents():
    """Texts of included files."""
    body = ['', '\n', ' dc.b 1', ' dc.b 1\n', ' dc.b 1\r\n dc.b 2\r\n', ';c', 'l', 'l\n', 'l = 5', ' dc.b 1 ; c', ' dc.b 1 /* c */', ' nop\n\n\n', '\t\n', ' end', ' end\n dc.b 3\n', ' dc.b 1\n end\n dc.b 2\n', ' if 0\n dc.b 1\n endif', ' repeat 3\n dc.b 1\n repend', ' mac z\n dc.b 4\n endm', ' mac z\n dc.b 4\n endm\n z', 'x set x+1', ' m 5', ' dc "abc"', ' incbin "b"', ' include "j"', '\r', ' dc.b 1\n\x1a', ' seg s\n org $200\n dc.b 6', ' rorg $500\n dc.w .', ' subroutine\n.q nop\n dc.w .q', ' lda f', ' if f\n dc.b 6\n endif', ' dc.b 1\n if 1\n dc.b 2\n', ' if 0\n dc.b 2\n', ' repeat 2\n dc.b 7\n']
    body = [b for b in body if '\x1a' not in b]
    outer = [' include "i"\n', ' include "i"\n include "i"\n', ' if 1\n include "i"\n endif\n', ' if 0\n include "i"\n else\n dc.b 8\n endif\n', ' repeat 2\n include "i"\n repend\n', ' mac o\n include "i"\n endm\n o\n', 'q include "i"\n', ' if f\n include "i"\n else\n dc.b 7\n endif\n', ' include "k"\n', ' include "i" ; c\n', ' INCLUDE "i"\n', ' include "i"']
    for b in body:
        for o in outer:
            if o != ' include "i"\n' and o != ' include "k"\n' and (b[:2] in ('l', 'l\n', 'l ') or b[:1] == 'l'):
                continue
            if 'mac z' in b and 'o\n' in o:
                continue
            yield ((('a.asm', P + ' dc.b $11\n' + o + ('' if not o.endswith('\n') else ' dc.b $22\nf = 1\n.e dc.w .e\n')), ('i', b), ('j', ' dc.b $77'), ('k', ' dc.b $66\n include "i"\n dc.b $67'), ('b', b'\x00\x01\x02')), ()) if o.endswith('\n') or 'f' not in b else (P, ())


def pattern(n):
    return bytes((i * 7 + (i >> 8) * 3 + 13) & 255 for i in range(n))


def binsizes(full):
    sizes = list(range(0, 40)) + list(range(250, 262)) + list(range(1020, 1030)) + list(range(2044, 2054)) + [3071, 3072, 3073, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 32768, 65535, 65536, 65537]
    if full:
        sizes = sorted(set(sizes) | set(range(0, 1200)))
    for n in sizes:
        b = pattern(n)
        for s in sorted({None, 0, 1, 2, n - 1, n, n + 1, n // 2, 1023, 1024, 1025, 5000, 100000} - {-1}, key=lambda v: -1 if v is None else v):
            for fw in ('', ' lda f\n'):
                t = ' processor 6502\n org $100\n%s dc.b 1\n incbin "b"%s\n dc.b 2\n dc.w .\nf = 5\n' % (fw, '' if s is None else ',%d' % s)
                yield ((('a.asm', t), ('b', b)), ())
    # offsets and sizes beyond 64 kB
    for n in (65536, 65537, 66000, 70000, 131071, 131072, 131073, 140000):
        b = pattern(n)
        for s in (255, 256, 32767, 32768, 65535, 65536, 65537, 65536 + 1024, 131071, 131072, n - 1, n - 1024, n - 1025, n, n + 1):
            yield ((('a.asm', ' processor 6502\n org $100\n dc.b 1\n incbin "b",%d\n dc.b 2\nz dc.l z\n' % s), ('b', b)), ())
            yield ((('a.asm', ' processor 6502\n org $100\n lda f\n incbin "b",s\n dc.b 2\nz dc.l z\nf = 5\n'), ('b', b)), ('-Ds=%d' % s,))


def binctx():
    b = bytes(range(256))
    b2 = b'\r\n\x1a\x00\n\n\r' * 5
    skips = ['', ',0', ',3', ',k', ',f', ',.', ',k-5', ',[1+2]', ',$fe', ',255', ',256', ',300', ', 4', ',x', ',-k+9']
    ctx = [' incbin "b"%s\n', 'q incbin "b"%s\n dc.w q\n', ' if 1\n incbin "b"%s\n endif\n', ' if 0\n incbin "b"%s\n endif\n', ' repeat 3\n incbin "b"%s\n repend\n', ' mac m\n incbin "b"%s\n endm\n m\n m\n', ' include "i"\n incbin "b"%s\n', ' seg.u u\n org 5\n incbin "b"%s\nz dc.b 1\n seg t\n org $900\n dc.w z\n', ' rorg $4000\n incbin "b"%s\n dc.w .\n', ' INCBIN "b"%s\n', ' incbin "c"%s\n', ' incbin "e"%s\n', ' org $80\n incbin "b"%s\n']
    for s in skips:
        for c in ctx:
            if s == ',.' and 'org' in c:
                continue
            yield ((('a.asm', ' processor 6502\n org $100\nk = 5\nx set 2\n dc.b 1\n' + c % s + ' dc.b 2\nf = 7\n'), ('b', b), ('c', b2), ('e', b''), ('i', ' incbin "c"%s\n' % s)), ())
    for i in range(256):
        yield ((('a.asm', ' processor 6502\n org $100\n incbin "b"\n dc.b 2\n'), ('b', bytes((i,)))), ())
        yield ((('a.asm', ' processor 6502\n org $100\n incbin "b"\n dc.b 2\n'), ('b', bytes((i, 255 - i, i, i)))), ())


def search(n):
    """Every set of places holding the file x every order of directories."""
    places = ['', 'd1/', 'd2/', 'd3/']
    for bits in range(16):
        have = [p for i, p in enumerate(places) if bits >> i & 1]
        for k in range(0, n + 1):
            for order in itertools.product(['d1', 'd2', 'd3', 'd1/', 'nodir'], repeat=k):
                for split in range(0, k + 1) if k < 3 else (0, k):
                    opts = tuple('-I' + d for d in order[:split])
                    lines = ''.join(' incdir "%s"\n' % d for d in order[split:])
                    for what in ('include', 'incbin'):
                        fs = [(p + 'f', (' dc.b %d\n' % (places.index(p) + 1)) if what == 'include' else bytes((places.index(p) + 1,))) for p in have]
                        fs.append(('d1/z', ''))
                        yield ((('a.asm', ' processor 6502\n org $100\n%s %s "f"\n dc.b $ff\n' % (lines, what)), *fs), opts)


def related(n):
    """Directories whose names begin alike, lie within each other or are spelled differently."""
    dirs = ['d', 'd1', 'd1e', 'd1/e', 'D', '.d']
    spell = dirs + ['d/', 'd//', './d', 'd1/../d', '.', './', 'd1/./e', 'd/none']
    for bits in list(range(1, 64)):
        have = [p for i, p in enumerate(dirs) if bits >> i & 1]
        if len(have) > 2:
            continue
        for k in range(1, n + 1):
            for order in itertools.product(spell, repeat=k):
                if k > 2 and (len(set(order)) < k or not set(order) <= set(dirs)):
                    continue
                for split in (0, k) if k < 2 else (0, 1, k):
                    opts = tuple('-I' + x for x in order[:split])
                    lines = ''.join(' incdir "%s"\n' % x for x in order[split:])
                    fs = [(p + '/f', ' dc.b %d\n' % (dirs.index(p) + 1)) for p in have] + [(p + '/z', '') for p in dirs if p not in have]
                    yield ((('a.asm', ' processor 6502\n org $100\n%s include "f"\n dc.b $ff\n' % lines), *fs), opts)


def names():
    for what in ('include', 'incbin'):
        def d(v):
            return ' dc.b %d\n' % v if what == 'include' else bytes((v,))
        for nm in ['f', 'F', 'f.i', 'f.asm', 'a b', 'f-1', '_', 'f+1', '1', '12', '1f', 'x.y.z', 'sub/f', 'sub/a/f', './f', 'sub/../f', 'F.INC', 'f;g', 'f,g', "f'g", 'f(1)', '#f', '%f', '=', 'f=1', 'f\\g', 'org', 'f/', '', ' f', 'f ', '.f', '..f', '...', '.f/f', '~f', '~', '-f', '-', '$f', '&f', '!f', '*f', '?', '<f', '>f', '[f]', '{1', 'f.', '|f', '^f', '`f'] + ['n' * k for k in list(range(1, 60)) + [100, 127, 128, 200, 240, 250]]:
            if nm in ('f/', ''):
                fs = ()
            else:
                fs = ((nm, d(7)),)
            if nm in ('./f', 'sub/../f'):
                fs = (('f', d(7)), ('sub/q', ''))
            yield ((('a.asm', ' processor 6502\n org $100\n %s "%s"\n dc.b $ff\n' % (what, nm)), *fs), ())
            yield ((('a.asm', ' processor 6502\n org $100\n %s "%s"\n dc.b $ff\n' % (what, nm)),), ())
            if nm in ('./f', 'sub/../f'):
                yield ((('a.asm', ' processor 6502\n org $100\n %s "%s"\n dc.b $ff\n' % (what, nm)), ('dir/f', d(7)), ('dir/sub/q', '')), ('-Idir',))
            if nm not in ('', 'f/', './f', 'sub/../f'):
                yield ((('a.asm', ' processor 6502\n org $100\n %s "%s"\n dc.b $ff\n' % (what, nm)), ('dir/' + nm, d(7))), ('-Idir',))
            if what == 'include' and nm not in ('', 'f/'):
                yield ((('a.asm', ' processor 6502\n org $100\n if 0\n %s "%s"\n endif\n dc.b $ff\n' % (what, nm)),), ())
        # without quotes: names of digits and dots are no expressions
        for nm in ['%d' % i for i in range(10)] + ['%d.i' % i for i in range(10)] + ['%dab.i' % i for i in range(10)] if what == 'include' else []:
            for body in (' %s %s\n', ' %s %s \n', ' %s %s ; note\n', ' %s\t%s\n'):
                yield ((('a.asm', ' processor 6502\n org $100\n' + body % (what, nm) + ' dc.b $ff\n'), (nm, d(7))), ())
        for k in (1, 2, 10, 31, 32, 100, 200, 255):
            yield ((('a.asm', ' processor 6502\n org $100\n incdir "%s"\n %s "f"\n dc.b $ff\n' % ('d' * k if k < 250 else 'd/' * 60 + 'e', what)), (('d' * k if k < 250 else 'd/' * 60 + 'e') + '/f', d(7))), ())
        for k in range(1, 40):
            yield ((('a.asm', ' processor 6502\n org $100\n' + ''.join(' incdir "d%d"\n' % i for i in range(k)) + ' %s "f"\n dc.b $ff\n' % what), ('d%d/f' % (k - 1), d(7))), ())
            yield ((('a.asm', ' processor 6502\n org $100\n %s "f"\n dc.b $ff\n' % what), ('d%d/f' % (k - 1), d(7)), ('d0/g', '')), tuple('-Id%d' % i for i in range(k)))
        # a file names another one relative to the working directory or the include directories
        yield ((('a.asm', ' processor 6502\n org $100\n include "d/i"\n'), ('d/i', ' dc.b 1\n %s "j"\n' % what), ('j', d(2)), ('d/j', d(3))), ())
        yield ((('a.asm', ' processor 6502\n org $100\n include "d/i"\n'), ('d/i', ' dc.b 1\n %s "j"\n' % what), ('d/j', d(3))), ())
        yield ((('a.asm', ' processor 6502\n org $100\n include "d/i"\n'), ('d/i', ' dc.b 1\n %s "j"\n' % what), ('d/j', d(3))), ('-Id',))
        yield ((('a.asm', ' processor 6502\n org $100\n include "d/i"\n %s "j"\n' % what), ('d/i', ' dc.b 1\n incdir "d"\n'), ('d/j', d(3))), ())


def spaces(tier):
    full = tier == 'thorough'
    k = 1 if full else 0
    return [
        progs('inline', 'balanced programs of up to %d statements out of %d, every balanced range in a file of its own: equal to the text in place' % (4 + k, len(STMTS)), lambda: inline(4 + k), same),
        progs('trees', 'all include trees of 1..5 files x 6 endings, with listing', alltrees, proglist),
        progs('depths', 'depth and number of inclusions 0..40', depths),
        progs('contents', '34 texts x 12 places', contents, proglist),
        progs('end', 'END in macros 0..5 deep, in 6x5 surroundings, in the first and in an included file', gen.ended),
        progs('incbin-size', 'file sizes around 0, 256, 1024, 2048, 65536 x offsets, in three formats', lambda: binsizes(full), prog3, chunk=8),
        progs('incbin-place', 'offset expressions x places, every byte value', binctx, prog3),
        progs('search', 'file present in any subset of 4 places x directory orders up to length %d' % (2 + k), lambda: search(2 + k)),
        progs('related', 'directory names that begin alike, lie within each other or are spelled differently, orders up to length 3', lambda: related(3)),
        progs('names', 'file names, directory names, number of directories', names),
        Space('scale', 'up to 131073 inclusions, lines of an included file', lambda: scale.inclusions(scale.counts(tier == 'thorough')), scale.exactly, chunk=1),
    ]
