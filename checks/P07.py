"""P07: bytes are placed at the addresses the source asks for."""
import scale
from common import Space, prog, prog3, progs, texts

P = ' processor 6502\n'

LAYOUT = [' org $20\n', ' org $10\n', ' rorg $700\n', ' rend\n', ' seg a\n', ' seg.u b\n', ' seg\n', ' align 4\n', ' align 8,$ee\n', ' ds 3,$11\n', ' dc.b 1,2\n', ' dc.w .\n',
          'l%d dc.w l%d\n', ' org .+5,$cc\n', ' lda $1234\n']
DEEP = [' org $20\n', ' rorg $701\n', ' rend\n', ' seg a\n', ' seg.u b\n', ' align 4\n', ' ds 3,$11\n', ' dc.w .\n', ' org .+5,$cc\n', ' nop\n', ' seg c\n org $40\n']


def numbered(head, alphabet, maxlen, minlen=0, args=()):
    for files, a in texts(head, alphabet, maxlen, minlen, args=args):
        n = 0
        while '%d' in files:
            files = files.replace('%d', str(n), 2)
            n += 1
        yield (files, a)


def origins():
    vals = [0, 1, 2, 0xf, 0x10, 0xff, 0x100, 0x101, 0x3ff, 0x400, 0x7ff, 0xfff, 0x1000, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x12345, 0x8ffff]
    fills = ['', ',0', ',$55', ',255', ',-1', ',256', ',$1234']
    for a in vals:
        for b in vals:
            for f in fills:
                yield (P + ' org $%x\n dc.b 1\n org $%x%s\n dc.b 2\n dc.w .\n' % (a, b, f), ())
        for f in fills:
            yield (P + ' org $%x%s\nl dc.b 1\n dc.w l,.\n' % (a, f), ())


def relocations():
    vals = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1000, 0x7fff, 0x8000, 0xffff, 0x10000]
    for a in vals:
        for r in vals:
            for x in (' dc.w .\n', 'l dc.w l\n', ' ds 5\n', ' align 16\n', ' jmp .\n', ' dc.w *\n', ' bne .\n', ' rorg .+$10\n dc.w .\n', ' org .+3\n dc.w .\n',
                      ' rend\n dc.w .\n rorg\n dc.w .\n', '. = .+4\n dc.w .\n', ' seg s\n dc.w 1\n', ' rorg $300\n dc.w .\n'):
                yield (P + ' org $%x\n dc.b 1\n rorg $%x\n%sm dc.w m,.\n rend\nn dc.w n,.\n' % (a, r, x), ('-f2',))


def aligns():
    for a in list(range(0, 34)) + [0xff, 0x100, 0x101, 0x3ff, 0x400, 0x401]:
        for n in list(range(1, 35)) + [63, 64, 255, 256, 257, 1000, 1023, 1024, 1025, 4096]:
            for f in ('', ',0', ',$aa'):
                yield (P + ' org $%x\n dc.b 1\n align %d%s\nl dc.b 2\n dc.w l\n' % (a, n, f), ())
            yield (P + ' org $1000\n rorg $%x\n dc.b 1\n align %d,3\nl dc.b 2\n rend\n dc.w l,.\n' % (a, n), ())
            yield (P + ' seg.u v\n org $%x\n ds 1\n align %d\nl ds 2\n seg c\n org 0\n dc.w l\n' % (a, n), ())


def high_aligns():
    """Boundaries that divide no power of two, at high addresses, and large boundaries."""
    for a in [0x7ffe, 0x7fff, 0x8000, 0x8001, 0xbfff, 0xc000, 0xf000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x18000, 0x1ffff]:
        for n in (3, 5, 7, 10, 24, 100, 127, 129, 255, 256, 1000, 4096, 0x7fff, 0x8000, 0x8001, 0xc000, 0xffff, 0x10000, 0x10001, 0x20000):
            yield (P + ' org $%x\n dc.b 1\n align %d\nl dc.b 2\n dc.l l\n' % (a, n), ('-f3',))
            yield (P + ' org $1000\n rorg $%x\n dc.b 1\n align %d,3\nl dc.b 2\n rend\n dc.l l,.\n' % (a, n), ('-f3',))
            yield (P + ' seg.u v\n org $%x\n ds 1\n align %d\nl ds 2\n seg c\n org 0\n dc.l l\n' % (a, n), ())
            yield (P + ' seg.u v\n org 0\n rorg $%x\n ds 1\n align %d\nl ds 2\n seg c\n org 0\n dc.l l\n' % (a, n), ())


def heights():
    """Addresses of every size, up to what fits in an address: relocated, uninitialised and plain."""
    for k in range(8, 63):
        for d in (-3, -1, 0, 1):
            a = (1 << k) + d
            for s in ('l nop\n', ' nop\nl ds 3\n', ' ds 2\nl\n', ' nop\n align 4\nl\n', 'l = .\n', ' bne l\nl\n', ' nop\n. = .+5\nl nop\n'):
                yield (P + ' org $1000\n dc.b 1\n rorg $%x\n' % a + s + ' dc.l l,l>>32,.,[.]>>32\n rend\nn dc.l n\n', ('-f3',))
                yield (P + ' org $1000\n dc.b 1\n rorg later\n' + s + ' dc.l l,l>>32\n rend\nn dc.l n\nlater = $%x\n' % a, ('-f3',))
                if k < 40:
                    yield (P + ' org $%x\n' % a + s + ' dc.l l,l>>32\n', ('-f3', '-m3000000000' if k > 60 else '-m2000000'))
                    yield (P + ' seg.u u\n org $%x\n' % a + s.replace('nop', 'ds 1').replace(' bne l', ' ds 2') + ' seg c\n org 0\n dc.l l,l>>32\n', ('-f3', '-m2000000'))


def spaced():
    """Space of every size before and after data, in every kind of segment."""
    for n in list(range(0, 40)) + list(range(1015, 1040)) + list(range(2040, 2056)) + [4095, 4096, 16383, 16384, 16385, 65535, 65536]:
        for d in (' ds %d\n' % n, ' ds %d,$a5\n' % n, ' ds.w %d,$1234\n' % n, ' ds.l %d,$12345678\n' % n, ' org .+%d\n' % n, ' org .+%d,7\n' % n):
            yield (P + ' org $100\na dc.b 1\n' + d + 'b dc.b 2\n dc.l a,b\n', ())
            yield (P + ' org $100\n rorg $9000\na dc.b 1\n' + d + 'b dc.b 2\n rend\nc dc.l a,b,c\n', ())
            yield (P + ' seg.u u\n org $100\na ds 1\n' + d + 'b ds 1\n seg c\n org 0\n dc.l a,b\n', ())


def labelled():
    """A label on the line of a layout statement, and what follows it."""
    st = ['org $40', 'org .+3,1', 'rorg $700', 'rorg $0', 'rend', 'seg a', 'seg.u b', 'seg', 'align 8', 'align 16,3', 'ds 3', 'ds.w 2', 'dc.b 1,2', 'lda $12', 'lda $1234', 'subroutine', 'hex 0102', 'incbin "d"', 'include "i"', 'm', 'if 1\n endif', 'repeat 2\n repend', 'echo "x"',
          'list on', 'dc "abc"', 'ds 0', '= 5', 'set 6', 'eqm 7', '', 'processor 6502', 'end', 'incdir "d"', 'dv.b v 1']
    ctx = [('', ''), (' rorg $900\n', ''), (' rorg $900\n ds 2\n', ' rend\n'), (' seg z\n org $50\n', ''), (' seg.u z\n org $50\n', ' seg y\n org $200\n'), (' dc.b 1\n', ''), (' ds 7\n', ''), (' rorg later\n', ''), (' org later\n', '')]
    for s in st:
        for a, b in ctx:
            for s2 in st:
                if s2 == '' or 'later' in a and s2 in ('rend', 'ds 0', 'end'):
                    l2 = ''
                else:
                    l2 = 'q %s\n' % s2
                if s == 'end' and l2:
                    continue
                t = P + ' org $20\nv eqm ..\n mac m\n nop\n endm\n' + a + 'p %s\n' % s + l2 + b + ' dc.w .\n seg w\n org $300\n dc.w p' + (',q' if l2 else '') + '\nlater = $800\n'
                if s == 'end':
                    t = t.replace('p end', ' dc.w later\nlater = $800\np end')
                yield ((('a.asm', t), ('d', b'xyz'), ('i', ' dc.b 1\n')), ('-f2',))


def segswitch():
    """Segments keep their own addresses however often they are entered."""
    st = [' seg a\n', ' seg b\n', ' seg.u u\n', ' seg\n', ' seg.u v\n', ' dc.b 1\n', ' ds 2\n', ' dc.w .\n', ' seg A\n']
    head = P + ' seg a\n org $100\n seg b\n org $200\n seg.u u\n org $80\n seg.u v\n org $90\n seg A\n org $400\n seg\n org $300\n'
    return texts(head, st, 5, 1, args=('-f2',), tail=' seg.u u\nx\n seg.u v\ny\n seg end\n org $500\n dc.w x,y\n')


def segnames():
    """Segments whose names differ only late, in case or in length."""
    for n in list(range(1, 70)) + [100, 127, 128, 129, 200, 255, 256, 257, 300]:
        base = ('abcdefghij' * 31)[:n - 1]
        for a, b in (('y', 'z'), ('y', 'Y'), ('y', 'yy'), ('1', '10'), ('y', '')):
            if not base + b:
                continue
            for u in ('', '.u'):
                yield (P + ' seg %s\n org $100\np dc.b 1\n seg%s %s\n org $200\nq ds 2\n seg %s\nr dc.b 3\n seg%s %s\ns ds 1\n seg end\n org $400\n dc.w p,q,r,s\n'
                       % (base + a, u, base + b, base + a, u, base + b), ('-f2',))


def cpus():
    for p in ('6502', '65c02', '6803', 'HD6303', '68705', '68HC11', '68908', 'F8'):
        ds = 'res' if p == 'F8' else 'ds'
        for a in (0, 1, 0x7f, 0xff, 0x1234):
            yield (' processor %s\n org $%x\n dc.b 1\nl %s 5,2\n dc.w l,.\n align 8\n rorg $c000\nm dc.w m\n rend\n org .+6,9\nn dc.w n\n seg.u z\n org 5\nq %s 3\n seg\n dc.w q,.\n'
                   % (p, a, ds, ds), ('-f2',))
            for w in (' res 3\n', ' ds 3\n', ' ds.w 2,$1234\n', ' ds.l 2,$12345678\n', ' db 1,2\n', ' dw $1234\n', ' dd $12345678\n'):
                if p == 'F8' or w.startswith(' ds'):
                    yield (' processor %s\n org $%x\nl%s dc.w l,.\n' % (p, a, w), ())


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        progs('layout', 'words of length <= %d over %d statements, three formats' % (3 + k, len(LAYOUT)), lambda: numbered(P + ' org $18\n', LAYOUT, 3 + k), prog3),
        progs('layout-4', 'words of length 4 over the same statements, three formats', lambda: numbered(P + ' org $18\n', LAYOUT, 4, 4), prog3),
        progs('layout-no-org', 'words of length <= %d over the same statements without a first origin, three formats' % (3 + k), lambda: numbered(P, LAYOUT, 3 + k), prog3),
        progs('deep', 'words of length 5 over %d statements, format %s' % (len(DEEP), '1'), lambda: texts(P + ' org $18\n', DEEP, 5, 5), prog),
        progs('origins', '20x20 origins x 7 fill values, three formats', origins, prog3),
        progs('relocation', '11 origins x 11 relocated origins x 13 bodies', relocations, prog),
        progs('align', '40 addresses x 44 boundaries x plain, filled, relocated, uninitialised', aligns, prog),
        progs('high-align', '14 high addresses x 20 boundaries x plain, relocated, uninitialised, both', high_aligns, prog),
        progs('heights', 'addresses around 2^8..2^62, relocated, uninitialised and plain, 7 bodies', heights, prog),
        progs('space', 'space of 88 sizes in initialised, relocated and uninitialised segments', spaced, prog),
        progs('labelled', 'labels on the lines of 34x34 statements in 9 contexts', labelled, prog),
        progs('segments', 'words of length 1..5 over 9 statements switching between six segments', segswitch, prog),
        progs('segment-names', '78 lengths of names x 5 differences at their end x initialised, uninitialised', segnames, prog),
        progs('processors', 'layout statements on every processor', cpus, prog3),
        Space('scale', 'up to 131073 changes of segment, segments, RORGs, alignments', lambda: scale.segments(scale.counts(tier == 'thorough')), scale.exactly, chunk=1),
    ]
