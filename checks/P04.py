"""P04: relative branches."""
import isa
from common import progs
from gen import CPUS, F8_BR, branches, head

FAR = [255, 256, 257, 300, 384, 511, 512, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 10, 1 << 62]


def disps():
    for d in range(-140, 141):
        yield d
    for f in FAR:
        yield f
        yield -f


def rel(d):
    return '.%+d' % d


def all_branches():
    for cpu in CPUS:
        for n, form in branches(cpu):
            yield cpu, n, form
    for n, form in F8_BR:
        yield 'f8', n, form


def values():
    """Target given as a distance from the current address or as a value."""
    for cpu, n, form in all_branches():
        for d in disps():
            yield (head(cpu, '$8000') + ' %s %s\n' % (n, form.replace('%s', rel(d))), ())
            yield (head(cpu, '$8000') + ' %s %s\n' % (n, form.replace('%s', '$8000%+d' % d)), ())
            yield (head(cpu, '$8000') + ' %s %s\nt = $8000%+d\n' % (n, form.replace('%s', 't'), d), ())


def labels():
    """Target is a label before or after the branch, over filler."""
    for cpu, n, form in all_branches():
        for k in range(110, 140):
            o = form.replace('%s', 't')
            yield (head(cpu) + ' %s %s\n %s %d\nt dc.b 1\n' % (n, o, 'res' if cpu == 'f8' else 'ds', k), ())
            yield (head(cpu) + 't %s %d\n %s %s\n' % ('res' if cpu == 'f8' else 'ds', k, n, o), ())


def relocated():
    for cpu, n, form in all_branches():
        fill = 'res' if cpu == 'f8' else 'ds'
        for k in (0, 1, 50, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130):
            o = form.replace('%s', 't')
            yield (head(cpu) + ' rorg $200\n %s %s\n %s %d\nt dc.b 1\n rend\n dc.w .\n' % (n, o, fill, k), ())
            yield (head(cpu) + ' rorg $f000\nt %s %d\n %s %s\n rend\n dc.w .\n' % (fill, k, n, o), ())
            # target and branch on different sides of the relocation: distance is between run addresses
            yield (head(cpu) + 't\n rorg $1000+%d\n %s %s\n rend\n' % (k, n, o), ())
            yield (head(cpu) + ' rorg $1000-%d\nt\n rend\n %s %s\n' % (k, n, o), ())
            yield (head(cpu) + ' rorg later\n %s %s\n %s %d\nt dc.b 1\n rend\nlater = $400\n' % (n, o, fill, k), ())
            yield (head(cpu, 'later') + ' %s %s\n %s %d\nt dc.b 1\nlater = $400\n' % (n, o, fill, k), ())
            yield (head(cpu, 'later') + 't %s %d\n %s %s\nlater = $400\n' % (fill, k, n, o), ())
            yield (head(cpu) + ' seg a\n org later\nt %s %d\n seg b\n org later+%d\n %s %s\nlater = $400\n' % (fill, k, k, n, o), ())
            yield (head(cpu) + ' seg.u a\n org $80\nt ds.b 1\n seg b\n org $80+%d\n %s %s\n' % (k, n, o) if cpu != 'f8' else
                   head(cpu) + ' seg.u a\n org $80\nt res 1\n seg b\n org $80+%d\n %s %s\n' % (k, n, o), ())


def addresses():
    """Branches at and around special addresses, given by ORG and by RORG."""
    spots = [0, 1, 2, 3, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x101, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xff7f, 0xff80, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x12345]
    for cpu, n, form in all_branches():
        fill = 'res' if cpu == 'f8' else 'ds'
        o = form.replace('%s', 't')
        for a in (0x7fffff, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0x100000000, 0x1234567890):
            for k in (5, 130):
                yield (head(cpu) + ' dc.b 9\n rorg $%x\n %s %s\n %s %d\nt dc.b 1\n rend\n' % (a, n, o, fill, k), ())
                yield (head(cpu) + ' dc.b 9\n rorg $%x\nt %s %d\n %s %s\n rend\n' % (a, fill, k, n, o), ())
        for a in spots:
            for k in (0, 7, 130):
                yield (head(cpu, '$%x' % a) + ' %s %s\n %s %d\nt dc.b 1\n' % (n, o, fill, k), ('-f3',))
                yield (head(cpu, '$%x' % a) + 't %s %d\n %s %s\n' % (fill, k, n, o), ())
                yield (head(cpu) + ' dc.b 9\n rorg $%x\n %s %s\n %s %d\nt dc.b 1\n rend\n' % (a, n, o, fill, k), ())
                yield (head(cpu) + ' dc.b 9\n rorg $%x\nt %s %d\n %s %s\n rend\n' % (a, fill, k, n, o), ())
            yield (head(cpu) + ' rorg $%x\n %s %s\n' % (a, n, form.replace('%s', '.')), ())
            yield (head(cpu) + ' rorg z\n %s %s\n rend\nz = $%x\n' % (n, form.replace('%s', '*'), a), ())
            for t in (0, 0xfffe, 0xffff, 0x10000, 0x7fff, 0x8000):
                if abs(t - a) < 300 or abs(abs(t - a) - 0x10000) < 300:
                    yield (head(cpu, '$%x' % a) + ' %s %s\n' % (n, form.replace('%s', '$%x' % t)), ())


def unknown():
    """The address of the branch or its target is learnt late or never; the other one is a number."""
    for cpu, n, form in all_branches():
        for t in ('0', '1', '5', '-1', '$7f', '$80', '$100', '$400', '$3ff', '.', '.+2', 'u', 'z', 'z+2', 'l'):
            o = form.replace('%s', t)
            for w in (' rorg u\n', ' rorg z\n', ' rorg z\n rend\n rorg\n', ' org u\n', ' org z\n', ' seg a\n', ' rorg u\n rend\n', ' rorg u\n rorg 5\n', ' rorg 5\n rorg u\n', ' seg.u a\n org z\n', ' seg.u a\n'):
                for z in ('z = 3\n', 'z = y\ny = $3f0\n', 'z = $110\n'):
                    yield (head(cpu) + w + 'l %s %s\n rend\n' % (n, o) + z, ())


def pairs():
    """Two branches over each other and over an instruction whose size is settled late."""
    for cpu, n, form in all_branches():
        if cpu == 'f8':
            continue
        st = {'6502': 'lda', '65c02': 'lda', '6803': 'ldaa', '6303': 'ldaa', '68705': 'lda', '6811': 'ldaa', '68908': 'lda'}[cpu]
        a, b = form.replace('%s', 'a'), form.replace('%s', 'b')
        for k in range(105, 132):
            yield (head(cpu, '$20') + 'a %s %s\n ds %d\n %s z\nb %s %s\n seg.u v\n org $90\nz ds 1\n' % (n, b, k, st, n, a), ())
            yield (head(cpu, '$20') + 'a %s %s\n ds %d\n %s z\nb %s %s\nz = $1234\n' % (n, b, k, st, n, a), ())
            yield (head(cpu, '$20') + ' if late\na %s %s\n ds %d\nb %s %s\n endif\nlate = 1\n' % (n, b, k, n, a), ())


def macro():
    for cpu, n, form in all_branches():
        fill = 'res' if cpu == 'f8' else 'ds'
        for k in (0, 5, 120, 124, 125, 126, 127, 128, 129, 130):
            yield (head(cpu) + ' mac m\n.l %s {1}\n %s %s\n endm\n m %d\n m %d\n' % (fill, n, form.replace('%s', '.l'), k, k), ())
            yield (head(cpu) + ' repeat 2\n %s %s\n %s %d\n repend\nt\n' % (n, form.replace('%s', 't'), fill, k // 2), ())
            yield (head(cpu) + 'x subroutine\n.l %s %d\n %s %s\ny subroutine\n.l %s %s\n' % (fill, k, n, form.replace('%s', '.l'), n, form.replace('%s', '.l')), ())


def spaces(tier):
    return [
        progs('values', 'every branch form of every processor x displacements -140..140 and %d far ones x 3 ways of giving the target' % (2 * len(FAR)), values),
        progs('labels', 'every branch form, labels before and after over 110..139 bytes', labels),
        progs('unknown', 'every branch form x %d targets x %d origins, known late or never' % (15, 33), unknown),
        progs('relocated', 'every branch form under RORG, unknown origins, across segments', relocated),
        progs('addresses', 'every branch form at 29 special addresses, plain and relocated', addresses),
        progs('pairs', 'two branches across an instruction whose size is settled late, 105..131 bytes apart', pairs),
        progs('scopes', 'branches in macros, repeats and subroutines', macro),
    ]
