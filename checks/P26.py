"""P26: limits stop runaway sources and nothing else."""
import itertools

import scale
from common import Case, Space, bytediff, diff, filelist, model, prog, short, texts, words

P = ' processor 6502\n org $100\n'


# ---------------------------------------------------------------- number of passes

def equates(n):
    """A chain of n forward references through assignments."""
    return P + ' dc.b v0\n' + ''.join('v%d = v%d+1\n' % (i, i + 1) for i in range(n)) + 'v%d = 1\n' % n


def orgs(n):
    """Each origin depends on the label behind the next."""
    return ' processor 6502\n org l%d\n dc.b 1\n' % n + ''.join('l%d = l%d+2\n' % (i, i - 1) for i in range(n, 0, -1)) + 'l0 = $200\n'


def sizes(n):
    """Reserved space depending on later symbols."""
    return P + ' ds c%d\nend0\n dc.w end0\n' % n + ''.join('c%d = c%d\n' % (i, i - 1) for i in range(n, 0, -1)) + 'c0 = 3\n'


def pages(n):
    """Operands whose length is known only when the next symbol is."""
    return P + ''.join(' lda p%d\n' % i for i in range(n)) + ''.join('p%d = p%d+1\n' % (i, i + 1) for i in range(n)) + 'p%d = $f%d\n' % (n, n % 10)


def ifs(n):
    return P + ' if f%d\n dc.b 1\n else\n dc.b 2,3\n endif\nx dc.w x\n' % n + ''.join('f%d = f%d\n' % (i, i - 1) for i in range(n, 0, -1)) + 'f0 = %d\n' % (n & 1)


def repeats(n):
    return P + ' repeat r%d\n dc.b 1\n repend\nx dc.w x\n' % n + ''.join('r%d = r%d\n' % (i, i - 1) for i in range(n, 0, -1)) + 'r0 = 4\n'


def labels(n):
    """Labels placed by the value of later ones."""
    return P + ''.join(' ds s%d-$%x\nt%d\n' % (i, i, i) for i in range(n, 0, -1)) + ''.join('s%d = s%d+1\n' % (i, i - 1) for i in range(n, 0, -1)) + 's0 = 1\n dc.w t1\n'


def macros(n):
    return P + ' mac m\n dc.b {1}\n endm\n m q%d\n' % n + ''.join('q%d eqm [q%d]\n' % (i, i - 1) if i % 2 else 'q%d = q%d\n' % (i, i - 1) for i in range(n, 0, -1)) + 'q0 = 9\n'


def names(n):
    """A name made of a value known only in the end."""
    return P + 'w,d%d = 7\n dc.b w5\n' % n + ''.join('d%d = d%d\n' % (i, i - 1) for i in range(n, 0, -1)) + 'd0 = 5\n'


def contrived(n):
    """The example of the manual."""
    return ' processor 6502\n org 1\n repeat [[x < %d] ? [x-%d]] + %d\n dc.b x\n repend\nx:\n' % (n, n, n)


FAMILIES = [equates, orgs, sizes, pages, ifs, repeats, labels, macros, names, contrived]


def passes(item):
    """With every limit: as the model says; successes closed upwards, with one result."""
    src, limits = item
    fl = filelist(src)
    opts = [(k + str(n),) for k in ('-p', '-P') for n in limits] + [()]
    rr = yield [Case(['a.asm', *o, '-oo', '-ss'], fl, ('o', 's')) for o in opts]
    first = {}
    for o, r in zip(opts, rr):
        why = diff(model(fl, o), r)
        if why:
            return '%s: %s' % (' '.join(o), why)
        kind = o[0][:2] if o else '-p'
        if r.rc == 0:
            first.setdefault(kind, (o, r))
        elif kind in first and o:
            return 'succeeds with %s, status %d with %s' % (first[kind][0][0], r.rc, o[0])
        if r.rc == 0:
            a = next(iter(first.values()))[1]
            if r.files[0] != a.files[0]:
                return '%s: %s' % (o, bytediff(a.files[0], r.files[0]))
            if r.files[1] != a.files[1]:
                return '%s: symbol files differ' % (o,)
    return None


def pass_items(n):
    for f in FAMILIES:
        for i in range(n):
            yield (f(i), tuple(range(1, n + 6)) + (50, 1000))
    for w in (' dc.b 1\n', '', ' lda x\nx\n', ' bne x\n nop\nx\n', ' err\n', ' foo\n'):
        yield (P + w, (-1, 0, 1, 2, 3, 10, 1000000))


RUNAWAY = [
    # never resolved, in bounded time whatever the limit
    P + ' dc.b x\n', P + 'x = x+1\n dc.b x\n', P + 'a = b+1\nb = a+1\n dc.b a\n', P + ' ds x\nx\n', P + ' org x\nx\n', P + ' ds x+1\nx\n',
    P + ' if x\n ds 1\n endif\nx = x\n', P + ' ds [x == $100]\nx\n', P + ' ds [x & 1] == 0\nx\n', P + 'x = y\ny = x\n dc.w y\n', P + ' repeat x\n nop\n repend\nx = x + 1\n',
    P + ' dc.b u\n ifconst u\n endif\n', ' processor 6502\n org y\n dc.b 1\ny\n', P + ' dc.b 1\n ds 300-y\ny = [y2+1]\ny2 = y\n',
    P + ' if [x & 1] == 0\n dc.b 1\n endif\nx\n dc.w x\n', P + ' if x == $101\n dc.b 1\n else\n dc.b 1,2\n endif\nx\n dc.w x\n', P + ' ds 2-[x-$100]\nx\n dc.w x\n', P + ' ds [x == $100] ? 2\nx\n dc.w x\n',
    P + ' rorg x\n dc.b 1\nx\n rend\n dc.w x\n', P + ' align x\nx\n', P + ' seg a\n org x\n nop\n seg b\n org y\n nop\nx\n seg a\ny\n',
]


def runaway(item):
    """Fails, as the model says, under every pass limit, in bounded time."""
    src, limits = item
    fl = filelist(src)
    opts = [(k + str(n),) for k in ('-p', '-P') for n in limits] + [()]
    rr = yield [Case(['a.asm', *o, '-oo', '-ss'], fl, ('o', 's'), cpu=3000) for o in opts]
    for o, r in zip(opts, rr):
        why = diff(model(fl, o), r)
        if why:
            return '%s: %s' % (' '.join(o), why)
    return None


def runaway_items():
    for s in RUNAWAY:
        yield (s, (1, 2, 3, 5, 10, 20, 100, 1000))


MONO = ['a = b+1\n', 'b = c\n', 'c = 5\n', 'c = $105\n', ' lda b\n', ' ds a\n', ' dc.b a\n', ' bne l\n', 'l\n', ' org $180-c\n', ' if b > 4\n dc.b 1\n endif\n', ' repeat c\n nop\n repend\n', ' jmp l\n', 'b eqm [c+1]\n', ' rorg c\n', ' align 4\n', ' lda l\n']


def monotone(item):
    """The least limits, the default and the largest: one result from the least sufficient on."""
    files, _ = item
    fl = filelist(files)
    opts = [('-p%d' % n,) for n in (1, 2, 3, 4, 5)] + [(), ('-p200',), ('-m65',), ('-m10000',), ('-m65', '-p12')]
    m = model(fl, ())
    if m.rc == 0:
        opts.append(('-P10',))
    rr = yield [Case(['a.asm', *o, '-oo', '-ss'], fl, ('o', 's')) for o in opts]
    why = diff(m, rr[5])
    if why:
        return why
    good = None
    for o, r in zip(opts, rr):
        if r.rc == 0:
            good = good or (o, r)
            if r.files != good[1].files:
                return 'the results with %s and %s differ' % (good[0], o)
        elif r.rc < 0:
            return '%s: ended by signal %d' % (o, -r.rc)
        elif good:
            return 'succeeds with %s, status %d with %s' % (good[0], r.rc, o)
    if m.rc == 0:
        for o, r in zip(opts[:5], rr):
            n = int(o[0][2:])
            if (r.rc == 0) != (n >= m.passes):
                return '%d passes are needed; %s ends with status %d' % (m.passes, o[0], r.rc)
    return None


# ---------------------------------------------------------------- nesting

def nested_macros(n, arg):
    """n distinct macros, each calling the next."""
    return ''.join(' mac m%d\n dc.b %d\n%s endm\n' % (i, i & 255, ' m%d %s\n' % (i + 1, arg) if i < n - 1 else ' dc.b 255\n') for i in range(n)) + ' m0 1\n dc.b 7\n'


def counted(n, style):
    """One macro calling itself until its argument has reached n."""
    if style == 'if':
        return ' mac r\n dc.b {1}\n if {1} < %d\n r {1}+1\n endif\n endm\n r 1\n dc.b 7\n' % n
    if style == 'set':
        return 'k set 0\n mac r\nk set k+1\n dc.b k\n if k < %d\n r\n endif\n dc.b $80\n endm\n r\n dc.b 7\n' % n
    if style == 'mexit':
        return 'k set 0\n mac r\nk set k+1\n if k >= %d\n dc.b k\n mexit\n endif\n r\n dc.b 3\n endm\n r\n dc.b 7\n' % n
    if style == 'two':
        return 'k set 0\n mac a\nk set k+1\n if k < %d\n b\n endif\n dc.b 1\n endm\n mac b\nk set k+1\n if k < %d\n a\n endif\n dc.b 2\n endm\n a\n a\n dc.b k\n' % (n, n)
    return 'k set 0\n mac r\nk set k+1\n repeat 1\n if k < %d\n r\n endif\n repend\n dc.b k\n endm\n r\n dc.b 7\n' % n


ENDLESS = [
    ' mac r\n r\n endm\n r\n', ' mac r\n dc.b 1\n r\n endm\n r\n', ' mac a\n b\n endm\n mac b\n a\n endm\n a\n', ' mac r\n r {1}+1\n endm\n r 1\n', ' mac r\n r\n r\n endm\n r\n', ' mac a\n b\n c\n endm\n mac b\n nop\n endm\n mac c\n a\n endm\n a\n',
    ' mac r\n if 1\n r\n endif\n endm\n r\n', ' mac r\n repeat 2\n r\n repend\n endm\n r\n', ' mac r\nx set x+1\n r\n endm\nx set 0\n r\n', ' mac r\n r {1},{1}\n endm\n r 1\n', ' mac r\n r "{1}"\n endm\n r a\n', ' mac r\n include "i"\n endm\n r\n',
    ' include "a.asm"\n', ' include "i2"\n', ' include "i3"\n', ' include "i4"\n', ' mac q\n include "i5"\n endm\n q\n', ' include "i6"\n include "i6"\n', ' repeat 3\n include "a.asm"\n repend\n',
    'e eqm e\n dc.b e\n', 'e eqm e+1\n dc.b e\n', 'e eqm f\nf eqm e\n dc.b e\n', 'e eqm [e]\n lda e\n', 'e eqm -e\n dc.b e\n', 'e eqm e+e\n dc.b e\n', 'e eqm f+f\nf eqm e\nx = e\n', 'e eqm e\n if e\n endif\n', 'e eqm e\n org e\n', 'e eqm e\n echo e\n', 'e eqm e\n repeat e\n repend\n', 'e eqm e\n ds e\n',
    'e eqm f\nf eqm g\ng eqm e\n dc.w g\n', 'e eqm e\nx set e\n', 'e eqm ..+e\n dv e 1\n', 'e eqm e\n align e\n', 'e eqm e\n rorg e\n', 'e eqm e\n lda #e\n', 'e eqm e\n bne e\n', 'e eqm e\n incbin "b",e\n',
]
INCS = (('i', ' r\n'), ('i2', ' include "i2"\n'), ('i3', ' include "i3b"\n'), ('i3b', ' nop\n include "i3"\n'), ('i4', ' include "i4"\n include "i4"\n'), ('i5', ' q\n'), ('i6', ' include "a.asm"\n'), ('b', b'12345'))


def endless(item):
    """A failing status, no crash, in bounded time, with every larger pass limit and barrier."""
    fl = filelist(item)
    opts = [(), ('-p1',), ('-P20',), ('-m100000',), ('-f2',), ('-f3', '-v4')]
    rr = yield [Case(['a.asm', *o, '-oo', '-ss', '-ll'], fl, ('o', 's', 'l'), cpu=5000) for o in opts]
    for o, r in zip(opts, rr):
        if r.rc <= 0:
            return '%s: %s' % (o, 'ended by signal %d' % -r.rc if r.rc else 'success')
    return None


def endless_items():
    for s in ENDLESS:
        for pre in ('', ' nop\n', ' ifconst nothing\n endif\n'):
            yield (('a.asm', P + pre + s),) + INCS
    for s in ENDLESS[:12]:
        yield (('a.asm', P + ' include "j"\n'), ('j', s)) + INCS
        yield (('a.asm', P + s + ' dc.b later\nlater\n'),) + INCS


def depth_items(n):
    for i in range(1, n):
        for arg in ('', '1', '{1}+1', '"a",2'):
            yield (P + nested_macros(i, arg), ())
        for style in ('if', 'set', 'mexit', 'two', 'repeat'):
            yield (P + counted(i, style), ())
            yield (P + counted(i, style) * 1 + ' lda later\nlater = $1234\n', ())
        yield (P + ' mac z\n' + ' dc.b 1\n' + ' endm\n' + ' z\n' * i * 3, ())
        # nested conditions and loops are not limited
        yield (P + ' if 1\n' * i * 3 + ' dc.b 1\n' + ' endif\n' * i * 3 + ' dc.b 2\n', ())
        yield (P + ' repeat 1\n' * i * 3 + ' dc.b 1\n' + ' repend\n' * i * 3 + ' dc.b 2\n', ())


def include_files(n):
    return (('a.asm', P + ' dc.b 0\n include "f1"\n dc.b $ee\n'),) + tuple(('f%d' % i, ' dc.b %d\n' % (i & 255) + (' include "f%d"\n' % (i + 1) if i < n else '') + ' dc.b %d\n' % (255 - i & 255)) for i in range(1, n + 1))


def include_items(step):
    for n in sorted(set(range(1, 190, step)) | set(range(190, 206))):
        yield (include_files(n), ())
    # macros and files have limits of their own
    for n in (1, 2, 100, 168, 169, 170, 185, 198, 199, 200, 201):
        for m in (1, 2, 15, 30, 31, 32, 33):
            mac = ''.join(' mac m%d\n dc.b %d\n m%d\n endm\n' % (i, i, i + 1) for i in range(1, m)) + ' mac m%d\n include "f1"\n dc.b $ef\n endm\n' % m
            fl = tuple(('f%d' % i, ' dc.b %d\n' % i + (' include "f%d"\n' % (i + 1) if i < n else '')) for i in range(1, n + 1))
            yield ((('a.asm', P + mac + ' m1\n dc.b $ee\n'),) + fl, ())
            mac = mac.replace('include "f1"', 'nop')
            fl = tuple(('f%d' % i, ' dc.b %d\n' % i + (' include "f%d"\n' % (i + 1) if i < n else ' m1\n')) for i in range(1, n + 1))
            yield ((('a.asm', P + mac + ' include "f1"\n dc.b $ee\n'),) + fl, ())
    for n in range(1, 36):
        yield ((('a.asm', P + 'k set 0\n mac m\nk set k+1\n include "r"\n dc.b 1\n endm\n m\n dc.b k\n'), ('r', ' if k < %d\n m\n endif\n dc.b 2\n' % n)), ())
    for n in (1, 5, 50, 150, 199, 200, 201, 202):
        # each file twice at one level: the count is of nesting, not of files
        yield ((('a.asm', P + ' include "f"\n' * n * 3), ('f', ' dc.b 1\n')), ())
        yield ((('a.asm', P + 'k set 0\n include "r"\n dc.b k\n'), ('r', 'k set k+1\n if k < %d\n include "r"\n endif\n' % n)), ())
        yield ((('a.asm', P + 'k set 0\n include "r"\n include "r"\n dc.b k\n'), ('r', 'k set k+1\n if k < %d\n include "r"\n endif\n' % n)), ())


def bounded(item):
    """As the model says; with more than some 30 operators pending, a failing status is right as well."""
    files, pending = item
    fl = filelist(files)
    r, = yield [Case(['a.asm', '-oo', '-ss'], fl, ('o', 's'))]
    if pending > 30 and r.rc > 0:
        return None
    return diff(model(fl, ()), r)


def expr_items(step):
    """Expressions just below, at and above what the evaluator holds: (source, operators pending at a time)."""
    for n in range(1, 70):
        yield (P + ' dc.b ' + '[' * n + '1' + ']' * n + '\n', n)
        yield (P + ' dc.b ' + '(' * n + '1+2' + ')' * n + '*2\n', n + 1)
        yield (P + ' dc.b ' + '-' * n + '1\n', n)
        yield (P + ' dc.b ' + '~' * n + '1\n', n)
        yield (P + ' dc.b ' + '!-' * n + '1\n', 2 * n)
        yield (P + ' dc.b ' + '<' * n + '$123\n', n)
        yield (P + ' dc.b ' + '1+[' * n + '1' + ']' * n + '\n', 2 * n)
        yield (P + ' lda #' + '[1+' * n + '1' + ']' * n + '\n', 2 * n)
        yield (P + ' dc.b ' + '1-[2*' * n + '1' + ']' * n + '\n', 3 * n)
    for n in list(range(1, 70)) + [100, 200, 400]:
        yield (P + ' dc.b ' + '+'.join(['1'] * n) + '\n', 1)
        yield (P + ' dc.b ' + ','.join(['1'] * n) + '\n', 1)
        if n < 70:
            yield (P + ' dc.b ' + ','.join(['[[1+%d]*2]' % i for i in range(n)]) + '\n', 4)
            yield (P + ' dc.w ' + ','.join(['later-%d' % i for i in range(n)]) + '\nlater\n', 1)
        yield (P + ' dc.b ' + '*'.join(['2'] * n) + '+1\n', 1)
        yield (P + 'x = ' + '-'.join(['1'] * n) + '\n dc.l x\n', 1)
    for n in sorted(set(range(1, 960, step)) | set(range(960, 1010))):
        yield (P + ''.join('e%d eqm e%d\n' % (i, i + 1) for i in range(n)) + 'e%d = 5\n dc.b e0\n' % n, 1 if n < 990 else 99)
    for n in range(1, 34):
        yield (P + ''.join('e%d eqm [e%d+1]\n' % (i, i + 1) for i in range(n)) + 'e%d = 5\n dc.b e0\n' % n, n + 1)
    for n in range(1, 12):
        # wide, not deep: the number of evaluations is not limited
        yield (P + ''.join('e%d eqm [e%d+e%d]\n' % (i, i + 1, i + 1) for i in range(n)) + 'e%d = 1\n dc.w e0\n' % n, 2 * n)
    for n in (100, 900, 999, 1000, 1001, 1100, 3000):
        yield (P + 'x eqm 1\n' + ' dc.b x\n' * n, 1)
        yield (P + 'x = 1\n' + ' lda x\n' * n, 1)
        yield (P + 'e eqm -1\n repeat %d\n dc.b e,e\n repend\n' % n, 1)
        yield (P + ' dc.b y\n' * n + 'y = 3\n', 1)


# ---------------------------------------------------------------- the size barrier

def size_items(ms, deltas):
    for fmt in ('-f1', '-f2', '-f3'):
        for m in ms:
            top = m * 1024
            args = (fmt,) + (('-m%d' % m,) if m != 640 else ())
            for d in deltas:
                end = top + d
                for body in BODIES:
                    yield (body(end), args)


def b_ds(end):
    return ' processor 6502\n org 0\n dc.b 1\n ds %d,2\n' % (end - 1)


def b_org(end):
    return ' processor 6502\n org %d\n dc.b 1\n' % (end - 1)


def b_fill(end):
    return ' processor 6502\n org 0\n dc.b 1\n org %d\n' % end


def b_word(end):
    return ' processor 6502\n org %d\n dc.w 1\n' % (end - 2)


def b_ins(end):
    return ' processor 6502\n org %d\n jmp $1234\n' % (end - 3)


def b_string(end):
    return ' processor 6502\n org %d\n dc.b "%s"\n' % (end - 20, 'a' * 20)


def b_repeat(end):
    return ' processor 6502\n org %d\n repeat 300\n dc.b 1\n repend\n' % (end - 300)


def b_bin(end):
    return (('a.asm', ' processor 6502\n org %d\n incbin "b"\n' % (end - 50)), ('b', b'x' * 50))


def b_align(end):
    return ' processor 6502\n org %d\n dc.b 1\n ds 9\n' % (end - 10)


def b_first(end):
    return ' processor 6502\n org $100\n dc.b 1\n ds %d\n' % (end - 0x101)


def b_seg(end):
    return ' processor 6502\n seg a\n org 0\n dc.b 1\n seg b\n org %d\n dc.b 1\n seg a\n dc.b 2\n' % (end - 1)


def b_useg(end):
    return ' processor 6502\n seg.u a\n org 0\n ds %d\n seg b\n org 0\n dc.b 1\n' % (end + 5)


def b_rorg(end):
    return ' processor 6502\n org $200\n rorg %d\n dc.b 1\n rend\n' % (end + 5)


def b_nothing(end):
    return ' processor 6502\n org 0\n dc.b 1\n ds %d,2\n ds 0\nl\n ds.w 0,1\n align 1\n org l\n' % (end - 1)


BODIES = [b_nothing, b_ds, b_org, b_fill, b_word, b_ins, b_string, b_repeat, b_bin, b_align, b_first, b_seg, b_useg, b_rorg]

GROW = [
    ' repeat 100000000\n dc.b 1\n repend\n', ' repeat 1000000\n ds 1000\n repend\n', ' ds 2000000000\n', ' ds.l 500000000\n', ' org 2000000000\n nop\n', ' nop\n org 1000000000\n nop\n', ' mac g\n ds 1000\n endm\n repeat 100000\n g\n repend\n',
    'x set 1\n repeat 100\n ds x\nx set x*2\n repend\n', ' align 1000000000\n', ' nop\n align $10000000\n nop\n', ' repeat 1000\n repeat 1000\n dc.l 1,2\n repend\n repend\n', ' repeat 2000\n incbin "b"\n repend\n', ' ds $7fffffff\n', ' ds $7fffffffffffffff\n nop\n', ' dc.b 1\n ds 1000000\n dc.b 2\n', ' ds.w $40000000\n', ' ds.w $4000000000000000\n nop\n',
]


def grow(item):
    """Stopped with a failing status; the output never reaches far beyond the barrier."""
    src, args, top = item
    fl = filelist(src)
    r, = yield [Case(['a.asm', *args, '-oo'], fl, ('o',), cpu=8000)]
    if r.rc <= 0:
        return 'ended by signal %d' % -r.rc if r.rc else 'success'
    if r.files[0] is not None and len(r.files[0]) > 2 * top + 65536:
        return '%d bytes were written' % len(r.files[0])
    return None


def grow_items():
    for s in GROW:
        for fmt in ('-f1', '-f2', '-f3'):
            for m in (None, 65, 100, 2000):
                if m == 2000 and ('incbin' in s or 'ds 1000000\n' in s):
                    continue
                yield ((('a.asm', P + s), ('b', b'y' * 1000)), (fmt,) + (('-m%d' % m,) if m else ()), (m or 640) * 1024)


def switch(item):
    args, ok = item
    src = P + ' nop\n'
    if ok is None:
        src = equates(12)
    r, = yield [Case(['a.asm', *args, '-oo', '-ss'], (('a.asm', src),), ('o', 's'))]
    if ok is None:
        return diff(model((('a.asm', src),), args), r)
    if ok and r.rc:
        return 'exit status %d' % r.rc
    if not ok and r.rc <= 0:
        return 'exit status %d for an unusable limit' % r.rc
    return None


def switch_items():
    for m in range(-2, 200):
        yield (('-m%d' % m,), m > 64)
    for m in (1000, 10000, 1000000, 4194303, 10000000):
        yield (('-m%d' % m,), True)
    for n in (1, 2, 5, 10, 100, 30000, 1000000):
        yield (('-p%d' % n,), True)
        yield (('-P%d' % n,), True)
    # a source of a dozen passes with limits of every size
    for b in range(3, 31):
        for n in (2 ** b - 1, 2 ** b, 2 ** b + 1, 2 ** b + 2, 3 * 2 ** b // 2):
            yield (('-p%d' % n,), None)
            yield (('-P%d' % n,), None)
    yield (('-m',), False)
    yield (('-mx',), False)


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        Space('passes', '%d families of chains needing up to %d passes x every limit, -p and -P' % (len(FAMILIES), 40 if k else 25), lambda: pass_items(40 if k else 25), passes, chunk=1),
        Space('runaway', '%d sources without a solution x 8 limits' % len(RUNAWAY), runaway_items, runaway, chunk=1),
        Space('monotone', 'words of length 0..%d over %d statements x 10 limits' % (3 + k, len(MONO)), lambda: texts(P, MONO, 3 + k, uniq=True, need=(('a', 'a = 2\n'), ('b', 'b = 6\n'), ('c', 'c = 3\n'), ('l', 'l\n'))), monotone, chunk=16),
        Space('depth', 'macros nested 1..%d deep, 9 shapes' % (70 if k else 45), lambda: depth_items(70 if k else 45), prog, chunk=4),
        Space('include', 'include files nested 1..205 deep', lambda: include_items(1 if k else 8), prog, chunk=1),
        Space('expr', 'nesting of brackets, operators, operands and EQM symbols around the limits', lambda: expr_items(7 if k else 60), bounded, chunk=2),
        Space('endless', '%d sources recursing without end x 3 surroundings x 6 option sets' % len(ENDLESS), endless_items, endless, chunk=1),
        Space('size', '%d ways to reach the barrier, exactly, just below and just above' % len(BODIES), lambda: size_items((65, 66, 100, 640, 1024) + ((200, 639, 641, 4096) if k else ()), (-2, -1, 0, 1, 2, 100)), prog, chunk=2),
        Space('grow', '%d sources growing without end' % len(GROW), grow_items, grow, chunk=1),
        Space('switch', 'values of -m, -p and -P; 12 passes with limits of every size', switch_items, switch),
        Space('scale', 'up to 300 passes', lambda: scale.passes([100, 127, 128, 129, 200, 254, 255, 256, 257, 300]), scale.exactly, chunk=1),
    ]
