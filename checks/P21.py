"""P21: output problems are never reported as success."""
import itertools

from common import Case, filelist, model, progs, short
from P20 import ERRORS, P as P20P, PLACES, num

P = ' processor 6502\n org $100\n'
SOURCES = {
    'empty': '',
    'no-data': 'a = 1\nb = 2\n',
    'one': P + ' nop\n',
    'two-seg': P + ' nop\n org $110\n dc.b 1,2,3\n',
    'forward': P + ' lda f\n jmp g\nf = 5\ng nop\n',
    'bytes20': P + ' dc.b ' + ','.join(map(str, range(20))) + '\n',
    'bss': P + ' nop\n seg.u u\n org 0\nv ds 3\n',
    'echo': P + ' echo "x"\n nop\n',
    'block300': P + ' ds 300,1\n',
    'block2000': P + ' ds 2000,1\n nop\n',
    'shrink': P + ' if f\n ds 3\n endif\n ds f+2,7\nf = 1\n',
    'macro': P + ' mac m\n dc.w {1}\n endm\n m 1\n m 2\n',
    'reverse': P + ' nop\n org $200\n nop\n org $108\n nop\n',
    'str': P + 's = "text"\n dc s\n',
    'big': P + ' ds 9000,3\n',
}
OPTS = [('-oo',), ('-oo', '-ll'), ('-oo', '-ss'), ('-oo', '-ll', '-ss'), ('-oo', '-Ll', '-ss', '-v2'), ('-oo', '-ss', '-T1')]
NAMES = ('o', 'l', 's')


def outcome(r):
    return 'ended by signal %d' % -r.rc if r.rc < 0 else None


def judge(ref, r, can, remove, what):
    """can: None unknown, True must succeed, False must fail."""
    if r.rc < 0:
        return '%s: ended by signal %d' % (what, -r.rc)
    if r.rc == 0:
        if can is False:
            return '%s: reported as a success' % what
        for n, a, b in zip(NAMES, ref.files, r.files):
            if a != b:
                return '%s: success, but file %s has %s bytes, expected %s' % (what, n, b if b is None else len(b), a if a is None else len(a))
    else:
        if can:
            return '%s: exit status %d (%s)' % (what, r.rc, short(r.out[-200:]))
        if remove and r.files[0] is not None:
            return '%s: output file left after a failure' % what
    return None


def limits(item):
    """Item (source, format, options): every size limit from 0 to past the largest file."""
    name, fmt, opts = item
    fl = filelist(SOURCES[name])
    args = ['a.asm', '-f%d' % fmt, *opts]
    ref, = yield [Case(args, fl, NAMES)]
    m = model(fl, ('-f%d' % fmt,))
    if ref.rc or m.rc or ref.files[0] != m.out:
        return 'exit status %d without a limit' % ref.rc
    sizes = [len(x) for x in ref.files if x is not None]
    top = max(sizes)
    ks = list(range(0, min(top, 700) + 2))
    if top > 700:
        ks += sorted({k for s in sizes for k in (s - 2, s - 1, s, s + 1) if k > 701} | set(range(701, top, 97)) | {k + d for k in (1024, 2048, 4096, 8192) for d in (-1, 0, 1)})
    for remove in (False, True):
        rr = yield [Case(args + ['-R'] * remove, fl, NAMES, fsize=k) for k in ks]
        for k, r in zip(ks, rr):
            can = False if k < top else True if name != 'shrink' and '-Ll' not in opts and k >= 2 * top + 4096 else None
            d = judge(ref, r, can, remove, 'limit of %d bytes' % k)
            if d:
                return d
        r, = yield [Case(args + ['-R'] * remove, fl, NAMES)]
        d = judge(ref, r, True, remove, 'no limit%s' % (' with -R' * remove))
        if d:
            return d
    return None


def limit_items():
    for n, f, o in itertools.product(SOURCES, (1, 2, 3), OPTS):
        if n != 'reverse' or f == 2:
            yield (n, f, o)


# places files cannot be written to: (setup files, name)
BAD = {
    'full': ((('@x', '/dev/full'),), 'x'),
    'directory': ((('x/', ''),), 'x'),
    'missing': ((), 'no/x'),
    'notdir': ((('n', 'f'),), 'n/x'),
    'toolong': ((), 'x' * 300),
    'loop': ((('@x', 'x'),), 'x'),
    'dangling': ((('@x', 'no/such'),), 'x'),
}


def bad_place(item):
    """Item (source, format, which file, kind, -R, other files)."""
    name, fmt, which, kind, remove, others = item
    setup, target = BAD[kind]
    fl = filelist(SOURCES[name])
    args = ['a.asm', '-f%d' % fmt]
    good = args + ['-oo', '-ll', '-ss']
    for n in 'ols':
        if n == which.lower():
            args.append('-' + which + target)
        elif n in others:
            args.append('-' + n + n)
    if remove:
        args.append('-R')
    ref, r = yield [Case(good, fl, NAMES), Case(args, fl + setup, NAMES)]
    if ref.rc:
        return 'exit status %d in a good place' % ref.rc
    if r.rc < 0:
        return 'ended by signal %d' % -r.rc
    k = 'ols'.index('l' if which == 'L' else which)
    empty = kind == 'full' and ref.files[k] == b''
    if r.rc == 0 and not empty:
        return '%s: reported as a success' % kind
    if r.rc and empty and not remove:
        return 'nothing to write, but exit status %d' % r.rc
    if r.rc and remove and 'o' in others and which != 'o' and r.files[0] is not None:
        return '%s: output file left after a failure' % kind
    return None


def bad_items():
    for n, f, w, k, r, o in itertools.product(SOURCES, (1, 2, 3), ('o', 'l', 'L', 's'), BAD, (False, True), ('', 'o', 'ols')):
        if w == 'o' and 'o' == o or w != 'o' and 'o' not in o or n == 'reverse' and f != 2:
            continue
        yield (n, f, w, k, r, o)


def removal(item):
    """Item (files, args): with -R, whatever the outcome and whatever was there before."""
    files, args = item
    fl = filelist(files)
    m = model(fl, args)
    old = (('o', b'old output, longer than the new one ' * 20),)
    base = [fl[0][0], *args, '-oo']
    plain, r, r2, r3 = yield [Case(base, fl, ('o',)), Case(base + ['-R'], fl, ('o',)), Case([fl[0][0], '-R', *args, '-oo', '-ll', '-ss'], fl + old, NAMES), Case(base + ['-R', '-E2', '-v1'], fl, ('o',))]
    if (m.rc == 0) != (plain.rc == 0) or m.rc == 0 and plain.files[0] != m.out:
        return 'exit status %d, expected %d' % (plain.rc, m.rc)
    for x, w in ((r, '-R'), (r2, '-R and an old output file'), (r3, '-R, messages')):
        if x.rc < 0:
            return '%s: ended by signal %d' % (w, -x.rc)
        if x.rc != plain.rc:
            return '%s: exit status %d, without %d' % (w, x.rc, plain.rc)
        if x.rc == 0 and x.files[0] != plain.files[0]:
            return '%s: output not intact after a success' % w
        if x.rc and x.files[0] is not None:
            return '%s: output left after a failure (status %d)' % (w, x.rc)
        if x.rc and b'Complete. (0)' in x.out:
            return '%s: claims success' % w
    return None


EXTRA = [' mac q\n nop\n', ' /* open\n', ' mac r\n r\n endm\n r\n', 'e eqm e\n dc.b e\n', ' repeat 2\n ds 70000\n repend\n ds 1000000\n', ' endm\n', ' ds $7fffffff\n', ' jmp loop1\nloop1 = loop2+1\nloop2 = loop1\n', ' if f\n nop\n endif\n if g\n dc.w 1\n endif\nf = g\n', ' lda #1\n', ' processor none\n', ' incbin "a.asm",1000000\n', ' include "none"\n', ' incbin "none"\n', ' dc.b undef\n', 'x = y\ny = x\n dc.b x\n', ' end\n', ' nop\n', '']


def removal_items():
    for e, (k, f) in itertools.product(ERRORS, PLACES.items()):
        if k == 'noeol' and '\n' in e[:-1] or '*/' in e and k in ('skipped', 'repeat0', 'end', 'first', 'late', 'later'):
            continue
        if e.startswith(' mac') and k in ('macro', 'macro2', 'unused', 'mexit', 'incmac', 'callinc') or e == ' include "none"\n' and k == 'macinc':
            continue
        yield (f(num(e, 1))[0], ())
    for e, f in itertools.product(EXTRA, ('-f1', '-f2', '-f3')):
        yield (P20P + ' dc.b 1\n' + e, (f,))
        yield (P20P + ' lda fw\n' + e + 'fw\n', (f,))
    for p in range(1, 12):
        for n in range(1, 9):
            t = P + ' dc.b a0\n' + ''.join('a%d = a%d+1\n' % (i, i + 1) for i in range(n)) + 'a%d = 1\n' % n
            yield (t, ('-p%d' % p,))
            yield (t, ('-P%d' % p,))


def usage(item):
    """Sources that cannot be read: a failing status and nothing that claims success."""
    args, files = item
    r, = yield [Case(list(args), files, ('o', 'a.out'))]
    if r.rc <= 0:
        return 'exit status %d' % r.rc
    if b'Complete. (0)' in r.out:
        return 'claims success'
    if '-R' in args and r.files[0] is not None:
        return 'output left'
    return None


def usage_items():
    for o in ((), ('-f3',), ('-R',), ('-v1',), ('-ll', '-ss'), ('-R', '-ll', '-ss')):
        for a, f in ((('none.asm',), ()), (('no/none.asm',), ()), (('x/y',), (('x', 'f'),)), (('x' * 300,), ()), (('x',), (('@x', 'x'),))):
            yield (a + ('-oo',) + o, f)


def hexlimits(item):
    """ftohex: every size limit and unwritable places."""
    fmt, n = item
    data = bytes((i * 7 + 1) & 255 for i in range(n))
    src = {1: b'\x00\x10' + data, 2: b'\x00\x10' + n.to_bytes(2, 'little') + data, 3: data}[fmt] if n else b''
    fl = (('i', src),)
    ref, = yield [Case([str(fmt), 'i', 'h'], fl, ('h',), prog='ftohex')]
    if ref.rc or not ref.files[0]:
        return 'exit status %d without a limit' % ref.rc
    size = len(ref.files[0])
    ks = list(range(size + 2)) if size < 800 else list(range(0, size + 2, 61)) + [size - 1, size, size + 1, 4095, 4096, 4097]
    rr = yield [Case([str(fmt), 'i', 'h'], fl, ('h',), prog='ftohex', fsize=k) for k in ks]
    for k, r in zip(ks, rr):
        if r.rc < 0 or (r.rc == 0) != (k >= size) or r.rc == 0 and r.files[0] != ref.files[0]:
            return 'limit of %d bytes: exit status %d, the file has %d' % (k, r.rc, size)
    for kind, (setup, target) in BAD.items():
        r, = yield [Case([str(fmt), 'i', target], fl + setup, (), prog='ftohex')]
        if r.rc <= 0:
            return '%s: exit status %d' % (kind, r.rc)
    return None


def spaces(tier):
    return [
        progs('limits', '%d sources x formats x %d sets of files; every file size limit up to 700 bytes, then around powers of two and file sizes' % (len(SOURCES), len(OPTS)), limit_items, limits, chunk=1),
        progs('places', '%d kinds of unwritable place x file x source x format x -R' % len(BAD), bad_items, bad_place),
        progs('removal', '%d errors in %d places, aborts, limits of passes, with -R' % (len(ERRORS), len(PLACES)), removal_items, removal),
        progs('usage', 'sources that cannot be read', usage_items, usage),
        progs('ftohex', 'formats x 0..40 and 500, 3000 bytes; every file size limit, unwritable places', lambda: itertools.product((1, 2, 3), list(range(41)) + [500, 3000]), hexlimits, chunk=1),
    ]
