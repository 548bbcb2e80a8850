"""P27: the command line means what the documentation says."""
import itertools

from common import Case, Space, bytediff, filelist, model, norm_list, outsame, real_errors, short, words, batches
import P18

P = ' processor 6502\n'
CHAIN = ''.join('c%d = c%d+1\n' % (i, i + 1) for i in range(5)) + 'c5 = 1\n'
LONG = ''.join('c%d = c%d+1\n' % (i, i + 1) for i in range(13)) + 'c13 = 1\n'
PROGRAMS = {
    'defs': (('a.asm', P + ' org $100\n ifconst a\n dc.b a\n endif\n ifconst b\n dc.b b\n endif\n ifconst c\n dc.b c\n endif\n ifnconst a\n nop\n endif\n lda late\n org $110\n dc.b 1\nzz nop\nLate2 nop\nlate = 5\n echo "text",late\n'),),
    'back': (('a.asm', P + ' org $110\n dc.b 1\n org $100\n dc.b 2\n'),),
    'chain': (('a.asm', P + ' org $100\n lda c0\n' + CHAIN),),
    'long': (('a.asm', P + ' org $100\n lda c0\n' + LONG),),
    'errors': (('a.asm', P + ' org $100\n dc.b 1\n foo\n dc.b 300\n echo "e"\n'),),
    'strict': (('a.asm', P + ' org $100\n ifconst a\n dc.b a\n endif\n jmp $12345\n dc.w $12345\n'),),
    'include': (('a.asm', P + ' org $100\n include "f"\n include "g"\n incbin "h"\n'), ('d1/', ''), ('d1/f', ' dc.b 1\n'), ('d2/', ''), ('d2/f', ' dc.b 2\n'), ('d2/g', ' dc.b 3\n'), ('d1/g', ' dc.b 4\n'), ('d2/h', 'hh'), ('d1/h', 'ii')),
    'only2': (('a.asm', P + ' org $100\n include "g"\n'), ('d1/', ''), ('d2/', ''), ('d2/g', ' dc.b 3\n')),
    'size': (('a.asm', P + ' org 0\n ds 66000,1\nl nop\n'),),
    'empty': (('a.asm', ''),),
    'contrived': (('a.asm', P + ' org 1\n repeat [[x < 11] ? [x-11]] + 11\n dc.b x\n repend\nx:\n'),),
    'order': (('a.asm', P + ' org $100\nb = $300\n dc.w c\na nop\nC = 2\nc = $4\n'),),
    'missing': (('a.asm', P + ' org $100\n dc.b nowhere\n'),),
}

GOOD = ['-f1', '-f2', '-f3', '-oo', '-ox', '-ll', '-lm', '-ss', '-st', '-v0', '-v1', '-v4', '-d0', '-Da', '-Da=5', '-Da=b', '-Db=7', '-Ma=b+1', '-Mb=9', '-Dc=a', '-Dc=a==5', '-Mc=a!=b', '-P5', '-Id1', '-Id2', '-p2', '-p20', '-P20', '-T0', '-T1', '-T2', '-E0', '-E1', '-E2', '-S', '-R', '-m65', '-m700', '-Ll', '-Lm']
SLASH = ['/f1', '/f2', '/f3', '/oo', '/ll', '/ss', '/v1', '/Da=5', '/Da', '/Ma=3', '/Id2', '/p20', '/T1', '/E1', '/S', '/R', '/m65']
BAD = ['-f0', '-f4', '-f', '-fx', '-f-1', '-o', '-l', '-L', '-s', '-T3', '-T-1', '-E3', '-E-1', '-m64', '-m0', '-m', '-m-1', '-z', '-x1', '-F1', '-O', '-a', '-1', '-=', '-?', '-h', 'word', 'a.asm', 'f2', '', '/z', '/f0', '/o', '/T3']
NAMES = ('a.out', 'o', 'x', 'l', 'm', 's', 't')


def reading(opts):
    """What the documentation says the options select: a dictionary, None if the line is to be rejected."""
    o = {'fmt': 1, 'out': 'a.out', 'list': None, 'all': False, 'sym': None, 'v': 0, 'd': False, 'T': 0, 'E': 0, 'R': False, 'model': []}
    for a in opts:
        if a in BAD:
            return None
        k, v = a[1], a[2:]
        if k == 'f':
            o['fmt'] = int(v)
        elif k == 'o':
            o['out'] = v
        elif k in 'lL':
            o['list'] = v
            o['all'] |= k == 'L'
        elif k == 's':
            o['sym'] = v
        elif k == 'v':
            o['v'] = int(v)
        elif k == 'd':
            o['d'] = True
        elif k == 'T':
            o['T'] = int(v)
        elif k == 'E':
            o['E'] = int(v)
        elif k == 'R':
            o['R'] = True
        elif k in 'DMIpPSm':
            o['model'].append('-' + a[1:])
        else:
            raise ValueError(a)
    o['model'].append('-f%d' % o['fmt'])
    o['model'].append('-E%d' % o['E'])
    return o


def judge(name, opts, r, cache):
    o = reading(opts)
    files = dict(zip(NAMES, r.files))
    if r.rc < 0:
        return 'ended by signal %d' % -r.rc
    if o is None:
        if r.rc == 0:
            return 'reported as a success'
        for n in NAMES:
            if files[n] is not None and n not in ('s', 't'):
                return 'file %s written' % n
        return None
    key = (name, tuple(o['model']), o['list'] is not None, o['all'])
    m = cache.get(key)
    if m is None:
        m = cache[key] = model(PROGRAMS[name], o['model'], **({'want_list': True, 'list_all': o['all']} if o['list'] else {}))
    if (m.rc == 0) != (r.rc == 0):
        return 'exit status %d, expected %d (%s)' % (r.rc, m.rc, short(r.out[-300:]))
    if r.rc != 5 and m.rc != 5 and r.rc != m.rc:
        return 'exit status %d, expected %d' % (r.rc, m.rc)
    for n in NAMES:
        if files[n] is not None and n not in (o['out'], o['list'], o['sym']):
            return 'file %s written' % n
    if m.rc:
        if o['R'] and files[o['out']] is not None:
            return 'output file left behind in spite of -R'
        want = [(n, l) for n, l, c, t in m.errors if n is not None]
        got = [(n, l) for n, l, t in real_errors(r.out, o['E']) if 'passes' not in t]
        if want != got:
            return 'errors %s, expected %s' % (short(got), short(want))
        for e in {0, 1, 2} - {o['E']}:
            if real_errors(r.out, e):
                return 'errors not in format %d' % o['E']
        return None
    if not outsame(m.out, files[o['out']]):
        return bytediff(m.out, files[o['out']])
    if o['list']:
        if files[o['list']] is None:
            return 'no list file'
        if norm_list(m.listing) != norm_list(files[o['list']].decode('latin-1')):
            return 'list file not as expected'
    if o['sym']:
        if files[o['sym']] is None:
            return 'no symbol file'
        d = P18.judge(m, files[o['sym']], o['T'])
        if d:
            return 'symbol file: ' + d
    if o['v'] == 0 and not o['d']:
        if r.out != (m.echo + '\nComplete. (0)\n').encode('latin-1'):
            return 'messages: expected %s, got %s' % (short(m.echo), short(r.out))
    elif m.echo.encode('latin-1') not in r.out or not r.out.endswith(b'Complete. (0)\n'):
        return 'messages: expected %s, got %s' % (short(m.echo), short(r.out))
    if o['v'] == 4 and any(n.encode() not in r.out for n in m.syms):
        return 'symbols not displayed in spite of -v4'
    return None


CACHE = {}


def line(item):
    """Item (program, list of option words)."""
    name, lists = item
    rr = yield [Case(['a.asm', *o], PROGRAMS[name], NAMES) for o in lists]
    for o, r in zip(lists, rr):
        d = judge(name, o, r, CACHE)
        if d:
            return 'dasm a.asm %s: %s' % (' '.join(x or "''" for x in o), d)
    return None


def batch(names, gen, n=16):
    for name in names:
        buf = []
        for w in gen():
            buf.append(w)
            if len(buf) == n:
                yield (name, tuple(buf))
                buf = []
        if buf:
            yield (name, tuple(buf))


KINDS = [(None, '-f1', '-f2', '-f3'), (None, '-oo'), (None, '-ll', '-Lm'), (None, '-st'), (None, '-T1', '-T2'), (None, '-v1'), (None, '-Da=5', '-Ma=b+1'), (None, '-Db=7'), (None, '-E2'), (None, '-R'), (None, '-p20')]


def mixed():
    """One choice of each kind, in the order of the documentation and in the opposite one."""
    for w in itertools.product(*KINDS):
        w = tuple(x for x in w if x)
        if len(w) > 2:
            yield w
            yield w[::-1]


DOCUMENTED = 'folLsvdDMIpPTESRm'


def rejected(item):
    """Item: lists of arguments, none of which may assemble anything."""
    rr = yield [Case(list(a), PROGRAMS['defs'] + (('dir/', ''),), NAMES) for a in item]
    for a, r in zip(item, rr):
        what = 'dasm ' + ' '.join(repr(x)[:60] for x in a)
        if r.rc < 0:
            return '%s: ended by signal %d' % (what, -r.rc)
        if r.rc == 0:
            return '%s: reported as a success' % what
        if r.files[1] or r.files[2]:
            return '%s: output written' % what
        if r.rc and not (r.out + r.err).strip():
            return '%s: no message' % what
    return None


def wrong():
    """Lines to be rejected: every undocumented option letter, every other introducing character, values out of range, no source."""
    out = [(), ('nofile',), ('nofile', '-oo'), ('',), ('', '-oo'), ('nofile.asm', '-oo', '-ll', '-ss')]
    for c in range(1, 256):
        s = chr(c)
        for p in '-/':
            if s not in DOCUMENTED:
                for t in ('', '1', 'o', 'a=1'):
                    out.append(('a.asm', '-oo', p + s + t))
                    out.append(('a.asm', p + s + t, '-oo'))
        if s not in '-/':
            for t in ('f1', 'oo', 'f', '', 'D', 'R'):
                out.append(('a.asm', '-oo', s + t))
                out.append(('a.asm', s + t, '-oo'))
    for n in list(range(-300, 301)) + [1000, 32767, 32768, 65535, 65536, 65537, 65538, 65539, 100000, 2147483647, -2147483648]:
        for k in ('-f', '/f'):
            if n not in (1, 2, 3):
                out.append(('a.asm', '-oo', '%s%d' % (k, n)))
        for k in 'TE':
            if n not in (0, 1, 2):
                out.append(('a.asm', '-oo', '-%s%d' % (k, n)))
                out.append(('a.asm', '-%s%d' % (k, n), '-oo', '-ss'))
        if n <= 64:
            out.append(('a.asm', '-oo', '-m%d' % n))
    return batches(out, 16)


def files(item):
    """Item: a name for each of the files: whatever its length, the file under it."""
    n = item
    names = tuple((c * n)[:n] for c in 'olsx')
    m = model(PROGRAMS['defs'], (), want_list=True)
    m2 = model(((names[3], PROGRAMS['defs'][0][1]),), (), want_list=True)
    r, q = yield [Case(['a.asm', '-o' + names[0], '-l' + names[1], '-s' + names[2]], PROGRAMS['defs'], names[:3] + ('a.out',)),
                  Case([names[3], '-s' + names[2], '-l' + names[1]], ((names[3], PROGRAMS['defs'][0][1]),), ('a.out',) + names[1:3] + ('o',))]
    for r, m in ((r, m), (q, m2)):
        if r.rc:
            return 'exit status %d' % r.rc
        if r.files[0] != m.out:
            return bytediff(m.out, r.files[0])
        if r.files[1] is None or norm_list(m.listing) != norm_list(r.files[1].decode('latin-1')):
            return 'list file not as expected'
        if r.files[2] is None or P18.judge(m, r.files[2], 0):
            return 'symbol file not as expected'
        if r.files[3] is not None:
            return 'another file written'
    return None


def many(item):
    """Item (number of options, kind): long lists of options."""
    n, kind = item
    src = P + ' org 0\n' + ''.join(' dc.w s%d\n' % i for i in range(n))
    if kind == 'D':
        args, want = ['-Ds%d=%d' % (i, i * 3) for i in range(n)], [i * 3 for i in range(n)]
    elif kind == 'M':
        args, want = ['-Ms%d=s%d+2' % (i, i + 1) for i in range(n - 1)] + ['-Ds%d=5' % (n - 1)] * (n > 0), [5 + 2 * (n - 1 - i) for i in range(n)]
    elif kind == 'last':
        args, want = ['-Ds0=%d' % i for i in range(n)], [n - 1] if n else []
        src = P + ' org 0\n' + ' dc.w s0\n' * (n > 0)
    else:
        args, want = ['-Id%d' % i for i in range(n)] + ['-Ireal'] + ['-Ilate%d' % i for i in range(n)], [7]
        src = P + ' org 0\n include "g"\n'
    fl = (('a.asm', src), ('real/', ''), ('real/g', ' dc.w 7\n'), ('late0/', ''), ('late0/g', ' dc.w 8\n'))
    r, = yield [Case(['a.asm', '-f3', *args, '-oo'], fl, ('o',))]
    if r.rc:
        return 'exit status %d' % r.rc
    w = b''.join((x & 0xffff).to_bytes(2, 'little') for x in want)
    return None if r.files[0] == w else bytediff(w, r.files[0])


def ftohex(item):
    """Item (format argument or None, input, output or None, whether it is to succeed)."""
    f, i, o, good = item
    fl = (('i1', b'\0\1abc'), ('i2', b'\0\1\3\0abc'), ('i3', b'abc'), ('dir/', ''))
    args = [] if f is None else [f] + ([] if i is None else [i] + ([] if o is None else [o]))
    r, = yield [Case(args, fl, ('h',), prog='ftohex')]
    if r.rc < 0:
        return 'ended by signal %d' % -r.rc
    if (r.rc == 0) != good:
        return 'ftohex %s: exit status %d' % (' '.join(args), r.rc)
    a = 0 if f == '3' else 0x100
    body = bytes((3, a >> 8, a & 255, 0)) + b'abc'
    text = ':%s%02X' % (body.hex().upper(), -sum(body) & 255) + '\n:00000001FF\n'
    got = r.files[0] if o == 'h' else r.out
    if good and got.decode('latin-1').replace('\r', '').upper() != text:
        return 'ftohex %s: expected %s, got %s' % (' '.join(args), short(text), short(got))
    if good and o == 'h' and r.out:
        return 'ftohex %s: prints %s' % (' '.join(args), short(r.out))
    if not good and o == 'h' and r.files[0] and b':' in r.files[0]:
        return 'ftohex %s: output in spite of a failure' % ' '.join(args)
    return None


def ftohex_items():
    yield (None, None, None, False)
    fs = ['1', '2', '3'] + [str(n) for n in list(range(-300, 1)) + list(range(4, 301)) + [1000, 65536, 65537, 65538, 65539, 2147483647]] + ['', 'x', 'f1', '-f1', '/1', '-', 'a1']
    for f in fs:
        yield (f, None, None, False)
        ok = f in ('1', '2', '3')
        for o in (None, 'h'):
            yield (f, 'i' + f if ok else 'i1', o, ok)
            yield (f, 'none', o, False)
        yield (f, 'i' + f if ok else 'i1', 'dir', False)
        yield (f, 'i' + f if ok else 'i1', 'no/h', False)


def chained(n):
    return (('a.asm', P + ' org $100\n lda c0\n' + ''.join('c%d = c%d+1\n' % (i, i + 1) for i in range(n)) + 'c%d = 1\n' % n),)


def needed(item):
    """Item (length of a chain, option): enough passes are enough, fewer are not."""
    n, opt, limit = item
    few = [model(chained(k), ('-p100',)).passes for k in (10, 11)]
    need = few[0] + (few[1] - few[0]) * (n - 10)
    r, = yield [Case(['a.asm', opt + str(limit), '-f3', '-oo'], chained(n), ('o',), cpu=5000)]
    if (r.rc == 0) != (limit >= need):
        return 'exit status %d with %s%d, %d passes are needed' % (r.rc, opt, limit, need)
    want = b'\xad' + (n + 1).to_bytes(2, 'little')
    return bytediff(want, r.files[0]) if r.rc == 0 and r.files[0] != want else None


FILL = [('-v0',), ('-Dz1=1', '-Iz'), ('-T0', '-E0', '-d0')]


def placed():
    """Every option word between 0..7 others that change nothing, before and behind it."""
    for o in GOOD + SLASH:
        for f, n, k in itertools.product(FILL, range(0, 16, 3), range(0, 10, 3)):
            w = f * 8
            if o[1] in 'TEd' and f[0] == '-T0' or o[1] == 'v' and f[0] == '-v0':
                continue
            yield w[:n] + (o,) + w[:k]


def counts(ns, ks):
    for k, n in itertools.product(ks, ns):
        yield ('%s%d' % (k, n),)
        yield ('-v0', '%s%d' % (k, n), '-oo')


FEW = ['-f2', '-f3', '-oo', '-ll', '-Ll', '-ss', '-v1', '-Da=5', '-Db=7', '-Ma=b+1', '-Id1', '-Id2', '-p20', '-T1', '-T2', '-E2', '-S', '-R', '-m65', '-z', '-f4']


def spaces(tier):
    full = tier == 'thorough'
    ns = list(range(1, 61)) + list(range(60, 256, 1 if full else 3)) + [254, 255]
    return [
        Space('pairs', 'every program x at most two of %d option words, in order' % len(GOOD + SLASH + BAD), lambda: batch(PROGRAMS, lambda: words(GOOD + SLASH + BAD, 2)), line),
        Space('triples', 'every program x three of %d option words, in order' % len(FEW), lambda: batch([x for x in PROGRAMS if full or x not in ('size', 'long', 'chain', 'contrived')], lambda: words(FEW, 3, 3)), line),
        Space('placed', 'every option word with up to 16 others before and 9 behind it', lambda: batch([x for x in PROGRAMS if full or x != 'size'], placed), line),
        Space('passes', '-p and -P up to 1000000', lambda: itertools.chain(batch(('missing',), lambda: counts([1, 2, 3, 100, 255, 256, 257, 1000], ('-p', '-P'))), batch(('chain', 'contrived'), lambda: counts([2, 3, 5, 10, 11, 12, 13, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 1000000], ('-p', '-P', '/p', '/P')))), line, chunk=1),
        Space('needed', 'sources that need up to 600 passes', lambda: itertools.product((255, 256, 300, 600), ('-p', '-P', '/p'), [254, 255, 256, 257] + list(range(298, 306)) + [511, 512, 599, 600, 601, 602, 603, 604, 1000, 65536, 1000000]), needed, chunk=4),
        Space('mixed', 'one choice of each of %d kinds of options, two orders' % len(KINDS), lambda: batch(('defs', 'errors', 'back') if full else ('defs',), mixed), line),
        Space('rejected', 'every option letter not documented, every introducing character, values -300..300 outside the ranges, missing sources', wrong, rejected),
        Space('names', 'file names of 1..255 characters', lambda: iter(sorted(set(ns))), files),
        Space('many', 'up to 600 options on a line', lambda: itertools.product(list(range(0, 70)) + [100, 127, 128, 129, 200, 255, 256, 257, 400, 600], ('D', 'M', 'last', 'I')), many),
        Space('ftohex', 'no to three arguments, formats -300..300', ftohex_items, ftohex),
    ]
