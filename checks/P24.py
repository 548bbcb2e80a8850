"""P24: ftohex converts every assembled file to equivalent Intel HEX."""
import itertools

from common import Case, Space, filelist, model, short, words

P = ' processor 6502\n org $100\n'


class Malformed(Exception):
    pass


def read_dasm(fmt, data):
    """What a file in one of dasm's formats says: [(address, byte)] in order, 16-bit addresses."""
    if fmt == 3:
        return [(i & 0xffff, b) for i, b in enumerate(data)]
    if not data:
        return []
    if fmt == 1:
        if len(data) < 2:
            raise Malformed
        org = data[0] | data[1] << 8
        return [((org + i) & 0xffff, b) for i, b in enumerate(data[2:])]
    out, p = [], 0
    while p < len(data):
        if p + 4 > len(data):
            raise Malformed
        org, n = data[p] | data[p + 1] << 8, data[p + 2] | data[p + 3] << 8
        p += 4
        if p + n > len(data):
            raise Malformed
        out += [((org + i) & 0xffff, b) for i, b in enumerate(data[p:p + n])]
        p += n
    return out


def read_hex(text):
    """Independent reader of Intel HEX; raises ValueError on anything not well formed."""
    if not text.endswith(b'\n'):
        raise ValueError('last line not ended')
    out, ended = [], False
    for l in text.split(b'\n')[:-1]:
        if l.endswith(b'\r'):
            l = l[:-1]
        if ended:
            raise ValueError('text behind the end record')
        if l[:1] != b':':
            raise ValueError('no colon: %r' % l[:40])
        if not all(c in b'0123456789ABCDEFabcdef' for c in l[1:]):
            raise ValueError('not hexadecimal: %r' % l[:60])
        d = bytes.fromhex(l[1:].decode('ascii'))
        if len(d) < 5 or len(d) != d[0] + 5:
            raise ValueError('record length: %r' % l[:60])
        if sum(d) & 255:
            raise ValueError('checksum: %r' % l[:60])
        if d[3] == 0:
            if d[0] == 0:
                raise ValueError('empty data record')
            a = d[1] << 8 | d[2]
            out += [((a + i) & 0xffff, b) for i, b in enumerate(d[4:-1])]
        elif d[3] == 1:
            if d != b'\x00\x00\x00\x01\xff':
                raise ValueError('end record: %r' % l[:60])
            ended = True
        else:
            raise ValueError('record type %d' % d[3])
    if not ended:
        raise ValueError('no end record')
    return out


def judge(fmt, data, r, text):
    if r.rc < 0:
        return 'ended by signal %d%s' % (-r.rc, ' (time limit)' if r.timeout() else '')
    try:
        want = read_dasm(fmt, data)
    except Malformed:
        return 'malformed input converted with success' if r.rc == 0 else None
    if r.rc:
        return 'exit status %d: %s' % (r.rc, short(r.err[-200:]))
    if text is None:
        return 'no output'
    try:
        got = read_hex(text)
    except ValueError as e:
        return 'not well formed: %s' % e
    if got != want:
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        return 'byte %d: expected %s, got %s (%d and %d bytes)' % (i, short(want[i:i + 2]), short(got[i:i + 2]), len(want), len(got))
    return None


def convert(item):
    """Item: tuple of (format, input)."""
    rr = yield [Case([str(f), 'i', 'h'], (('i', d),), ('h',), prog='ftohex') for f, d in item]
    for (f, d), r in zip(item, rr):
        x = judge(f, d, r, r.files[0])
        if x:
            return 'format %d, %d bytes %s: %s' % (f, len(d), short(d[:12]), x)
    return None


def to_stdout(item):
    rr = yield [Case([str(f), 'i'], (('i', d),), (), prog='ftohex') for f, d in item]
    for (f, d), r in zip(item, rr):
        x = judge(f, d, r, r.out)
        if x:
            return 'format %d, %d bytes %s: %s' % (f, len(d), short(d[:12]), x)
    return None


def pack(it, n=20):
    b = []
    for x in it:
        b.append(x)
        if len(b) == n:
            yield tuple(b)
            b = []
    if b:
        yield tuple(b)


def data(n, k=1):
    return bytes((i * 7 + k) & 255 for i in range(n))


def w16(v):
    return (v & 0xffff).to_bytes(2, 'little')


ORGS = [0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xf000, 0xfff0, 0xfff1, 0xfff8, 0xfffe, 0xffff]


def sizes(most):
    ns = list(range(0, most)) + [1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 65519, 65520, 65521, 65533, 65534, 65535]
    for n in ns:
        for o in (ORGS if n < 70 else (0, 0x1234, 0xfff8)):
            for k in (1, 200):
                d = data(n, k)
                yield (1, w16(o) + d)
                yield (2, w16(o) + w16(n) + d)
        yield (3, data(n))
        yield (3, data(n, 99))
    for n in (65536, 65537, 70000, 131071, 131072, 140000):
        yield (1, w16(0) + data(n))
        yield (3, data(n))


def contents():
    for b in range(256):
        for n in (1, 2, 15, 16, 17):
            for i in range(n):
                d = bytearray(n)
                d[i] = b
                yield (3, bytes(d))
            yield (3, bytes([b]) * n)
        yield (1, w16(b) + bytes([b]))
        yield (1, w16(b << 8) + bytes([b]))
        yield (2, w16(b) + w16(1) + bytes([b]))
        yield (2, w16(b << 8) + w16(2) + bytes([b, 1]))
    for a, b in itertools.product(range(256), repeat=2):
        yield (3, bytes([a, b]))


def origins(step):
    for o in range(0, 65536, step):
        yield (1, w16(o) + b'\x55')
        yield (1, w16(o) + data(18))
        yield (2, w16(o) + w16(3) + b'\x01\x02\x03')


def hunks(n):
    ls = [0, 1, 2, 15, 16, 17, 33, 255, 256, 257]
    os_ = [0, 0x100, 0x1ff, 0xfff8]
    al = [(o, l) for o in os_ for l in ls]
    for w in words(al, n, 1):
        if len(w) == 3 and len({o for o, l in w}) < 3 and n < 4:
            continue
        yield (2, b''.join(w16(o) + w16(l) + data(l, i + 1) for i, (o, l) in enumerate(w)))


def many_hunks():
    for n in list(range(4, 60)) + [255, 256, 257, 1000]:
        for l in (0, 1, 2, 16, 17):
            yield (2, b''.join(w16(i * 32) + w16(l) + data(l, i) for i in range(n)))


def truncations():
    """Every prefix of files with all kinds of structure."""
    files = [(1, w16(0x1000) + data(40)), (2, w16(0x1000) + w16(40) + data(40)), (3, data(40)),
             (2, w16(5) + w16(3) + data(3) + w16(0x200) + w16(17) + data(17) + w16(9) + w16(0)),
             (2, w16(5) + w16(0) + w16(7) + w16(1) + b'x'), (2, w16(0xffff) + w16(300) + data(300)), (1, w16(0xffff) + data(300))]
    for f, d in files:
        for i in range(len(d) + 1):
            yield (f, d[:i])
        # length fields that promise more or less than there is
        if f == 2:
            n = d[2] | d[3] << 8
            for v in sorted({0, 1, n - 1, n + 1, n + 2, n + 3, n + 4, n + 5, n + 16, 255, 256, 0x7fff, 0x8000, 0xffff} - {-1}):
                yield (f, d[:2] + w16(v) + d[4:])
        for i in range(1, 6):
            yield (f, d + b'\x00' * i)
            yield (f, d + b'\xff' * i)


def small(n):
    al = [0, 1, 2, 3, 16, 255]
    for f in (1, 2, 3):
        for w in words(al, n, 0):
            yield (f, bytes(w))


def assembled(item):
    """Item (source, other files): assembled by dasm in every format, then converted."""
    files, args = item
    fl = filelist(files)
    rr = yield [Case([fl[0][0], *args, '-f%d' % f, '-oo'], fl, ('o',)) for f in (1, 2, 3)]
    cases, want = [], []
    for f, r in zip((1, 2, 3), rr):
        m = model(fl, tuple(args) + ('-f%d' % f,))
        if (m.rc == 0) != (r.rc == 0) or r.rc < 0:
            return 'format %d: exit status %d, expected %d' % (f, r.rc, m.rc)
        if r.rc == 0:
            cases.append(Case([str(f), 'i', 'h'], (('i', r.files[0]),), ('h',), prog='ftohex'))
            want.append((f, m.out))
    if not cases:
        return None
    rr = yield cases
    maps = []
    for (f, d), r in zip(want, rr):
        x = judge(f, d, r, r.files[0])
        if x:
            return 'assembled in format %d: %s' % (f, x)
        maps.append((f, read_hex(r.files[0])))
    # formats 1 and 3 hold the same bytes
    by = dict(maps)
    if 1 in by and 3 in by and [b for a, b in by[1]] != [b for a, b in by[3]]:
        return 'formats 1 and 3 convert to different bytes'
    # format 1 describes every byte format 2 does, at the same address
    if 1 in by and 2 in by and len(by[1]) < 65536:
        one = dict(by[1])
        for a, b in by[2]:
            if one.get(a) != b and [x for x, y in by[2]].count(a) == 1:
                return 'address %04x: %02x in format 2, %s in format 1' % (a, b, one.get(a))
    return None


STM = [' dc.b 1\n', ' ds 17,5\n', ' org $180\n', ' org $200\n dc.b 9\n', ' org $fff8\n ds 16,1\n', ' align 16\n', ' dc.w .\n', ' ds 0\n', ' seg.u u\n org 0\n ds 5\n seg c\n org $300\n dc.b 3\n', ' lda fw\n', ' rorg $500\n dc.w .\n rend\n', ' ds 300,$a5\n', ' org $101,$ee\n', ' incbin "b"\n', ' hex 0102030405060708090a0b0c0d0e0f1011\n', ' err\n']


def sources(n):
    for w in words(STM, n, 0):
        yield ((('a.asm', P + ''.join(w) + ' dc.b 7\nfw\n'), ('b', data(20))), ())
        if len(w) < 3:
            yield ((('a.asm', P + ''.join(w) + 'fw\n'), ('b', data(20))), ())
    for s in range(0, 70):
        yield (P + ' ds %d,1\n' % s, ())
        yield (' processor 6502\n org $%x\n ds %d,1\n org $%x\n nop\n' % (s, s, s * 3 + 5), ())
    for s in (65533, 65534, 65535, 65536, 65537, 70000, 131072):
        yield (' processor 6502\n org 0\n ds %d,1\n' % s, ())
        yield (' processor 6502\n org $100\n nop\n org $200\n ds %d,1\n nop\n' % s, ())
    yield ('', ())
    yield (' processor 6502\n', ())


def usage(item):
    args, files = item
    r, = yield [Case(list(args), files, (), prog='ftohex')]
    if r.rc <= 0:
        return 'exit status %d' % r.rc
    return None


def usage_items():
    for f in ('0', '4', '-1', 'x', '', '9', '256'):
        yield ((f, 'i', 'h'), (('i', b'\x00\x10\x01'),))
    for f in ('1', '2', '3'):
        yield ((f, 'none', 'h'), ())
        yield ((f, 'i', 'no/h'), (('i', b'\x00\x10\x01\x00\x01'),))
        yield ((f, 'd', 'h'), (('d/', ''),))
        yield ((f,), ())
    yield ((), ())


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        Space('sizes', 'payloads of 0..%d bytes and around powers of two to 140000 x origins, 3 formats' % (1999 if k else 599), lambda: pack(sizes(2000 if k else 600)), convert, chunk=1),
        Space('contents', 'every byte value in every place of a record; every pair of bytes', lambda: pack(contents()), convert, chunk=1),
        Space('origins', 'every %sorigin' % ('' if k else '7th '), lambda: pack(origins(1 if k else 7)), convert, chunk=1),
        Space('hunks', 'words of length 1..3 over (origin, length) pairs', lambda: pack(hunks(4 if k else 3) if k else hunks(3)), convert, chunk=1),
        Space('many-hunks', '4..1000 hunks', lambda: pack(many_hunks()), convert, chunk=1),
        Space('truncations', 'every prefix of 7 files, wrong lengths, trailing bytes', lambda: pack(truncations()), convert, chunk=1),
        Space('small', 'all files of up to %d bytes over 6 values, 3 formats' % (5 + k), lambda: pack(small(5 + k)), convert, chunk=1),
        Space('stdout', 'files of up to 4 bytes, sizes 0..100, to standard output', lambda: pack(itertools.chain(small(4), sizes(100))), to_stdout, chunk=1),
        Space('assembled', 'words of length 0..%d over %d statements, assembled in 3 formats' % (3 + k, len(STM)), lambda: sources(3 + k), assembled, chunk=8),
        Space('usage', 'wrong formats, unreadable and unwritable files', usage_items, usage),
    ]
