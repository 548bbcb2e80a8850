"""P08: the output formats describe the same memory image."""
from common import Case, bytediff, diff, filelist, model, progs, texts

P = ' processor 6502\n'


def hunks(d):
    """Format 2 file -> [(origin, data)] or an error text."""
    out, i = [], 0
    while i < len(d):
        if i + 4 > len(d):
            return 'stray %d bytes at the end' % (len(d) - i)
        o, n = d[i] | d[i + 1] << 8, d[i + 2] | d[i + 3] << 8
        i += 4
        if i + n > len(d):
            return 'hunk at $%x claims %d bytes, %d are left' % (o, n, len(d) - i)
        if n == 0:
            return 'empty hunk at $%x' % o
        out.append((o, d[i:i + n]))
        i += n
    return out


def formats(item, gaps=True):
    """Item (files, fill): fill = the byte gaps are filled with, None when several are used."""
    files, fill = item
    fl = filelist(files)
    ms = [model(fl, ('-f%d' % f,)) for f in (1, 2, 3)]
    rr = yield [Case([fl[0][0], '-f%d' % f, '-oo', '-ss'], fl, ('o', 's')) for f in (1, 2, 3)]
    for f, m, r in zip((1, 2, 3), ms, rr):
        d = diff(m, r)
        if d:
            return 'format %d: %s' % (f, d)
    r1, r2, r3 = rr
    if (r1.rc == 0) != (r3.rc == 0):
        return 'formats 1 and 3 disagree on success: %d, %d' % (r1.rc, r3.rc)
    if r1.rc == 0 and r2.rc:
        return 'format 2 fails (%d) where format 1 succeeds' % r2.rc
    if r2.rc:
        return None
    h = hunks(r2.files[0])
    if isinstance(h, str):
        return 'format 2: ' + h
    if r1.rc:
        # only because an origin goes back
        end = None
        for o, b in h:
            if end is not None and o < end:
                return None
            end = o + len(b)
        return 'formats 1 and 3 reject a source whose hunks ascend' if len(fl[0][1]) < 20000 else None
    if not h:
        return 'format 1 or 3 not empty' if r1.files[0] or r3.files[0] else None
    d1, d3 = r1.files[0], r3.files[0]
    if d1[2:] != d3:
        return 'format 1 without its header differs from format 3: ' + bytediff(d1[2:], d3)
    if d1[0] | d1[1] << 8 != h[0][0]:
        return 'format 1 starts at $%x, format 2 at $%x' % (d1[0] | d1[1] << 8, h[0][0])
    base, img, pos = h[0][0], bytearray(), h[0][0]
    for o, b in h:
        gap = (o - pos) & 0xffff
        if gap and fill is None:
            img += d3[len(img):len(img) + gap]
        else:
            img += bytes((fill or 0,)) * gap
        img += b
        pos = (o + len(b)) & 0xffff
    del base
    if len(d3) > len(img) and (len(d3) - len(img)) % 65536 == 0:
        return None         # a gap of more than 64 kB, which the 16 bit origins of format 2 do not show; format 3 is as the model says
    if bytes(img) != d3:
        return 'the image of format 2 is not that of format 3: ' + bytediff(bytes(img), d3)
    return None


SIZES = sorted(set(list(range(0, 70)) + [250, 251, 252, 253, 254, 255, 256, 257, 258, 510, 511, 512, 513] + list(range(1018, 1032)) + list(range(2044, 2052)) + [4095, 4096, 4097, 8191, 8192,
               16380, 16381, 16382, 16383, 16384, 16385, 16386, 32767, 32768, 65000, 65530, 65531, 65532, 65533, 65534, 65535, 65536]))


def dc(n, per=16):
    """n bytes of data, per to a line."""
    out, i = [], 0
    while i < n:
        k = min(per, n - i)
        out.append(' dc.b ' + ','.join(str((i + j) * 7 & 255) for j in range(k)) + '\n')
        i += k
    return ''.join(out)


def sizes():
    for n in SIZES:
        yield (P + ' org 0\n' + dc(n, 16), 255)
        if n < 5000:
            yield (P + ' org $1234\n' + dc(n, 255), 255)
            yield (P + ' org $1234\n' + dc(n, 1), 255)
        yield (P + ' org 0\n ds %d,$5a\n' % n, 255)
        yield (P + ' org $2\n dc.b 1\n ds %d,$5a\n dc.b 2\n' % n, 255)
        yield ((('a.asm', P + ' org $30\n dc.b 1\n incbin "d"\n dc.b 2\n'), ('d', bytes(i * 7 & 255 for i in range(n)))), 255)


def big():
    """Longer than a hunk of format 2 can be: several hunks."""
    for n in list(range(65520, 65550)) + list(range(66550, 66570)) + [70000, 131069, 131070, 131071, 131072, 131073, 200000]:
        yield (P + ' org 0\n ds %d,$5a\n dc.b 1,2,3\n' % n, 255)
        yield (P + ' org 5\n dc.b 9\n ds %d,$5a\n dc.b 1,2,3\n dc.w $1234\n' % n, 255)
    for n in range(65520, 65540):
        for k in (1, 2, 3, 4, 16, 200):
            yield (P + ' org 0\n ds %d,$5a\n' % n + dc(40, k), 255)
    for n in (65000, 65535, 65536, 66000, 140000):
        yield ((('a.asm', P + ' org $0\n incbin "d"\n dc.b 2\n'), ('d', bytes(i * 7 & 255 for i in range(n)))), 255)


def gaps():
    for n in SIZES + [65537, 65538, 65600, 70000, 131071, 131072, 131073, 200000, 300000]:
        for f in (None, 0, 0x55, 255):
            fs = '' if f is None else ',%d' % f
            fill = 255 if f is None else f
            yield (P + ' org $100\n dc.b 1\n org .+%d%s\n dc.b 2\n' % (n, fs), fill)
            yield (P + ' org $100%s\n dc.b 1\n org $102+%d\n dc.b 2\n org .+%d\n dc.b 3,4\n' % (fs, n, n & 1023), fill)
        yield (P + ' org $100,1\n dc.b 1\n org .+%d,2\n dc.b 2\n org .+3,4\n dc.b 3\n' % n, None)
        if n > 60000:
            continue
        yield (P + ' org $100\n dc.b 1\n seg.u u\n org $f0\n ds %d\nx\n seg b\n org $110+%d\n dc.w x\n' % (n, n), 255)


WORDS = [' dc.b 1\n', ' dc.b 2,3,4\n', ' org .+3\n', ' org $30\n', ' org $20\n', ' ds 2,9\n', ' seg a\n org $28\n', ' seg.u b\n org $5\n', ' seg.u b\n', ' seg\n', ' rorg $900\n', ' rend\n', ' lda $12\n', ' dc.w .\n', ' ds 1030,7\n', ' align 16\n']
DEEP = [' dc.b 1\n', ' org .+3\n', ' org $30\n', ' ds 2,9\n', ' seg a\n org $28\n', ' seg.u b\n org $5\n', ' seg\n', ' ds 1024,7\n', ' dc.w .\n']


def firsts():
    """Where the image begins: the first emitted byte, not the first origin."""
    for o in (0, 1, 0xff, 0x100, 0x1234, 0xfffe, 0xffff):
        for mid in ('', ' org .+5\n', ' org $20\n', 'l\n', ' ds 0\n', ' ds 3\n', ' align 8\n', ' seg.u u\n org 3\n ds 9\n seg q\n org $80\n', ' rorg $400\n', ' if 0\n dc.b 1\n endif\n', ' repeat 0\n dc.b 1\n repend\n'):
            for last in ('', ' dc.b 7\n', ' nop\n', ' ds 2\n', ' org .+9\n', ' dc.b 7\n org .+9\n', ' dc.b 7\n align 32\n', ' dc.b 7\n seg.u z\n org 0\n ds 4\n', ' lda late\nlate = $30\n', ' dc.b late\n org .+4\nlate = 3\n'):
                yield (P + ' org $%x\n%s%s' % (o, mid, last), 255)


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        progs('words', 'words of length <= %d over %d statements' % (4 + k, len(WORDS)), lambda: ((t, None) for t, _ in texts(P + ' org $24\n', WORDS, 4 + k)), formats),
        progs('words-deep', 'words of length 5 over %d statements' % len(DEEP), lambda: ((t, None) for t, _ in texts(P + ' org $24\n', DEEP, 5, 5)), formats),
        progs('sizes', '%d total sizes up to 65536, five ways of emitting' % len(SIZES), sizes, formats, chunk=4),
        progs('big', 'total sizes around 65535 and up to 200000', big, formats, chunk=2),
        progs('gaps', '%d gap sizes up to 300000 x fill values' % (len(SIZES) + 9), gaps, formats, chunk=4),
        progs('ends', 'what precedes the first and follows the last byte', firsts, formats),
    ]
