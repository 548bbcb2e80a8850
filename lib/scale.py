"""Sources in which something occurs very often, with the result known without assembling them.

Items are (files, args, expected output in format 3, expected messages or None)."""
from common import Case, bytediff, filelist, short

P = ' processor 6502\n org 0\n'
EDGES = [254, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000]
MORE = [1, 2, 127, 128, 129, 511, 512, 513, 2047, 2048, 2049, 8191, 8192, 8193, 16383, 16384, 16385, 99999, 100000, 100001, 131071, 131072, 131073]


def counts(full):
    return sorted(set(EDGES + MORE + (list(range(1, 600)) + [200000, 262143, 262144, 262145] if full else [])))


def exactly(item):
    """As expected, byte by byte."""
    files, args, want, out = item
    fl = filelist(files)
    r, = yield [Case([fl[0][0], '-f3', *args, '-oo'], fl, ('o',), cpu=1500)]
    if r.rc:
        return 'exit status %d: %s' % (r.rc, short(r.out[-300:]))
    if r.files[0] != want:
        return bytediff(want, r.files[0])
    if out is not None and r.out != out:
        return 'messages: expected %s, got %s' % (short(out), short(r.out))
    return None


def few(ns):
    """For things that have to be looked up: in bounded time however that is done."""
    return [n for n in ns if n <= 70000]


def low(n, step=1, first=0):
    return [(first + i * step) & 255 for i in range(n)]


def pairs(a, b):
    return bytes(x for p in zip(a, b) for x in p)


def local_labels(ns):
    for n in few(ns):
        one = [1] * n
        yield (P + ' repeat %d\n subroutine\n.l dc.b <.l\n dc.b 1\n repend\n' % n, (), pairs(low(n, 2), one), None)
        yield (P + ' repeat %d\n subroutine\n dc.b <.l\n.l dc.b 1\n repend\n' % n, (), pairs(low(n, 2, 1), one), None)
        yield (P + ' mac m\n.l dc.b <.l,1\n endm\n repeat %d\n m\n repend\n' % n, (), pairs(low(n, 2), one), None)
        yield (P + ' mac m\n dc.b <1$\n1$ dc.b 1\n endm\n repeat %d\n m\n repend\n' % n, (), pairs(low(n, 2, 1), one), None)
        yield (P + ''.join('a%d\n dc.b <1$\n1$ dc.b 1\n' % i for i in range(n)), (), pairs(low(n, 2, 1), one), None)
        yield (P + ' mac m\n dc.b 9\n endm\n subroutine\n.x dc.b 3\na\n2$ dc.b 4\n repeat %d\n m\n dc.b <.x,<2$\n repend\n' % n, (), b'\3\4' + b'\x09\0\1' * n, None)


def symbols(ns):
    for n in few(ns):
        last = (n - 1).to_bytes(4, 'little')
        mid = (n // 2).to_bytes(4, 'little')
        yield (P + 'i set 0\n repeat %d\ns,i = i\ni set i+1\n repend\n dc.l s0,s%d,s%d\n' % (n, n // 2, n - 1), (), bytes(4) + mid + last, None)
        yield (P + ' dc.l s0,s%d,s%d\n' % (n // 2, n - 1) + ''.join('s%d = %d\n' % (i, i) for i in range(n)), (), bytes(4) + mid + last, None)
        yield (P + 'i set 0\n repeat %d\ni set i+1\n repend\n dc.l i\n' % n, (), n.to_bytes(4, 'little'), None)
        yield (P + 'e eqm i*2\ni set 0\n repeat %d\n dc.b <e\ni set i+1\n repend\n' % n, (), bytes(low(n, 2)), None)


def macros(ns):
    for n in few(ns):
        yield (P + ' mac m\n dc.b {1}\n endm\ni set 0\n repeat %d\n m <i\ni set i+1\n repend\n' % n, (), bytes(low(n)), None)
        yield (P + ' mac m\n%s endm\n dc.b $aa\n m 5,6\n dc.b $bb\n' % (' dc.b {1}\n dc.b {2}\n' * (n // 2)), (), b'\xaa' + b'\5\6' * (n // 2) + b'\xbb', None)
        yield (P + ''.join(' mac m%d\n dc.b {1},%d\n endm\n' % (i, i & 255) for i in range(n)) + ''.join(' m%d 7\n' % i for i in {0, n // 2, n - 1}), (), b''.join(bytes((7, i & 255)) for i in {0, n // 2, n - 1}), None)


def conditions(ns):
    for n in ns:
        yield (P + 'i set 0\n repeat %d\n if i&1\n dc.b 1\n else\n dc.b 2\n endif\ni set i+1\n repend\n' % n, (), bytes(1 if i & 1 else 2 for i in range(n)), None)
        yield (P + ' if 1\n' * n + ' dc.b 1\n' + ' endif\n' * n + ' dc.b 2\n', (), b'\1\2', None)
        yield (P + ' if 1\n' * n + ' if 0\n' + ' if 1\n' * n + ' dc.b 1\n' + ' endif\n' * n + ' else\n dc.b 3\n endif\n' + ' endif\n' * n + ' dc.b 2\n', (), b'\3\2', None)
        yield (P + ' if 0\n' + ' foo\n' * n + ' else\n dc.b 4\n endif\n', (), b'\4', None)


def repeats(ns):
    for n in ns:
        yield (P + ''.join('\n' for _ in range(n)) + ' repeat 3\n dc.b 1\n dc.b 2\n repend\n dc.b 3\n', (), b'\1\2' * 3 + b'\3', None)
        yield (P + ' repeat 2\n' + ' dc.b 1\n' * n + ' repend\n dc.b 3\n', (), b'\1' * (2 * n) + b'\3', None)
        yield (P + ' repeat %d\n repeat 2\n dc.b 1\n repend\n dc.b 2\n repend\n' % n, (), b'\1\1\2' * n, None)
        yield (P + ' repeat 2\n repeat %d\n dc.b 1\n repend\n dc.b 2\n repend\n' % n, (), (b'\1' * n + b'\2') * 2, None)
    for size in [(1 << k) + d for k in range(14, 23) for d in (-30, -10, -1, 0, 1, 200)] + [40000, 50000, 100000, 300000, 0xC8000, 0x38000, 1000000, 3000000]:
        pad = ';' + 'x' * 997 + '\n;\n'
        t = P + pad * ((size - len(P)) // len(pad))
        t += '\n' * (size - len(t))
        yield (t + ' repeat 3\n dc.b 1\n repeat 2\n dc.b 2\n repend\n repend\n dc.b 3\n', (), b'\1\2\2' * 3 + b'\3', None)


def inclusions(ns):
    for n in ns:
        yield ((('a.asm', P + ' repeat %d\n include "f"\n repend\n' % n), ('f', ' dc.b 1\n dc.b 2\n')), (), b'\1\2' * n, None)
        yield ((('a.asm', P + ' repeat %d\n incbin "f"\n repend\n' % n), ('f', 'ab')), (), b'ab' * n, None)
        yield ((('a.asm', P + ' include "f"\n dc.b 3\n'), ('f', ' dc.b 1\n' + '\n' * n + ' dc.b 2\n')), (), b'\1\2\3', None)


def segments(ns):
    for n in ns:
        yield (P + ' seg.u v\n org 0\n seg a\n org 0\n repeat %d\n seg.u v\n ds 1\n seg a\n dc.b 5\n repend\n seg.u v\nend0\n seg a\n dc.l end0\n' % n, (), b'\5' * n + n.to_bytes(4, 'little'), None)
        if n < 5000:
            yield (P + ''.join(' seg.u v%d\n org %d\n ds 1\nx%d\n' % (i, i * 3, i) for i in range(n)) + ' seg a\n org 0\n dc.l x0,x%d\n' % (n - 1), (), (1).to_bytes(4, 'little') + (n * 3 - 2).to_bytes(4, 'little'), None)
        yield (P + ' repeat %d\n rorg $1234\n dc.b 1\n dc.w .\n rend\n repend\n' % n, (), b'\1\x35\x12' * n, None)
        yield (P + ' repeat %d\n dc.b 1\n align 2,7\n repend\n' % n, (), b'\1\7' * n, None)


def layouts(ns):
    for n in ns:
        for filler in ('\n', ' ; c\n', '/* c */\n', ' nop\n'):
            k = b'\xea' * n if 'nop' in filler else b''
            yield (P + ' dc.b 1\n' + filler * n + ' dc.b 2\n', (), b'\1' + k + b'\2', None)
        yield (P + ' dc.b 1\n/* open\n' + ' text\n' * n + 'close */ dc.b 2\n', (), b'\1\2', None)


def data(ns):
    for n in ns:
        yield (P + ' dc.b 1,2\n' * n, (), b'\1\2' * n, None)
        yield (P + 'i set 0\n repeat %d\n dc.b <[1+i*2]\ni set i+1\n repend\n' % n, (), bytes(low(n, 2, 1)), None)
        yield (P + 'e eqm ..+1\n repeat %d\n dc.b "ab"\n hex 0102\n dv.b e 5\n repend\n' % n, ('-m4096',), b'ab\1\2\6' * n, None)


def passes(ns):
    """Sources needing n + 2 or so passes."""
    for n in ns:
        yield (P + ' dc.w c0\n' + ''.join('c%d = c%d+1\n' % (i, i + 1) for i in range(n)) + 'c%d = 5\n' % n, ('-p%d' % (n + 5),), (n + 5).to_bytes(2, 'little'), None)
        yield (P + ' dc.w c0\n' + ''.join('c%d = c%d+1\n' % (i, i + 1) for i in range(n)) + 'c%d = 5\n' % n, ('-P%d' % (n + 5),), (n + 5).to_bytes(2, 'little'), None)


def echoes(ns):
    for n in ns:
        yield (P + 'i set 0\n repeat %d\n echo "v",[i]d\ni set i+1\n repend\n' % n, (), b'', ''.join(' v %d\n' % i for i in range(n)).encode() + b'\nComplete. (0)\n')
        yield (P + ' dc.b f\n' + ''.join(' echo "%d",f\n' % i for i in range(n)) + 'f = 1\n', (), b'\1', ''.join(' %d $1\n' % i for i in range(n)).encode() + b'\nComplete. (0)\n')


def reported(item):
    """Item (files, args, [(file, line)] expected errors): as real_errors reads them."""
    from common import real_errors
    files, args, want = item
    fl = filelist(files)
    for e in (0, 1, 2):
        r, = yield [Case([fl[0][0], '-E%d' % e, *args, '-oo'], fl, ('o',), cpu=1500)]
        if r.rc <= 0:
            return 'exit status %d' % r.rc
        got = [(n, l) for n, l, t in real_errors(r.out, e)]
        if got != want:
            return 'reported at %s, expected %s' % (short(got), short(want))
    return None


def errors(ns):
    for n in ns:
        pre = '\n' * (n - 1)
        yield (' processor 6502\n' + pre + ' foo\n', (), [('a.asm', n + 1)])
        yield ((('a.asm', ' processor 6502\n include "f"\n foo\n'), ('f', pre + ' foo\n')), (), [('f', n), ('a.asm', 3)])
        yield (' processor 6502\n mac m\n foo\n endm\n' + pre + ' m\n', (), [('a.asm', n + 4)])
        yield (' processor 6502\n' + pre + ' repeat 2\n nop\n repend\n foo\n', (), [('a.asm', n + 4)])
        yield (' processor 6502\n repeat 2\n' + pre + ' repend\n foo\n', (), [('a.asm', n + 3)])
        if n < 5000:
            yield (' processor 6502\n' + ' foo\n' * n, (), [('a.asm', i + 2) for i in range(n)])


def listed(item):
    """Item (files, [(line number, text)]): lines the listing must have, in order."""
    files, want = item
    fl = filelist(files)
    r, = yield [Case([fl[0][0], '-oo', '-ll'], fl, ('l',), cpu=1500)]
    if r.rc:
        return 'exit status %d' % r.rc
    got = []
    for x in r.files[0].decode('latin-1').split('\n'):
        if 'mark' in x:
            f = x.split()
            got.append((int(f[0]), f[1].lstrip('U')))
    if got != want:
        return 'lines %s, expected %s' % (short(got), short(want))
    return None


def listings(ns):
    for n in ns:
        pre = '\n' * (n - 1)
        yield (P + pre + ' nop ;mark\n', [(n + 2, '0000')])
        yield (P + pre + ' repeat 2\n nop ;mark\n repend\n nop ;mark\n', [(n + 3, '0000'), (n + 3, '0001'), (n + 5, '0002')])
        yield (P + ' repeat 2\n' + pre + ' nop ;mark\n repend\n nop ;mark\n', [(n + 3, '0000'), (n + 3, '0001'), (n + 5, '0002')])
        yield ((('a.asm', P + ' include "f"\n nop ;mark\n'), ('f', pre + ' nop ;mark\n')), [(n, '0000'), (4, '0001')])
        yield (P + ' ds %d\n nop ;mark\n' % n, [(4, '%04x' % n)])
        yield (P + ' org %d\n nop ;mark\n' % n, [(4, '%04x' % n)])
