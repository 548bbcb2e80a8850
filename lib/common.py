"""Scripts shared by the checks: run a program on the assembler and compare with the model."""
import itertools
import re

import expr
import refasm
from runner import Case, Space                                     # noqa: F401

M64 = (1 << 64) - 1


def options(args):
    """Command line options -> arguments of the model."""
    kw = {}
    defs, inc = [], []
    for a in args:
        k, v = a[:2], a[2:]
        if k == '-f':
            kw['fmt'] = int(v)
        elif k in ('-D', '-M'):
            n, e, t = v.partition('=')
            defs.append((k[1], n, t if e else '0'))
        elif k == '-I':
            inc.append(v)
        elif k == '-S':
            kw['strict'] = True
        elif k == '-p':
            kw['maxpasses'] = int(v)
        elif k == '-P':
            kw['maxpasses'] = int(v)
            kw['allpasses'] = True
        elif k == '-m':
            kw['maxsize'] = int(v) * 1024
        elif k == '-E':
            kw['errfmt'] = int(v)
        elif k in ('-v', '-T', '-R', '-d', '-L', '-l'):
            pass
        else:
            raise ValueError(a)
    if defs:
        kw['defs'] = defs
    if inc:
        kw['incdirs'] = inc
    return kw


def filelist(files):
    return (('a.asm', files),) if isinstance(files, (str, bytes)) else tuple(files)


def model(fl, args, **more):
    kw = options(args)
    kw.update(more)
    return refasm.assemble(dict(fl), fl[0][0], **kw)


_line = re.compile(r'^(\S+) +(-?[0-9a-f]+) (.*)$')


def real_symbols(text):
    """Sorted symbol lines of a symbol file, blanks squeezed."""
    ls = text.decode('latin-1').split('\n')
    return sorted(' '.join(x.split()) for x in ls if x and not x.startswith('---'))


def model_symbols(m):
    return sorted(' '.join(x[3].split()) for x in refasm.symbol_lines(m.syms))


def short(x, n=200):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def bytediff(a, b):
    """a expected, b actual"""
    if b is None:
        return 'no output file, expected %d bytes' % len(a)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return 'output differs at byte %d: expected %s (%d bytes), got %s (%d bytes)' % (
        i, a[i:i + 16].hex(' '), len(a), b[i:i + 16].hex(' '), len(b))


def joined(d):
    """Format 2 file -> [(origin, data)], hunks that go on where the one before ends put together; None when malformed."""
    out, i = [], 0
    while i < len(d):
        if i + 4 > len(d):
            return None
        o, n = d[i] | d[i + 1] << 8, d[i + 2] | d[i + 3] << 8
        i += 4
        if n == 0 or i + n > len(d):
            return None
        if out and o == (out[-1][0] + len(out[-1][1])) & 0xffff:
            out[-1] = (out[-1][0], out[-1][1] + d[i:i + n])
        else:
            out.append((o, d[i:i + n]))
        i += n
    return out


def outsame(a, b):
    """a expected, b actual; where a run of more than 64 kB is divided into hunks is not laid down."""
    if a == b:
        return True
    return b is not None and len(a) > 60000 and len(b) > 60000 and joined(a) is not None and joined(a) == joined(b)


def diff(m, r, symbols=True):
    """Model result against a run with outputs ('o', 's')."""
    if r.rc < 0:
        return 'ended by signal %d%s' % (-r.rc, ' (time limit)' if r.timeout() else '')
    if (m.rc == 0) != (r.rc == 0):
        return 'exit status %d, expected %s; model errors %s' % (r.rc, 'success' if m.rc == 0 else 'failure (%d)' % m.rc,
                                                              short(m.errors[:3]))
    if m.rc:
        return None
    if not outsame(m.out, r.files[0]):
        return bytediff(m.out, r.files[0])
    if symbols:
        if r.files[1] is None:
            return 'no symbol file'
        a, b = model_symbols(m), real_symbols(r.files[1])
        if a != b:
            return 'symbols differ: expected %s, got %s' % (short([x for x in a if x not in b]),
                                                            short([x for x in b if x not in a]))
    return None


def prog(item):
    """Item (files, args): output and symbols as the model says."""
    files, args = item
    fl = filelist(files)
    m = model(fl, args)
    r, = yield [Case([fl[0][0], *args, '-oo', '-ss'], fl, ('o', 's'))]
    return diff(m, r)


def prog3(item):
    """As prog, in all three formats (item's args without -f)."""
    files, args = item
    fl = filelist(files)
    cases = [Case([fl[0][0], *args, '-f%d' % f, '-oo', '-ss'], fl, ('o', 's')) for f in (1, 2, 3)]
    ms = [model(fl, tuple(args) + ('-f%d' % f,)) for f in (1, 2, 3)]
    rr = yield cases
    for f, m, r in zip((1, 2, 3), ms, rr):
        d = diff(m, r)
        if d:
            return 'format %d: %s' % (f, d)
    return None


def norm_list(text):
    return [refasm.squeeze(l) for l in text.split('\n')]


def proglist(item):
    """As prog, and the list file as well."""
    files, args = item
    fl = filelist(files)
    m = model(fl, args, want_list=True)
    r, = yield [Case([fl[0][0], *args, '-oo', '-ss', '-ll'], fl, ('o', 's', 'l'))]
    d = diff(m, r)
    if d:
        return d
    if m.rc == 0:
        if r.files[2] is None:
            return 'no list file'
        a, b = norm_list(m.listing), norm_list(r.files[2].decode('latin-1'))
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return 'list file line %d: expected %s, got %s' % (i + 1, short(a[i:i + 1]), short(b[i:i + 1]))
    return None


ERRLINE = {
    0: re.compile(r'^(\S+) \((\d+)\): error: (.*)$'),
    1: re.compile(r'^line +(\d+) (\S+) +(.*)$'),
    2: re.compile(r'^(\S+):(\d+): error: (.*)$'),
}


def real_errors(out, fmt):
    res = []
    for l in out.decode('latin-1').split('\n'):
        g = ERRLINE[fmt].match(l)
        if g:
            a, b, c = g.groups()
            if fmt == 1:
                a, b = b, a
            res.append((a, int(b), c))
    return res


def progs(name, bound, gen, script=prog, chunk=32):
    return Space(name, bound, gen, script, chunk=chunk)


def words(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(alphabet, repeat=n)


def batches(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield tuple(buf)
            buf = []
    if buf:
        yield tuple(buf)


# ---- expressions through the symbol file

def values(pre, env):
    """Script: item = tuple of expression texts; each is assigned to a symbol and read back.

    pre: source lines defining the symbols in env {name: (number, unknown, string)}."""
    def look(n):
        return env[n]

    def script(item):
        good, div = [], []
        for e in item:
            try:
                good.append((e, expr.ev(expr.Parser(e).whole(), look)))
            except expr.DivZero:
                div.append(e)
        text = ' processor 6502\n org $1000\n' + pre
        lines = ''.join('v%d = %s\n' % (i, e) for i, (e, _) in enumerate(good))
        cases = [Case(['a.asm', '-ss', '-oo'], (('a.asm', text + lines),), ('s',))]
        cases += [Case(['a.asm', '-ss', '-oo'], (('a.asm', text + 'v = %s\n' % e),), ()) for e in div]
        rr = yield cases
        for e, r in zip(div, rr[1:]):
            if r.rc <= 0:
                return 'division by zero accepted or crashed (status %d): %s' % (r.rc, e)
        r = rr[0]
        if r.rc:
            return 'exit status %d for %s: %s' % (r.rc, short(item, 300), short(r.out[-300:]))
        got = {}
        for l in r.files[0].decode('latin-1').split('\n'):
            f = l.split(None, 2)
            if len(f) > 1:
                got[f[0]] = f[1:]
        for i, (e, (v, u, s)) in enumerate(good):
            g = got.get('v%d' % i)
            w = '%04x' % (v & M64)
            if g is None or g[0] != w:
                return '%s: expected %s, got %s' % (e, w, g)
            if s is not None and 'str' not in g[1]:
                return '%s: expected a string' % e
        return None
    return script


def stable(item, early=False):
    """As prog; a success must also be reproduced by one single reading with the final symbol values.

    Symbols nothing depends on may stay unresolved (and are listed as such); programs with such symbols, and
    programs reading a SET symbol above its first assignment, are compared with the model only."""
    files, args = item
    fl = filelist(files)
    m = model(fl, args)
    r, = yield [Case([fl[0][0], *args, '-oo', '-ss'], fl, ('o', 's'))]
    d = diff(m, r)
    if d or m.rc or (m.early and not early) or any(s.flags & refasm.UNKNOWN for s in m.syms.values()):
        return d
    c = refasm.confirm(dict(fl), fl[0][0], m.syms, **options(args))
    if c.rc:
        return 'not a fixed point: reading the source with the final symbol values gives %s' % short(c.errors[:3])
    if c.out != r.files[0]:
        return 'not a fixed point: ' + bytediff(c.out, r.files[0])
    for n, s in m.syms.items():
        if c.syms[n].value != s.value or c.syms[n].string != s.string:
            return 'not a fixed point: %s = %x, then %x' % (n, s.value, c.syms[n].value)
    return None


def stable_early(item):
    return stable(item, True)


def texts(head, alphabet, maxlen, minlen=0, tail='', args=(), uniq=False, need=()):
    """Programs: every word over an alphabet of statements (newline ended).

    uniq: words that define the same name twice by the same statement are left out.
    need: (name, statement) pairs; the statement is put at the end when the word does not define the name."""
    defs = {s for s in alphabet if s[0] != ' '}
    for w in words(alphabet, maxlen, minlen):
        if uniq:
            d = [s for s in w if s in defs]
            if len(set(d)) < len(d):
                continue
        end = tail
        for n, s in need:
            if not any(x.startswith(n) for x in w):
                end += s
        yield (head + ''.join(w) + end, args)


def same(item):
    """Item (files, other files, args): as the model says, and the same output from both sources."""
    f1, f2, args = item
    l1, l2 = filelist(f1), filelist(f2)
    m1 = model(l1, args)
    m2 = model(l2, args)
    r1, r2 = yield [Case([l[0][0], *args, '-oo', '-ss'], l, ('o', 's')) for l in (l1, l2)]
    d = diff(m1, r1)
    if d:
        return d
    d = diff(m2, r2)
    if d:
        return 'equivalent source: ' + d
    if (r1.rc == 0) != (r2.rc == 0):
        return 'exit status %d, equivalent source %d' % (r1.rc, r2.rc)
    if r1.rc == 0 and r1.files[0] != r2.files[0]:
        return 'equivalent source: ' + bytediff(r2.files[0], r1.files[0])
    return None
