"""P16: layout and spelling of source lines."""
import itertools

import scale
from common import Case, Space, bytediff, diff, filelist, model, prog, progs, real_symbols, short, words

HEAD = ' processor 6502\n org $f000\nk = 5\ne eqm ..+1\n mac m\n dc.b {1}\n endm\n'

# (label, operation, operand); operations starting with a small letter; D: a directive, I: an instruction, M: a macro
LINES = [
    ('D', '', 'dc.b', '1,2,k'), ('D', 'l1', 'dc.w', 'l1,fwd'), ('D', '', 'byte', '"a b",0'), ('D', 'l2', 'word', '$1234'), ('D', '', 'dc', '"it\'s; ok"'),
    ('D', '', 'dc.l', '-1'), ('D', '', 'long', 'k'), ('D', '', 'ds', '3,$aa'), ('D', '', 'ds.w', '2'), ('D', '', 'align', '4'), ('D', 'l3', 'hex', '01 a2 Ff'),
    ('D', 'l4', 'set', 'k+1'), ('D', 'l5', 'equ', '[k*2]-1'), ('D', 'l6', 'eqm', 'k+2'), ('D', '', 'dv.b', 'e 1,2'), ('D', '', 'org', '$f100'), ('D', '', 'rorg', '$1000'), ('D', '', 'rend', ''),
    ('D', '', 'seg', 's'), ('D', 'l8', 'subroutine', ''), ('D', '', 'echo', '"x",k'), ('D', '', 'include', '"i"'), ('D', '', 'incbin', '"b",1'), ('D', 'l9', 'setstr', 'some text'),
    ('I', '', 'lda', '#1'), ('I', 'l10', 'lda', '$12,x'), ('I', '', 'sta', '($80),y'), ('I', '', 'jmp', '(fwd)'), ('I', 'l11', 'nop', ''), ('I', '', 'lda.w', '$12'), ('I', '', 'ldx', "#'A"), ('I', 'l12', 'bne', 'l12'), ('I', '', 'asl', ''), ('I', '', 'cmp', '#<fwd'),
    ('I', '', 'adc', '#";"'), ('M', '', 'm', '7'), ('M', 'l13', 'm', 'k+1'), ('L', 'l14', '', ''), ('D', 'l15', '=', 'k'), ('D', '', 'list', 'off'), ('D', '', 'subroutine', ''), ('I', '.l16', 'lda', '.l16'), ('I', '1$', 'bne', '1$'),
]
BLOCKS = [
    [('D', '', 'if', 'k'), ('D', '', 'dc.b', '1'), ('D', '', 'else', ''), ('D', '', 'dc.b', '2'), ('D', '', 'endif', '')],
    [('D', '', 'ifconst', 'k'), ('D', '', 'dc.b', '1'), ('D', '', 'eif', '')],
    [('D', '', 'ifnconst', 'k'), ('D', '', 'dc.b', '1'), ('D', '', 'else', ''), ('I', '', 'nop', ''), ('D', '', 'endif', '')],
    [('D', '', 'repeat', '3'), ('D', '', 'dc.b', 'k'), ('D', '', 'repend', '')],
    [('D', '', 'mac', 'q'), ('I', '', 'lda', '#{1}'), ('D', '', 'mexit', ''), ('I', '', 'nop', ''), ('D', '', 'endm', ''), ('M', '', 'q', '9')],
    [('I', '', 'nop', ''), ('D', '', 'end', '')],
    [('D', '', 'processor', '6502'), ('I', '', 'nop', '')],
    [('D', '', 'seg.u', 'u'), ('D', '', 'org', '5'), ('D', 'v', 'ds', '2'), ('D', '', 'seg', 't'), ('D', '', 'org', '$f200'), ('D', '', 'dc.b', 'v')],
]
TAIL = ' org $f400\n dc.b $ff\nfwd = $77\n'
FILES = (('i', ' dc.b $33\n'), ('b', b'\x01\x02\x03'))
BLANKS = [' ', '  ', '\t', '\t\t', ' \t', '\t ', '        ', ' \t \t ', ' ' * 40]
BLOCKC = [' /* c */ ', ' /**/ ', '/*c*/ ', ' /* ; */ ', ' /* a */ /* b */ ', ' /***/ ', ' /* // */', '\t/*\t*/\t', " /* it's */ ", ' /* nop */ ', ' /* " */ ']
ENDC = [';', '; c', ';c', ' ; "', " ; it's", ' ; /* x', ' ; */', ' ; {1}', ' ;;;', ' ; \\', ' ;lda #2', '\t;\tx', ' ; ,', ' ; [', ' ; (', ' ; ' + 'x' * 100, ' ;=', ' ; :']


def text(parts):
    """The plain spelling."""
    _, l, o, a = parts
    if not o:
        return l
    return '%s %s%s' % (l, o, ' ' + a if a else '')


def cases_of(o):
    return {o.upper(), o.capitalize(), o.swapcase(), ''.join(c.upper() if i % 2 else c for i, c in enumerate(o))} - {o}


def variants(parts):
    """Other spellings of one line meaning the same."""
    kind, l, o, a = parts
    base = text(parts)
    for e in ENDC:
        yield base + (e if e[0] in ' \t' else ' ' + e)
    for b in BLANKS:
        yield base + b
        for c in ('; c', '/* c */'):
            yield base + b + c
    if kind == 'L':
        for x in (l + ':', '^' + l, ' ^' + l, '  ^ ' + l, '\t^\t' + l, '^  ' + l, ' ^   ' + l, '^ \t' + l, '^\t\t ' + l, '   ^' + l, '^' + ' ' * 20 + l, ' ^' + l + ':', l + ':  ', l + ': ; c', '^' + l + ' ; c'):
            yield x
        return
    for b in BLANKS + BLOCKC:
        if a:
            yield '%s %s%s%s' % (l, o, b, a)
            yield '%s%s%s%s%s' % (l, b, o, b, a)
            if b[0] in ' \t':
                yield '%s%s%s %s' % (l, b, o, a)
        elif b[0] in ' \t':
            yield '%s%s%s' % (l, b, o)
        yield base + b
    ops = cases_of(o)
    for x in ops:
        yield '%s %s %s' % (l, x, a)
    if kind == 'D' and o != '=':
        for x in [o] + sorted(ops):
            yield '%s .%s %s' % (l, x, a)
            if not l:
                yield '#%s %s' % (x, a)
                yield '  #%s %s' % (x, a)
                yield '\t#%s\t%s' % (x, a)
    if kind == 'D' and not l:
        yield ' .' + text(parts).lstrip() + ' ; c'
    if kind == 'I' and not l:
        yield '#%s %s' % (o, a)
    if l and l[0] != '.':
        for x in (l + ':', '^' + l, ' ^' + l, '\t^ ' + l, ' ^' + l + ':', '^ ' + l + ': ', '^  ' + l, '^ \t' + l, ' ^\t  ' + l, '   ^    ' + l + ':', '^' + ' ' * 20 + l, '^' + l + ':  '):
            yield '%s %s %s' % (x, o, a)
        yield '%s:\t%s\t%s' % (l, o, a)
        yield '%s:%s %s' % (l, o, a)
    elif l:
        for x in (l + ':', '^' + l, ' ^' + l, '^  ' + l, ' ^\t ' + l):
            yield '%s %s %s' % (x, o, a)
    if o == '=':
        yield '%s=%s' % (l, a)
        yield '%s=  %s' % (l, a)
        yield '%s  =%s' % (l, a)
        yield '%s\t=\t%s' % (l, a)
        yield '^%s=%s' % (l, a)
        yield ' ^  %s  =  %s' % (l, a)
        yield '%s:=%s' % (l, a)
        yield '%s: = %s' % (l, a)


def build(lines):
    return (('a.asm', HEAD + ''.join(x + '\n' for x in lines) + TAIL),) + FILES


def alike(item):
    """Item (files, [other files], args): as the model says; all sources give the same output and symbols."""
    base, others, args = item
    m = model(base, args)
    rr = yield [Case(['a.asm', *args, '-oo', '-ss'], f, ('o', 's')) for f in (base, *others)]
    d = diff(m, rr[0])
    if d:
        return d
    if rr[0].rc:
        return 'the plain source fails: ' + short(rr[0].out[-200:]) + short(base[0][1][-80:])
    for f, r in zip(others, rr[1:]):
        if r.rc:
            return 'exit status %d for the variant %s: %s' % (r.rc, short(dict(f)['a.asm'], 600), short(r.out[-200:]))
        if r.files[0] != rr[0].files[0]:
            return 'variant %s: %s' % (short(dict(f)['a.asm'], 600), bytediff(rr[0].files[0], r.files[0]))
        if real_symbols(r.files[1]) != real_symbols(rr[0].files[1]):
            return 'variant %s: other symbols: %s' % (short(dict(f)['a.asm'], 600), short(real_symbols(r.files[1])))
    return None


def single():
    for p in LINES:
        base = build([text(p)])
        vs = sorted(set(variants(p)) - {text(p)})
        for i in range(0, len(vs), 8):
            yield (base, tuple(build([v]) for v in vs[i:i + 8]), ())
    for b in BLOCKS:
        plain = [text(p) for p in b]
        base = build(plain)
        for k, p in enumerate(b):
            vs = sorted(set(variants(p)) - {text(p)})
            for i in range(0, len(vs), 8):
                yield (base, tuple(build(plain[:k] + [v] + plain[k + 1:]) for v in vs[i:i + 8]), ())


BETWEEN = ['', ' ', '\t', ';', '; c', ' ; c', '/* c */', '/* a\nb */', ' /* a\n\n b\n*/ ', '/*\n lda #9\n*/', '/* ; */', '; /* c', '; */', '/**/', '/* "\n*/', "/* it's\n*/", '/* endif\n else */', ' /* /* */', '/* a */ ; b', ';"', "\t;'", '/*a*//*b*/', '\n\n\n', ' /*\n*//*\n*/ ']


def between():
    """Lines put between the lines of every block and around every line."""
    groups = [[p] for p in LINES] + BLOCKS
    for g in groups:
        plain = [text(p) for p in g]
        base = build(plain)
        for k in range(len(plain) + 1):
            for i in range(0, len(BETWEEN), 8):
                yield (base, tuple(build(plain[:k] + [x] + plain[k:]) for x in BETWEEN[i:i + 8]), ())
    # a block comment from the end of one line to the start of the next
    for g in groups:
        plain = [text(p) for p in g]
        base = build(plain)
        vs = []
        for k in range(len(plain)):
            if g[k][2] == 'end':            # nothing below is read
                continue
            for c in (' /* c\n*/', ' /* c\n c */', ' /*\n\n\n*/', '\t/* ;\n*/ ', ' /* x\n y */ ; z'):
                vs.append(build(plain[:k] + [plain[k] + c] + plain[k + 1:]))
        for i in range(0, len(vs), 8):
            yield (base, tuple(vs[i:i + 8]), ())


def whole():
    """Transformations of the whole file."""
    groups = [[p] for p in LINES] + BLOCKS + [LINES[:8] + LINES[24:34]]
    for g in groups:
        plain = [text(p) for p in g]
        base = build(plain)
        src = base[0][1]

        def up(ls):
            return '\n'.join(ls)
        vs = [src.replace('\n', '\r\n'), src[:-1], src[:-1] + '\r\n', src.replace('\n', ' \n'), src.replace('\n', '\t\r\n'), src.replace('\n', '\n\n'), src + '\n', src + '; c', src + ' ', src + '\t\n \n', src + '/* c */', src + '/* c\n*/', '\n\n' + src, '; c\n' + src, '/* c\n c */\n' + src, src.replace('\n', ' ; c\n'), src.replace('\n', ' /* c */\n'), src[:-1] + ' ; c', src[:-1] + '\t']
        for t in ('\r\n', '\n\n'):
            vs.append(src.replace('\n', ' ; "c' + t))
        for i in range(0, len(vs), 8):
            yield (base, tuple((('a.asm', v),) + FILES for v in vs[i:i + 8]), ())


def combos(full):
    """Several variations at once on one line."""
    pick = [p for p in LINES if p[2]]
    for p in pick:
        kind, l, o, a = p
        base = build([text(p)])
        labs = [l] if not l else [l, l + ':', '^' + l]
        if l[:1] == '.':
            labs = [l]
        ops = [o] + sorted(cases_of(o))
        if kind == 'D' and o != '=':
            ops += ['.' + x for x in ops]
        gaps1 = [' ', '\t', '   ', ' /* x */ ']
        gaps2 = [' ', '\t', '  \t', ' /* " */ ', "\t/* ; '*/"]
        if not full:
            ops = ops[:4] + ops[-2:]
        ends = ['', ' ', '\t; c', ' /* c */', ';x" \'', ' /* a\nb */', '\r']
        vs = []
        for la, g1, op, g2, e in itertools.product(labs, gaps1, ops, gaps2, ends):
            if e == ';x" \'' and a:
                e = ' ' + e
            v = la + g1 + op + (g2 + a if a else '') + e
            vs.append(v)
        vs = sorted(set(vs) - {text(p)})
        for i in range(0, len(vs), 16):
            yield (base, tuple(build([v]) for v in vs[i:i + 16]), ())


def literal(item):
    """Item: strings (no quote, no 0 byte); each is emitted byte for byte."""
    src = ' processor 6502\n org 0\n' + ''.join(' dc "%s"\n' % s for s in item)
    r, = yield [Case(['a.asm', '-oo', '-f3'], (('a.asm', src),), ('o',))]
    want = ''.join(item).encode('latin-1')
    if r.rc or r.files[0] != want:
        if r.rc:
            return 'exit status %d: %s' % (r.rc, short(r.out[-200:]))
        return bytediff(want, r.files[0])
    return None


def strings(n):
    al = [' ', ';', '/*', '*/', "'", ',', '\t', '{1}', 'a', '\\', '(', ']', '#', '=', ':', '^', '//', '  ', '.', '$', '%', '<', '*', '{', '}']
    buf = []
    for w in words(al, n, 1):
        s = ''.join(w)
        buf.append(s)
        if len(buf) == 8:
            yield tuple(buf)
            buf = []
    if buf:
        yield tuple(buf)
    for c in range(1, 256):
        if c in (10, 13, 34, 0x80):
            continue
        for f in ('%s', 'a%s', '%sa', 'a%sb', '%s%s'):
            yield (f.replace('%s', chr(c)),)
    for k in list(range(0, 300)) + list(range(900, 1000, 7)):
        yield ('x' * k,)
        yield (' ' * k + 'x',)
        if k < 300:
            yield ('a' + ';' * k,)


def chars():
    """Character constants are taken literally, in any position."""
    for c in list(range(32, 127)) + list(range(129, 256)):
        ch = chr(c)
        for f in (" dc.b '%s\n", " dc.b '%s,1\n", " lda #'%s\n", " dc.b 1,'%s\n", "v = '%s\n dc.b v\n", " dc.b '%s ; c\n", " dc.b '%s /* c */\n", " dc.b '%s /* c */,1\n", " dc.b 2,'%s,3 /* \" */ ; \"\n", " dc.b '%s /* c\n c */\n", " dc.b '%s ; it's \"\n", " dc.b '%s /* */ /* ' */\n", " dc.b '\",'%s /* c */\n", " dc.b '%s,\";\" ; c\n", " if '%s == %d\n dc.b 1\n endif\n"):
            t = f % ((ch, c) if '%d' in f else ch)
            if ch == '{':
                continue
            yield (' processor 6502\n org 0\n' + t + ' dc.b $ee\n', ())
        for f in (' dc.b "%s"\n', ' dc.b "%s" /* c */\n', ' dc.b "%s" /* c\n */ dc.b 3\n', ' dc.b "%s" ; "\n', ' lda #"%s"\n', ' mac m\n dc "%s"\n endm\n m\n', ' mac m\n lda #{1}\n endm\n m "%s"\n', ' if 1\n dc "%s"\n endif\n', ' if 0\n dc "%s"\n endif\n', ' repeat 2\n dc "%s"\n repend\n', ' echo "%s"\n'):
            if ch in '",':
                continue
            yield (' processor 6502\n org 0\n' + f % ch + ' dc.b $ee\n', ())


def unclosed():
    """An open block comment at the end of the file."""
    for t in ('/*', '/* c', ' nop /*', ' nop /* c\n', '/* a */ /*', '/*/', ' dc.b 1 /* x\n nop\n', '; c\n/*\n', '/**', '/*\n\n\n', ' if 1\n/*\n endif\n', ' repeat 2\n/*\n repend\n', ' mac q\n/*\n endm\n', ' include "i"\n', '/* /* '):
        for pre in ('', ' nop\n', '/* c */\n', '/* a\n b */\n', ' dc ";/*"\n'):
            for post in ('', ' nop\n', ' nop\n nop\n', '"'):
                yield ((('a.asm', ' processor 6502\n org 0\n' + pre + t + post), ('i', ' nop\n/* open\n')), ())
    for t in ('/* c */', '/**/', '/***/', '/*/*/', ' nop /* */ ', '/* a\n*/', '"/*"', ' dc "/*"\n', ' dc "*/"\n', ";/*\n", ' lda #"/*"-"/*"\n'):
        if t != '"/*"' and 'lda' not in t:
            yield (' processor 6502\n org 0\n' + t + '\n nop\n', ())


def skipped():
    """The same in skipped text: only the conditional lines matter, in any spelling."""
    sk = [' IF 0', ' If 0', '\tif\t0', ' .if 0', '#if 0', ' if 0 ; c', ' if 0 /* c */', ' .IF 0']
    en = [' ENDIF', '\tendif', ' .endif', '#endif', ' endif ; c', ' endif /* c */', ' eif', ' EIF', ' .Eif', 'l endif']
    el = [' ELSE', '\telse', ' .else', '#else', ' else ; c', ' else /* c */', ' Else  ']
    for a, b, c in itertools.product(sk, el, en):
        base = build([' if 0', ' dc.b 1', ' else', ' dc.b 2', ' endif'])
        yield (base, (build([a, ' dc.b 1', b, ' dc.b 2', c]), build([a, b, ' dc.b 2', c]), build([a, ' if 1', ' dc.b 1', ' else', ' dc.b 3', c, b, ' dc.b 2', c])), ()) if c != 'l endif' else (base, (build([a, ' dc.b 1', b, ' dc.b 2', ' endif']),), ())
    rp = [' REPEAT 2', '\trepeat\t2', ' .repeat 2', '#repeat 2', ' repeat 2 ; c']
    re_ = [' REPEND', '\trepend', ' .repend', '#repend', ' repend ; c', ' repend /* c */']
    ma = [' MAC z', '\tmac\tz', ' .mac z', ' macro z', ' MACRO z', '#mac z', ' mac z ; c', ' mac Z']
    me = [' ENDM', '\tendm', ' .endm', '#endm', ' endm ; c', ' EndM', ' endm /* c */']
    for a, b in itertools.product(rp, re_):
        yield (build([' repeat 2', ' dc.b 1', ' repend']), (build([a, ' dc.b 1', b]), build([' if 0', a, ' dc.b 7', b, ' else', a, ' dc.b 1', b, ' endif'])), ())
    for a, b in itertools.product(ma, me):
        yield (build([' mac z', ' dc.b 1', ' endm', ' z']), (build([a, ' dc.b 1', b, ' z']), build([a, ' dc.b 1 ; c', b, ' Z']), build([a, '; c', ' dc.b 1 /* c */', b, '\tz\t'])), ())


def spaces(tier):
    full = tier == 'thorough'
    return [
        progs('single', '%d lines and %d blocks x every other spelling of one line' % (len(LINES), len(BLOCKS)), single, alike, chunk=8),
        progs('between', '%d comment and blank lines at every place, block comments over line ends' % len(BETWEEN), between, alike, chunk=8),
        progs('whole', 'line endings, last line, comments on every line', whole, alike, chunk=8),
        progs('combined', 'label form x gap x case x gap x end of line on every line', lambda: combos(full), alike, chunk=8),
        progs('skipped', 'spellings of conditional, repeat and macro lines', skipped, alike, chunk=8),
        progs('strings', 'strings of 1..%d parts out of 25, every byte, lengths 0..299' % (5 if full else 4), lambda: strings(5 if full else 4), literal),
        progs('characters', 'every printable character as a constant', chars),
        progs('unclosed', 'block comments left open', unclosed),
        Space('scale', 'up to 131073 empty lines, comments, lines', lambda: scale.layouts(scale.counts(tier == 'thorough')), scale.exactly, chunk=1),
    ]
