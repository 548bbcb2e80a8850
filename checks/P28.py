"""P28: parts of a source that have nothing to do with each other do not influence each other."""
import itertools

import gen
import isa
import refasm
from common import Case, Space, bytediff, diff, filelist, model, model_symbols, progs, prog, real_symbols, short

FILES = (('i', ' dc.b $33\n'), ('b', b'\x01\x02\x03'), ('none', ''), ('d/', ''), ('e', ' dc.b $44\n end\n foo\n'))

# @: letter making the names of this part its own
PARTS = [
    ' dc.b 1,2\n', ' dc.w $1234,p@\np@\n', ' dc.l -1\n', ' dc "text",0\n', ' byte 5\n word 6\n long 7\n', ' ds 3,$aa\n dc.b 1\n', ' ds.w 2,$1234\n', ' ds.l 1,$12345678\n', ' dc.s 3\n',
    ' dc.b 1\n align 8\n dc.b 2\n', ' dc.b 1\n align 4,$ee\n dc.w .\n', ' hex 01a2\n', 'k@ = 5\n dc.b k@\n', 'k@ equ 6\n lda #k@\n', 'k@ set 1\n dc.b k@\nk@ set k@+1\n dc.b k@\n', 'q@ eqm r@*2\nr@ set 3\n dc.b q@\nr@ set 4\n dc.b q@\n',
    'f@ eqm ..+1\n dv.b f@ 1,2\n', 'f@ eqm ..*2\n dv.w f@ "ab"\n', 's@ setstr some text\n dc s@\n', ' lda $12\n', ' lda $1234\n', ' lda.w $12\n', ' lda.b w@\nw@ = $45\n', ' lda.wx $12\n', ' sta ($80),y\n sta ($80,x)\n', ' jmp (v@)\nv@ = $4567\n', ' lda fw@\nfw@ nop\n', ' lda z@\nz@ = $20\n',
    ' bne n@\n nop\nn@\n', 'n@ nop\n bne n@\n', ' asl\n rol @@zp\n@@zp = 4\n', ' nop\n brk\n', ' rorg $8000\nx@ dc.w x@,.\n rend\ny@ dc.w y@,.\n', ' dc.b 1\n org .+5,$cc\n dc.b 2\n', ' seg.u u@\n org 7\nv@ ds 2\nw@ ds 1\n seg code\n dc.b v@,w@\n',
    ' seg s@\n org %d+$800\n dc.w .\n seg code\n dc.b 1\n', ' if 1\n dc.b 1\n else\n dc.b 2\n endif\n', ' if 0\n foo bar\n else\n if 1\n dc.b 3\n endif\n endif\n', ' ifconst nope@\n nop\n endif\n ifnconst nope@\n brk\n endif\n', ' if late@\n dc.b 1\n endif\nlate@ = 1\n', ' repeat 3\n dc.b 1\n repend\n',
    'c@ set 0\n repeat 3\n dc.b c@\n repeat 2\n dc.b $ff\n repend\nc@ set c@+1\n repend\n', ' repeat 0\n dc.b 9\n repend\n dc.b 1\n', ' mac m@\n dc.b {1},{2}\n endm\n m@ 1,2\n m@ 3,4\n', ' mac m@\n.l bne .l\n endm\n m@\n m@\n', ' mac m@\n dc.b 1\n mexit\n dc.b 2\n endm\n m@\n', ' mac n@\n dc.b {1}\n endm\n mac m@\n n@ {1}\n n@ {1}+1\n endm\n m@ 5\n',
    ' subroutine\n.l dc.w .l\nd@\n1$ dc.w 1$\n subroutine\n.l dc.w .l\n', 'g@ subroutine\n.x nop\n bne .x\n', ' include "i"\n', ' include "e"\n', ' incbin "b"\n', ' incbin "b",1\n', ' include "none"\n dc.b 1\n', ' echo "text",k@\nk@ = 4\n dc.b k@\n', ' list off\n dc.b 1\n list on\n', ' list off\n dc.b 1\n', ' list on\n dc.b 1\n', ' processor 6502\n nop\n',
    'a@b = 3\n dc.b a@b&2,a@b|4,~a@b,-a@b,a@b<<2\n', ' dc.b (1+2)*3,[4-1]*2\n', ' dc.w <$1234,>$1234\n', ' dc.b "it\'s",\';\n', 'o@ = "str"\n dc o@\n', 'o@ = 255\n dc [o@]d\n', ' dc.b %101,017,$f,\'a\n', 'h@ dc.b 1\nh2@ dc.w h@,h2@-h@\n',
    'pp@ = .\n dc.w pp@\n', ' dc.w .\n', ' dc.b 1 ; note\n/* two\nlines */\n dc.b 2\n', '^hat@ dc.w hat@\n', ' .dc.b 1\n #dc.b 2\n', ' DC.B 1\n LDA #2\n', ' lda #<t@\n ldx #>t@\nt@ = $abcd\n', ' dc.w u1@\nu1@ = u2@+1\nu2@ = u3@+1\nu3@ = 7\n', ' mac m@\n if 1\n dc.b 1\n mexit\n endif\n dc.b 2\n endm\n m@\n dc.b 3\n', 'a_long_name_differing_late_@ = 5\n dc.b a_long_name_differing_late_@\n', ' subroutine\n mac m@\n.l nop\n bne .l\n endm\n.l brk\n m@\n bne .l\n', ' subroutine\n mac m@\n.l nop\n endm\n.l brk\n repeat 2\n m@\n bne .l\n repend\n bne .l\n', 'dd@\n mac m@\n1$ nop\n bne 1$\n endm\n1$ brk\n m@\n bne 1$\n', ' incdir "d"\n dc.b 1\n', 'e@ = 0\n if e@==0\n dc.b 5\n endif\n', ' dc.b 1==1,1==2,!0\n',
]
FAIL = [' foo\n', ' dc.b nope@\n', ' bne far@\n ds 200\nfar@\n', 'd@ = 1\nd@ = 2\n', ' err\n', ' include "nofile"\n', 'd@ nop\nd@ nop\n', ' dc.b 1/0\n', ' asl ($12),y\n', ' align 0\n']
CPUS = ['6502', '65c02', '6803', 'HD6303', '68705', '68HC11', '68908', 'F8']
DATA = {
    '6803': [' ldaa $12\n', ' ldaa $1234\n', ' ldd #$1234\n', ' std $10\n', ' ldx 5,x\n', ' bne b@\nb@\n', ' jsr w@\nw@ = $20\n', ' nop\n'],
    'HD6303': [' ldaa $12\n', ' ldaa $1234\n', ' ldd #$1234\n', ' ldx 5,x\n', ' bne b@\nb@\n', ' jsr w@\nw@ = $20\n', ' nop\n'],
    '68705': [' lda $12\n', ' lda $1234\n', ' lda #5\n', ' lda 5,x\n', ' lda ,x\n', ' lda $1234,x\n', ' bset 3,$12\n', ' brset 2,$12,b@\nb@\n', ' bne b@\nb@\n', ' nop\n'],
    '68HC11': [' ldaa $12\n', ' ldaa $1234\n', ' ldd #$1234\n', ' ldaa 5,x\n', ' ldaa 5,y\n', ' ldy $12\n', ' nop\n', ' bne b@\nb@\n', ' cpd $1234\n'],
    '68908': [' lda $12\n', ' lda $1234\n', ' lda #5\n', ' lda 5,x\n', ' lda 5,sp\n', ' lda $1234,x\n', ' bne b@\nb@\n', ' nop\n', ' sta $1234,sp\n'],
    'F8': [' li 5\n', ' lis 3\n', ' lr a,5\n', ' dci $1234\n', ' bnz b@\nb@\n', ' jmp $1234\n', ' nop\n', ' db 1\n', ' dw $1234\n', ' ins 4\n', ' res 2\n db 1\n'],
}
COMMON = [' dc.b 1,2\n', ' dc.w $1234,p@\np@\n', ' dc.l $12345678\n', ' dc "text"\n', ' dc.b 1\n align 4,7\n dc.b 2\n', 'k@ = 5\n dc.b k@\n', ' dc.w k@\nk@ = $123\n', ' mac m@\n dc.w {1}\n endm\n m@ $102\n', ' repeat 2\n dc.w $304\n repend\n', ' rorg $800\nx@ dc.w x@\n rend\n', ' hex 0102\n', ' subroutine\n.l dc.w .l\n', ' if 1\n dc.b 1\n endif\n', 'f@ eqm ..+$100\n dv.w f@ 1,2\n', ' seg.u u@\n org 5\nv@ ds 2\n seg code\n dc.w v@\n']


def part(t, k):
    """The k-th part of a source: its own names, its own addresses."""
    org = 0x1000 * (k + 1)
    t = t.replace('@', 'ABCDEFGH'[k])
    if '%d' in t:
        t = t.replace('%d', str(org))
    return ' seg code\n org %d\n' % org + t


def image(out):
    """Format 2 file -> {address: byte}; None when malformed."""
    d, i = {}, 0
    while i < len(out):
        if i + 4 > len(out):
            return None
        o, n = out[i] | out[i + 1] << 8, out[i + 2] | out[i + 3] << 8
        if n == 0 or i + 4 + n > len(out):
            return None
        for k in range(n):
            d[o + k] = out[i + 4 + k]
        i += 4 + n
    return d


def own(lines):
    """Symbols without the numbered local ones."""
    return [x for x in lines if not x[0].isdigit()]


_cache = {}


def alone(cpu, t, k):
    key = (cpu, t, k)
    if key not in _cache:
        if len(_cache) > 20000:
            _cache.clear()
        fl = (('a.asm', ' processor %s\n' % cpu + part(t, k)),) + FILES
        m = model(fl, ('-f2',))
        _cache[key] = None if m.rc else (image(m.out), own(model_symbols(m)))
    return _cache[key]


def judge(r, want, syms):
    if r.rc < 0:
        return 'ended by signal %d%s' % (-r.rc, ' (time limit)' if r.timeout() else '')
    if want is None:
        return None if r.rc else 'success, although a part alone is rejected'
    if r.rc:
        return 'exit status %d, although every part alone is accepted: %s' % (r.rc, short(r.out))
    got = image(r.files[0]) if r.files[0] is not None else None
    if got is None:
        return 'no well-formed output'
    if got != want:
        a = min(x for x in set(got) | set(want) if got.get(x) != want.get(x))
        return 'at address $%x: %r, alone %r' % (a, got.get(a), want.get(a))
    s = own(real_symbols(r.files[1] or b''))
    if s != syms:
        return 'symbols: %s, alone %s' % (short([x for x in s if x not in syms]), short([x for x in syms if x not in s]))
    return None


def together(item):
    """Item (processor, parts): the union of what the parts give alone."""
    cpu, ts = item
    each = [alone(cpu, t, k) for k, t in enumerate(ts)]
    fl = (('a.asm', ' processor %s\n' % cpu + ''.join(part(t, k) for k, t in enumerate(ts))),) + FILES
    r, = yield [Case(['a.asm', '-f2', '-oo', '-ss'], fl, ('o', 's'))]
    if None in each:
        return judge(r, None, None)
    want = {}
    for e in each:
        want.update(e[0])
    return judge(r, want, sorted(x for e in each for x in e[1]))


def pairs():
    for a in PARTS + FAIL:
        for b in PARTS + FAIL:
            yield ('6502', (a, b))
    for c in CPUS[1:]:
        ps = COMMON + DATA.get(c, [])
        if c == 'F8':
            ps = [x.replace(' ds ', ' res ') for x in ps]
        for a in ps:
            for b in ps:
                yield (c, (a, b))


def triples(n):
    ps = PARTS[::2] + FAIL[:2] if n == 0 else PARTS
    for w in itertools.product(ps, repeat=3):
        yield ('6502', w)


def triples_cpu():
    for c in CPUS[2:]:
        ps = COMMON + DATA.get(c, [])
        if c == 'F8':
            ps = [x.replace(' ds ', ' res ') for x in ps]
        for w in itertools.product(ps, repeat=3):
            yield (c, w)


# statements whose bytes do not depend on where they stand
LINES = [
    ' dc.b 1', ' dc.w $1234', ' dc.l $12345678', ' dc.s $1234', ' dc 5', ' dc "ab"', ' dc.w "ab"', ' dc.l "ab"', ' dc.s "ab"', ' byte 6', ' word $2345', ' long 7', ' ds 2,3', ' ds.b 1,4', ' ds.w 1,$1234', ' ds.l 1,$12345678', ' ds 1', ' ds 0', ' hex 01', ' hex aabbcc',
    ' dv vv 1', ' dv.b vv 1,2', ' dv.w vv 1', ' dv.l vv 2', ' dv.s vv 3', ' dv.w vv "a"', ' incbin "b"', ' incbin "b",2', ' include "i"', ' include "e"', ' echo "x"', ' echo 1,2', ' if 1\n dc.b 1\n endif', ' if 0\n dc.b 1\n endif', ' if 0\n else\n dc.w 2\n endif', ' ifconst vv\n dc 3\n endif',
    ' repeat 2\n dc.b 4\n repend', ' repeat 0\n dc.w 4\n repend', ' mm', ' mm.w', ' mw 5', ' mw "a"', ' mx', ' ml', ' list off', ' list on', ' align 1', '', '; c', 'tt set 5', 'tt set tt+1', ' subroutine', ' dc.b (1)', ' dc.b [1]d', " dc 'a", ' dc.b 1,2,3,4,5,6,7,8,9', ' dc.w 1,2,3,4,5', ' dc "0123456789012345678901234567890"', ' seg code', ' dc.b -1', ' dc.w -2', ' dc.s -2',
    ' DC.W 3', ' .dc.w 3', ' #dc.w 3', ' dc.b 1==1', ' dc.b 5&4,5|2', ' rorg $50\n rend', ' dc.b 1 /* x */', ' incdir "d"', ' processor %s', ' list localoff', ' list localon',
]
ROWHEAD = 'vv eqm ..+1\n mac mm\n dc.b 7\n endm\n mac mw\n dc.w {1}\n endm\n mac mx\n if 1\n dc.b 8\n mexit\n endif\n dc.b 9\n endm\n mac ml\n.a dc.b 1\n if .a - .a\n dc.b 2\n endif\n endm\n'


_bytes = {}


def rowhead(cpu):
    return ' processor %s\n seg code\n org $400\n' % cpu + ROWHEAD


def bytes_of(cpu, t):
    """What a statement emits alone; None if it is rejected."""
    if (cpu, t) not in _bytes:
        m = model((('a.asm', rowhead(cpu) + t.replace('%s', cpu) + '\n'),) + FILES, ('-f3',))
        _bytes[cpu, t] = None if m.rc else m.out
    return _bytes[cpu, t]


def statements(cpu):
    """Directives, and of every kind of instruction the forms it has."""
    out = [(x.replace(' ds', ' res') if cpu == 'F8' and x.startswith(' ds ') else x) for x in LINES]
    key = {v: k for k, v in gen.PNAME.items()}[cpu]
    if key == 'f8':
        out += [' li 5', ' lis 3', ' lr a,5', ' lr 5,a', ' dci $1234', ' jmp $1234', ' nop', ' db 1', ' dw $1234', ' dd $12345678', ' ins 4', ' lr k,p', ' as 5', ' clr', ' inc', ' sl 1', ' sr 4', ' ds 5', ' out 4', ' outs 4', ' pi $1234']
        return out
    seen = set()
    for n in gen.mnemonics(key):
        ins = isa.TABLE[key][n]
        kind = (tuple(sorted(ins.ops)), ins.rel, ins.mask, ins.imod)
        if kind in seen or ins.rel or isa.AM['REL'] in ins.ops or isa.AM['BYTEREL'] in ins.ops:
            continue
        seen.add(kind)
        for syn in gen.syntaxes(key) + ['3,%s']:
            for v in ('$12', '$1234') if '%s' in syn else ('',):
                for ext in ('', '.w', '.b') if '%s' in syn and syn[0] != '(' else ('',):
                    out.append(' %s%s %s' % (n, ext, syn.replace('%s', v)))
    return out


def rows():
    for c in CPUS:
        st = []
        for t in statements(c):
            try:
                if bytes_of(c, t) is not None:
                    st.append(t)
            except refasm.Unsupported:
                pass
        st = tuple(st)
        for k in range(len(st)):
            yield (c, k, st)


def row(item):
    """Item (processor, k, statements): the k-th one before and after every other, and twice before each."""
    cpu, k, st = item
    out = []
    for two in (1, 2):
        s, want = rowhead(cpu), b''
        for t in st:
            for x in (st[k],) * two + (t,):
                s += x.replace('%s', cpu) + '\n'
                want += bytes_of(cpu, x)
        out.append((s, want))
    rs = yield [Case(['a.asm', '-f3', '-oo'], (('a.asm', s),) + FILES, ('o',)) for s, _ in out]
    for r, (s, want) in zip(rs, out):
        if r.rc:
            return 'exit status %d, although every statement alone is accepted: %s' % (r.rc, short(r.out))
        if r.files[0] != want:
            return 'after one another: ' + bytediff(want, r.files[0])
    return None


LASTING = [
    (' org $510,$aa\n dc.b 1\n', ' org $600\n dc.b 2\n org $610\n dc.b 3\n'),
    ('sub1 subroutine\n.v dc.b 1\ngl\n1$ dc.b 1\n rorg $8000\n', ' dc.w .v,1$\nzw dc.w zw,.\n rend\n dc.w .\n'),
    (' incdir "d"\nee eqm xx+1\nxx set 4\nst setstr ab\n', ' include "dd"\n dc.b ee\n dc st\n dc.w xx\n'),
    (' seg.u uu\n org 5\n', 'zv ds 3\nzu\n seg code\n dc.w zv,zu,.\n'),
]


def lasting(cpu, n):
    """What lasts, then one or two statements that do not end it, then what depends on it."""
    ok = []
    for t in statements(cpu):
        try:
            if bytes_of(cpu, t) is not None:
                ok.append(t.replace('%s', cpu) + '\n')
        except refasm.Unsupported:
            pass
    fl = FILES + (('d/dd', ' dc.b $77\n'),)
    for a, b in LASTING:
        if cpu == 'F8':
            b = b.replace(' ds ', ' res ')
        for w in itertools.chain(((x,) for x in ok), itertools.product(ok[:len(LINES)] if n else (), repeat=2)):
            yield ((('a.asm', rowhead(cpu) + a + ''.join(w) + b),) + fl, ('-f1',))


def guarded(item):
    try:
        model(*item)
    except refasm.Unsupported:
        return None
        yield
    return (yield from prog(item))


WRAPS = [
    (' if 1\n', ' endif\n', 'if'), (' if 0\n foo\n else\n', ' endif\n', 'if'), (' ifnconst nowhere\n', ' else\n foo\n endif\n', 'if'), (' repeat 1\n', ' repend\n', 'repeat'),
    (' mac wrap%d\n', ' endm\n wrap%d\n', 'mac'), ('', '', 'include'), (' subroutine\n', ' subroutine\n', ''), (' list off\n', ' list on\n', ''), (' echo "a"\n', ' echo "b"\n', ''), (' /* x */\n', ' ; y\n', ''),
    (' if 1\n if 1\n', ' endif\n endif\n', 'if'), (' mac w1_%d\n', ' endm\n mac w2_%d\n w1_%d\n endm\n w2_%d\n', 'mac'), (' repeat 3\n if turn == 1\n' , ' endif\nturn set turn+1\n repend\n', 'turn'), (' rorg $9999\n rend\n', '', ''), (' seg other\n seg code\n', ' seg other\n', ''), (' mac wrap%d\n if {1}\n', ' endif\n endm\n wrap%d 1\n', 'mac'),
]


def wrapped(item):
    """Item (part, kinds of surroundings from the inside out, part behind or None): as alone."""
    t, ws, after = item
    each = [alone('6502', t, 0)]
    s = part(t, 0)
    fl = []
    for n, w in enumerate(ws):
        a, b, kind = WRAPS[w]
        if kind == 'include':
            fl.append(('w%d' % n, s))
            s = ' include "w%d"\n' % n
        else:
            if kind == 'turn':
                s = 'turn set 0\n' + a + s + b
            else:
                s = a.replace('%d', str(n)) + s + b.replace('%d', str(n))
    if after is not None:
        each.append(alone('6502', after, 1))
        s += part(after, 1)
    r, = yield [Case(['a.asm', '-f2', '-oo', '-ss'], (('a.asm', ' processor 6502\n' + s),) + tuple(fl) + FILES, ('o', 's'))]
    if None in each:
        return judge(r, None, None)
    want = {}
    for e in each:
        want.update(e[0])
    if r.rc == 0 and r.files[1] is not None:        # the helper is no symbol of a part
        r.files = [r.files[0], b'\n'.join(x for x in r.files[1].split(b'\n') if not x.startswith((b'turn', b'nowhere')))]
    return judge(r, want, sorted(x for e in each for x in e[1]))


def fits(t, ws):
    """A macro or loop cannot hold every part."""
    inner = {WRAPS[w][2] for w in ws}
    if 'mac' in inner and (' mac ' in t or '/*' in t or ' list' in t):
        return False
    if 'turn' in inner and (' mac ' in t or 'repeat' in t):
        return False
    for k, w in enumerate(ws):
        if WRAPS[w][2] == 'mac' and any(WRAPS[v][2] == 'mac' for v in ws[:k]):
            return False                               # definitions inside definitions
        if WRAPS[w][2] in ('mac', 'turn') and any(WRAPS[v][2] in ('include', 'turn') or WRAPS[v][1].startswith(' ; y') for v in ws[:k]):
            return False
    return True


def wraps(n):
    for t in PARTS + FAIL:
        for k in range(1, n + 1):
            for ws in itertools.product(range(len(WRAPS)), repeat=k):
                if fits(t, ws):
                    yield (t, ws, None)
                    if k == 1:
                        for b in PARTS:
                            yield (t, ws, b)


# statements that nothing else speaks of; D may stand inside definitions and loops, T only outside of them
IDLE = [
    ('D', ''), ('D', '; note'), ('D', ' '), ('D', '\t; lda #5'), ('D', ' echo "z"'), ('D', ' echo 5,"z"'), ('D', ' ds 0'), ('D', ' ds.w 0'), ('D', ' ds 0,5'), ('D', ' align 1'), ('D', ' if 1\n endif'), ('D', ' if 0\n dc.b 1\n endif'), ('D', ' if 0\n foo\n else\n endif'),
    ('D', ' ifconst zz\n dc.b 1\n endif'), ('D', ' repeat 0\n dc.b 1\n repend'), ('D', ' repeat 2\n repend'), ('D', ' list off'), ('D', ' list on'), ('D', ' include "none"'), ('D', ' incdir "d"'), ('D', ' processor 6502'), ('D', ' seg code'), ('D', 'zz set 5'), ('D', 'zz set zz2'), ('D', 'zz eqm 1+'), ('D', 'zz setstr text'), ('D', ' .echo "z"'),
    ('D', ' yym'), ('D', ' yye'), ('D', ' yyn'), ('D', ' repeat 2\n yym\n repend'), ('D', ' repeat 2\n yye\n repend'), ('D', ' if 1\n yyn\n endif'), ('D', 'a_name_that_is_rather_long_to_z set 3'), ('D', ' list localoff'),
    ('T', 'zz'), ('T', 'zz:'), ('T', '^zz'), ('T', 'zz = 5'), ('T', 'zz equ 6'), ('T', 'zz = .'), ('T', 'zz = "s"'), ('T', 'zz = later\nlater = 5'), ('T', 'zz = zz2'), ('T', 'zz ds 0'), ('T', 'zz = 1\nzy = zz+1\nzx = zy+1'), ('T', ' mac zz\n dc.b 1\n endm'), ('T', ' mac zz\n endm\n zz'), ('T', ' mac zz\n if {1}\n dc.b 1\n endif\n endm\n zz 0'),
    ('T', ' seg.u zu\n ds 3\n seg code'), ('T', ' seg zu\n seg code'), ('T', ' seg.u zu\n org 5\nzz ds 2\nzy ds 1\n seg code'), ('T', ' seg.u zu\n org 5\n rorg 9\nzz ds 2\n rend\n seg code'), ('T', ' /* a\n b */'), ('T', ' if 0\n mac zz\n endif\n endm\n endif'), ('T', ' if 0\n include "nofile"\n incbin "nofile"\n err\n endif'), ('T', ' if 0\nzz = 1\nzz = 2\n endif'), ('T', ' if zl\n endif\nzl = 0'),
]
BASES = [
    [' lda f', ' bne l', 'l nop', 'f = $1234', ' dc.w l,f'],
    [' subroutine', '.a dc.w .a,.b', '.b nop', ' bne .a', ' subroutine', '.a dc.w .a'],
    [' mac m', ' dc.b {1}', ' if {1} > 1', ' dc.b {2}', ' endif', ' endm', ' m 1,2', ' m 2,3'],
    ['c set 0', ' repeat 3', ' dc.b c', 'c set c+1', ' if c == 2', ' dc.b $ee', ' endif', ' repend', ' dc.b c'],
    ['dl', '1$ dc.w 1$', ' bne 1$', ' repeat 2', ' dc.w 1$,2$', ' repend', '2$ dc.w 1$', 'dm', '1$ dc.w 1$,2$', '2$ nop'],
    ['a_name_that_is_rather_long_to_x = 5', 'a_name_that_is_rather_long_to_y = $123', ' dc.w a_name_that_is_rather_long_to_x,a_name_that_is_rather_long_to_y', 'a_name_that_is_rather_long_to_1', ' dc.w a_name_that_is_rather_long_to_1'],
    [' rorg $8000', 'x dc.w x,.', ' align 4', ' dc.w .', ' rend', 'y dc.w y,x'],
    ['e eqm s+1', 's set 1', ' dc.b e', 's set 2', ' dc.b e', ' lda e', ' lda.w e'],
    [' if k', ' dc.b 1', ' else', ' dc.b 2', ' endif', 'k = 1', ' ifconst k', ' dc.b 3', ' endif'],
    [' dc.b 1', ' align 8', ' dc.b 2', ' org $130,$aa', ' dc.b 3', ' ds 3,4', ' dc.b 5'],
    ['a = b+1', 'b = c+1', 'c = d+1', 'd = 4', ' dc.b a', ' lda a,x', ' lda #<a'],
    [' include "i"', ' incbin "b"', ' dc.b 1', ' incbin "b",1', ' hex 0102', 'z9 dc.w z9'],
    [' lda $12', ' lda.w $12', ' lda $12', ' sta ($12),y', ' lda $1234,x', ' asl', ' jmp ($12)'],
    ['t setstr abc', ' dc t', ' dc "x",t,0', 'v = "str"', ' dc v', ' dv.b w 1,2', 'w eqm ..*2'],
    [' seg data', ' org $300', ' dc.b 1', ' seg.u bss', ' org $80', 'v ds 2', ' seg code', ' dc.w v', ' seg data', ' dc.b 2', ' seg code'],
]


def places(lines):
    """(index, inside a definition or loop, inside another segment) of every place between two lines."""
    depth, seg = 0, False
    for i in range(len(lines) + 1):
        yield i, depth > 0, seg
        if i < len(lines):
            w = lines[i].split()
            if w[0] in ('mac', 'repeat'):
                depth += 1
            elif w[0] in ('endm', 'repend'):
                depth -= 1
            elif w[0] in ('seg', 'seg.u'):
                seg = w[1] != 'code'


HEAD = ' processor 6502\n seg code\n org $100\n mac yym\n.a\n1$\n.l set 5\n if 0\n dc.b .a\n endif\n endm\n mac yye\n.b\n if 1\n mexit\n endif\n dc.b 1\n endm\n mac yyn\n.a\n yym\n if .a-.\n dc.b 1\n endif\n endm\n'


def idle(item):
    """Item (number of the base, ((place, idle statement, copies), ..)): as without them."""
    b, ins = item
    lines = BASES[b]
    key = ('base', b)
    if key not in _cache:
        m = model((('a.asm', HEAD + '\n'.join(lines) + '\n'),) + FILES, ('-f2',))
        _cache[key] = (m.rc, image(m.out), own(model_symbols(m)))
    rc, want, syms = _cache[key]
    s = ''
    for i in range(len(lines) + 1):
        for p, t, n in ins:
            if p == i:
                s += (t + '\n') * n if '#' not in t else ''.join(t.replace('#', str(k)) + '\n' for k in range(n))
        if i < len(lines):
            s += lines[i] + '\n'
    r, = yield [Case(['a.asm', '-f2', '-oo', '-ss'], (('a.asm', HEAD + s),) + FILES, ('o', 's'))]
    if r.rc == 0 and r.files[1] is not None:
        r.files = [r.files[0], b'\n'.join(x for x in r.files[1].split(b'\n') if not x.startswith((b'zz', b'X', b'a_name_that_is_rather_long_to_z', b'zy', b'zx', b'zl', b'later')))]
    return judge(r, None if rc else want, syms)


def labels(t):
    """A label of its own ends the scope of the n$ ones."""
    return any(x[:1] not in ('', ' ') for x in t.split('\n'))


def bars(b, k, t, d, seg):
    """A statement that cannot stand at a place."""
    return k == 'T' and d or seg and ('code' in t or 'align' in t or 'yyn' in t) or 'k = 1' in BASES[b] and 'zl' in t or BASES[b][0] == 'dl' and k == 'T' and labels(t)


def idles():
    for b, lines in enumerate(BASES):
        for i, d, seg in places(lines):
            for k, t in IDLE:
                if bars(b, k, t, d, seg):
                    continue
                yield (b, ((i, t, 1),))


def idles2(stmts, apart):
    for b, lines in enumerate(BASES):
        pl = list(places(lines))
        for (i, d, seg), (j, d2, seg2) in itertools.combinations_with_replacement(pl, 2):
            if j - i > apart:
                continue
            for k, t in stmts:
                for k2, t2 in stmts:
                    if bars(b, k, t, d, seg) or bars(b, k2, t2, d2, seg2):
                        continue
                    if 'z' in t and 'z' in t2:
                        t2 = t2.replace('zz', 'zzq').replace('zy', 'zyq').replace('zx', 'zxq').replace('zl', 'zlq').replace('later', 'laterq').replace('zu', 'zuq')
                    yield (b, ((i, t, 1), (j, t2, 1)))


MANY = ['a_name_that_is_rather_long_to_z#', 'a_name_that_is_rather_long_to_z# = #', 'a_name_that_is_rather_long_to_z# set #', ' mac a_name_that_is_rather_long_to_z#\n dc.b 1\n endm', 'X#', '.z#', 'zz#', 'zz# = #', 'zz# set #', 'zz# eqm #', 'zz# = .', ' mac zz#\n dc.b 1\n endm', ' seg.u zu#\n seg code', 'zz set #', ' echo', ' ds 0', ' if 0\n dc.b 1\n endif', ' repeat 2\n repend', ' include "none"', ' seg.u zu\n ds 1\n seg code', ' list off', 'zz# setstr text', 'zz# = later#\nlater# = 1', '; note', ' align 1', ' processor 6502', ' mac zz#\n endm\n zz#']


def many(top):
    for b, lines in enumerate(BASES):
        ok = [i for i, d, seg in places(lines) if not d and not seg]
        for i in (ok[0], ok[len(ok) // 2], ok[-1]):
            for t in MANY:
                if lines[0] == 'dl' and labels(t):
                    continue
                for n in top:
                    yield (b, ((i, t, n),))


def spaces(tier):
    full = tier == 'thorough'
    return [
        progs('alone', 'every part alone, and every base program, as the model says', lambda: itertools.chain(
            (((('a.asm', ' processor 6502\n' + part(t, k)),) + FILES, ('-f2',)) for t in PARTS + FAIL for k in range(3)),
            (((('a.asm', HEAD + '\n'.join(b) + '\n'),) + FILES, ('-f2',)) for b in BASES)), prog),
        Space('pairs', 'all ordered pairs of %d parts on 6502, of about 22 parts on 7 other processors' % (len(PARTS) + len(FAIL)), pairs, together, chunk=32),
        Space('triples', 'all ordered triples of %d parts' % (len(PARTS) if full else len(PARTS[::2]) + 2), lambda: triples(full), together, chunk=64),
        Space('triples-cpu', 'all ordered triples of about 22 parts on 6 other processors', triples_cpu, together, chunk=64),
        Space('rows', 'every statement of about 70 directives and every kind of instruction form, before and after every other, on 8 processors', rows, row, chunk=4, key=lambda it: '%s %d' % it[:2]),
        progs('lasting', 'what lasts (ORG fill, RORG, scopes, INCDIR, EQM, segments), every one or two statements, what depends on it', lambda: itertools.chain(*(lasting(c, c == '6502') for c in CPUS)), guarded),
        Space('wrapped', 'every part in up to %d of %d surroundings, alone and followed by every part' % (3 if full else 2, len(WRAPS)), lambda: wraps(3 if full else 2), wrapped, chunk=32),
        Space('idle', '%d statements nothing speaks of at every place of %d programs' % (len(IDLE), len(BASES)), idles, idle, chunk=32),
        Space('idle-2', 'every two of %d of them at every two places%s' % ((len(IDLE), '') if full else (len(IDLE[::2]), ' at most 4 lines apart')), lambda: idles2(*((IDLE, 99) if full else (IDLE[::2], 4))), idle, chunk=64),
        Space('many', '%d kinds of them, up to %d copies' % (len(MANY), 3000 if full else 1100), lambda: many((1, 2, 3, 10, 100, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1100) + ((2000, 2047, 2048, 2049, 3000) if full else ())), idle, chunk=4),
    ]
