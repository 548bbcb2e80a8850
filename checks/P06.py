"""P06: no unresolved value is emitted."""
import refasm
from common import Case, diff, filelist, model, progs, short, texts
from gen import CPUS, F8_BR, SYNTAX_LIST, fill, head, mnemonics, syntaxes

H = ' processor 6502\n org $100\nk = 5\n'


def unresolved(text):
    """Names in the list of unresolved symbols, and the number claimed."""
    out, n, on = [], None, False
    for l in text.decode('latin-1').split('\n'):
        if l.startswith('--- Unresolved Symbol List'):
            on = True
        elif on and l.startswith('--- '):
            n = int(l.split()[1])
            on = False
        elif on:
            out.append(l.split()[0])
    return out, n


def fails(item):
    """Item (text, args): may only succeed where the model does; a failure lists the unresolved symbols."""
    files, args = item
    fl = filelist(files)
    m = model(fl, args)
    r, = yield [Case([fl[0][0], *args, '-oo', '-ss'], fl, ('o', 's'))]
    d = diff(m, r)
    if d:
        return d
    ok = b'Complete. (0)' in r.out
    if ok != (r.rc == 0):
        return 'exit status %d with message %s' % (r.rc, short(r.out[-200:]))
    if m.rc == 3:
        want = sorted(s.name for s in m.syms.values() if s.flags & refasm.UNKNOWN)
        got, n = unresolved(r.out)
        if sorted(got) != want:
            return 'unresolved symbols listed %s, expected %s' % (got, want)
        if want and n != len(want):
            return 'claims %s unresolved symbols, %d are listed' % (n, len(want))
        if r.rc != 3 or b'not resolvable' not in r.out:
            return 'exit status %d, message %s: not reported as unresolvable' % (r.rc, short(r.out[-200:]))
    return None


def must_fail(item):
    """As fails, and the model has to agree that it fails."""
    fl = filelist(item[0])
    if model(fl, item[1]).rc == 0:
        raise ValueError('the model accepts this program')
    return (yield from fails(item))


# statements that need the value %s
PLACES = [
    ' dc.b %s\n', ' dc.w %s\n', ' dc.l %s\n', ' dc.s %s\n', ' byte 1,%s\n', ' word %s,2\n', ' long %s\n', ' dc.b 1,2,%s,4\n', ' dc "ab",%s\n',
    ' ds %s\n', ' ds 2,%s\n', ' ds.w %s\n', ' ds.l 1,%s\n', ' ds 0,%s\n', ' org %s\n dc.b 1\n', ' org %s\n nop\n', ' org %s\n ds 1\n', ' org .,%s\n',
    ' org $120,%s\n dc.b 1\n', ' rorg %s\n dc.w .\n', ' rorg %s\nq dc.w q\n', ' rorg %s\n bne .\n', ' rorg %s\n bne 0\n', ' rorg %s\n bne $102\n', ' rorg %s\n bne 0\n rend\n', ' rorg %s\n align 4\n', ' align %s\n', ' align 4,%s\n',
    ' if %s\n dc.b 1\n endif\n', ' if %s\n endif\n', ' if 1\n if %s\n nop\n else\n brk\n endif\n endif\n', ' repeat %s\n dc.b 1\n repend\n', ' repeat 2\n dc.b %s\n repend\n',
    ' lda #%s\n', ' lda %s\n', ' lda %s,x\n', ' ldx %s,y\n', ' sta (%s),y\n', ' sta (%s,x)\n', ' jmp %s\n', ' jmp (%s)\n', ' bne %s\n', ' lda.w %s\n', ' lda.b %s\n', ' asl %s\n',
    'q = %s\n dc.b q\n', 'q equ %s\n lda q\n', 'q set %s\n dc.b q\n', 'q eqm %s\n dc.b q\n', 'q = %s\nq2 = q+1\n dc.b q2\n', 'q = %s\n if q\n endif\n',
    'q eqm ..+[%s]\n dv.b q 1\n', 'q eqm ..\n dv.b q %s\n', 'q eqm ..+[%s]\n dv.b q "ab"\n', 'q eqm ..*[%s]\n dv.w q "ab",1\n', 'q eqm ..-[%s]\n dv.l q 1,"b"\n', ' mac q\n dc.b {1}\n endm\n q %s\n', ' mac q\n lda #%s\n endm\n q\n', ' incbin "d",%s\n',
    '. = %s\n dc.b 1\n', ' dc.b [%s]d\n', ' seg.u z\n org %s\nq ds 1\n seg y\n org 0\n dc.w q\n', ' seg.u z\n org 0\n ds %s\n', ' org %s\nq\n seg y\n org 0\n lda q\n',
    ' if %s,1\n dc.b 1\n endif\n', ' if %s,0\n else\n dc.b 1\n endif\n', ' repeat %s,1\n dc.b 1\n repend\n', ' org %s,1\n dc.b 1\n', ' rorg %s,1\n dc.w .\n', ' align %s,1\n dc.b 1\n',
    ' ds %s,1\n', ' ds %s,%s\n', ' lda #%s,1\n', ' dc.b "a",%s,"b"\n', ' dc.b <%s,>%s\n', ' dc.l %s,%s\n',
    ' if %s\n else\n dc.b 1\n endif\n', ' if %s\n if 1\n dc.b 1\n endif\n endif\n', ' repeat 1\n if %s\n dc.b 1\n endif\n repend\n', ' mac q\n if %s\n dc.b 1\n endif\n endm\n q\n', ' mac q\n ds {1}\n endm\n q %s\n',
    ' rorg 5\n rorg %s\n dc.w .\n', ' seg.u z\n org 0\n rorg %s\nq ds 1\n seg y\n org 0\n dc.w q\n', ' seg.u z\n org 0\n align %s\nq ds 1\n seg y\n org 0\n dc.w q\n',
    'q = "a"+[%s]\n dc.b q\n', 'q = [%s]d\n dc.b q\n', ' hex 01\n dc.b %s\n', ' bne [%s]+2\n', ' jmp [%s]-1\n', 'q lda %s\n', 'q ds %s\nr dc.w r\n', 'q align %s\nr dc.w r\n', 'q org %s\n dc.w q\n',
    'q rorg %s\n dc.w q\n', ' if 0\n else\n dc.b %s\n endif\n', ' subroutine\n dc.b %s\n', ' seg s\n org 9\n dc.b %s\n',
]
# as long as nothing asks for it, these do not need it
SOFT = [' rorg %s\n rend\nq dc.w q\n', ' if 1,%s\n dc.b 1\n endif\n', ' org %s\n org 5\n dc.b 1\n', ' rorg %s\n rorg 5\n dc.w .\n', 'q = %s\n dc.b 1\n', 'q set %s\nq set 1\n dc.b q\n']
EXPRS = ['u', 'u+1', '1+u', '-u', '~u', '!u', '<u', '>u', '[u]', 'u-u', 'u*0', '0*u', 'u&0', 'u|1', 'k+u', 'u+k', 'u==1', 'u!=u', 'u<5', 'u?1', '1?u', '2?u', '-1?u', 'k?u', '$100?u', 'u&&1', '1&&u', 'u||0', '0||u',
         'u<<1', '1<<u', 'u%3', '[u+1]*2', 'k-[3+u]', 'u+v', 'u-v', '.+u', 'k*u/2', 'u^u', '3^u', 'u^3', '3|u', '3&u', '3/u', '3%u', '3*u', '3-u', '3==u', '3!=u', '3<u', '3>u', '3<=u', 'u>=3', '3>>u', 'k&u', 'k^v', '[3]^u', '-u+u', '5-u>2', '$ff&u', '>[u+$100]', 'u/1', 'u>>70']
# how the symbol u comes to have no value
WHYS = [('never defined', ''), ('itself', 'u = u+1\n'), ('itself', 'u = u\n'), ('cycle', 'u = w+1\nw = u-1\n'), ('cycle', 'u = w\nw = x\nx = u\n'), ('undefined', 'u = zz\n'),
        ('undefined', 'u = zz-zz\n'), ('set', 'u set zz+1\n'), ('eqm', 'u eqm zz\n'), ('set', 'u set u\n'), ('local', 'u = .n\n'), ('dollar', 'u = 9$\n'),
        ('skipped', ' if 0\nu = 1\n endif\n'), ('macro never called', ' mac never\nu = 1\n endm\n'), ('address', ' seg.u e\n org zz\nu ds 1\n'), ('size', ' seg.u e\n org 0\n ds zz\nu ds 1\n'),
        ('case', 'U = 1\n'), ('longer', 'uu = 1\n'), ('comment', ';u = 1\n'), ('after end', ' end\nu = 1\n')]


def places():
    for p in PLACES + SOFT:
        for e in EXPRS:
            for w, d in WHYS:
                if e in ('u', 'u+1') or w in ('never defined', 'undefined', 'cycle'):
                    body = p.replace('%s', e)
                    yield ((('a.asm', H + body + ' seg last\n org 0\n' + d), ('d', b'xyz')), ())
                    yield ((('a.asm', H + d + ' seg last\n org 0\n' + body), ('d', b'xyz')), ('-f2',)) if ' end\n' not in d else \
                        ((('a.asm', H + body + d), ('d', b'xyz')), ('-f3',))


def late():
    """The value comes to be known, or is found missing, only in a late pass."""
    for p in PLACES + SOFT:
        for e in ('u', 'u+1', '-u', 'u-u', '3*u'):
            for n in range(1, 9):
                chain = 'u = c0\n' + ''.join('c%d = c%d\n' % (i, i + 1) for i in range(n))
                for end, o in (('c%d = 2\n' % n, ()), ('c%d dc.b 1\n' % n, ()), ('c%d = zz\n' % n, ()), ('c%d = 1\n' % n, ('-p30',))):
                    yield ((('a.asm', H + p.replace('%s', e) + ' seg last\n org $300\n' + chain + end), ('d', b'xyz')), ('-f2',) + o)


def nested():
    """A value missing deep inside an expression."""
    for n in range(0, 31):
        for o in ('', '-', '~', '<', '>', '!', '-~'):
            for opener, closer in (('1+[', ']'), ('[2*[1-', ']]'), ('[', ']'), ('-[', ']'), ('1|[', '&3]')):
                k = n
                if k * (len(opener) - opener.count('1') - opener.count('2')) > 26:
                    continue
                e = opener * k + o + 'u' + closer * k
                for p in (' dc.b <[%s]\n', ' lda #<[%s]\n', 'q = %s\n dc.b <q\n', ' if %s\n nop\n endif\n'):
                    yield (H + p % e, ())
                    yield (H + p % e + 'u = 2\n', ())


def instructions():
    for cpu in CPUS:
        for n in mnemonics(cpu):
            for syn in syntaxes(cpu) + SYNTAX_LIST:
                k = syn.count('%s')
                if not k:
                    continue
                for i in range(k):
                    ops = ['1'] * k
                    ops[i] = 'u'
                    yield (head(cpu) + 'l %s %s\n' % (n, fill(syn, ops)), ())
    import isa
    for n in sorted(set(isa.F8_BYTE) | set(isa.F8_WORD) | set(isa.F8_SREG) | set(isa.F8_PORT) | {'lis', 'lisl', 'lisu', 'sl', 'sr'}):
        yield (head('f8') + ' %s u\n' % n, ())
    for n, f in F8_BR:
        yield (head('f8') + ' %s %s\n' % (n, f.replace('%s', 'u')), ())
    for n in ('bf', 'bt'):
        yield (head('f8') + ' %s u,$1002\n' % n, ())
    for o in ('a,u', 'u,a'):
        yield (head('f8') + ' lr %s\n' % o, ())


def names():
    """Scopes: a name that exists elsewhere only."""
    scope = ['.l\n', ' subroutine\n', '1$\n', 'g\n', ' m\n', ' dc.b <.l\n', ' dc.b <1$\n', ' dc.b 7\n']
    mac = ' processor 6502\n org $10\n mac m\n.l nop\n1$ nop\n endm\n'
    return texts(mac, scope, 4, 1)


ALPHA = ['a = b\n', 'b = c\n', 'c = a\n', 'a = 1\n', 'b set c+1\n', 'c eqm b+1\n', ' dc.b a\n', ' lda b\n', ' ds c\n', ' if a\n nop\n endif\n', ' if b\n', ' else\n', ' endif\n', 'c\n', ' org b\n', 'c = 2\n']


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        progs('places', '%d places that need a value x %d expressions x %d reasons for having none, before and after' % (len(PLACES + SOFT), len(EXPRS), len(WHYS)), places, fails),
        progs('undefined', '%d places x %d expressions with a symbol defined nowhere: all fail' % (len(PLACES), len(EXPRS)),
              lambda: (((('a.asm', H + p.replace('%s', e)), ('d', b'xyz')), ()) for p in PLACES for e in EXPRS if e not in ('u&&1', '1?u', '0*u')), must_fail),
        progs('resolved', 'the same places and expressions with the symbol defined at the end',
              lambda: (((('a.asm', H + p.replace('%s', e) + ' seg last\n org $300\n' + d), ('d', b'xyz')), ('-f2',)) for p in PLACES for e in EXPRS
                       for d in ('u = 1\nv = 2\n', 'u dc.b 1\nv = u-2\n', 'u = v\nv = 3\n', 'u set 0\nv eqm u+2\n')), fails),
        progs('late', 'the same places, 5 expressions, the value known or missing at the end of a chain of 1..8 symbols', late, fails),
        progs('nested', 'a symbol missing or defined later, 0..30 brackets and operators deep, 7 unary operators, 4 places', nested, fails),
        progs('instructions', 'every instruction of every processor, every operand shape, one operand undefined', instructions, fails),
        progs('scopes', 'words of length 1..4 over 8 statements with local labels', names, fails),
        progs('definitions', 'words of length <= %d over %d statements defining and using three symbols' % (4 + k, len(ALPHA)), lambda: texts(' processor 6502\n org 0\n', ALPHA, 4 + k), fails),
        progs('definitions-deep', 'words of length 5 over the first 11 of them', lambda: texts(' processor 6502\n org 0\n', ALPHA[:11], 5, 5), fails),
    ]
