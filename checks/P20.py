"""P20: errors are reported once, where they are, with a failing status; ECHO."""
import itertools

import gen
import isa
import refasm
import scale
from common import Case, Space, diff, filelist, model, progs, real_errors, short, words
from P11 import balanced

P = ' processor 6502\n org $100\n mac m\n dc.b {1}\n endm\n mac e\n dc.b 1\n {1}\n dc.b 2\n endm\n mac n\n nop\n endm\n'
OK = ' dc.b 1\n'

# statements in error: the assembly goes on behind them
ERRORS = [' foo\n', ' err\n', ' dc.b $\n', ' lda.b\n', ' dc.b 1/0\n', ' lda #300\n', ' m\n', ' dc.b 5%0\n', ' sta #1\n', ' lda ($100),y\n', ' bne 5,6\n', ' align 0\n', ' incbin\n',
          ' lda #f+300\n', ' foo 1,2\n', 'l%d foo\n', ' nop.w 5\n', ' incbin "none"\n', ' include "none"\n', ' ldx.w 5,q\n', ' jmp ($10),y\n', ' lda.x 5\n', ' ds.b\n', ' dv undef7 1\n', ' bne .+1000\n', ' processor foo\n', ' processor 68hc11\n', ' dc.b undef\n', ' bpl undef2\n', ' mac n\n nop\n endm\n', 'a%d = 1\na%d = 2\n', ' org $80\n', ' rorg\n', ' repeat -1\n nop\n repend\n', 'b%d nop\nb%d nop\n', ' if undef3\n nop\n endif\n', ' ds undef4\n', ' align undef5\n', ' setsym 5\n', '*/\n', 'eq%d eqm\n', ' echo undef6\n', ' dc.w -32769,65536\n', ' dc.b 256\n', ' dc.b -129\n', 'q%d equ\n', ' set 5\n', ' bit #300\n', ' ldx $1234,y,z\n']

# malformed operands: not modelled, expected where an unknown mnemonic would be
MALFORMED = [' dc.b 1+', ' dc.b +', ' dc.b 1*', ' dc.b &1', ' lda #1+', ' lda 1]', ' lda [1', ' dc.b (1', ' dc.b 1)', ' dc.b \\', ' dc.b `', ' dc.b 1 2', ' dc.b 1a', ' dc.b $g', ' dc.b %2', ' dc.b 09', ' dc.b [1]x', ' dc.b ?', ' dc.b 1?', ' dc.b !', ' dc.b ~', ' dc.b -', ' ds )', ' ds 1+', ' hex 0g', ' hex 0', ' hex 0 1', 'x set )', ' echo )', ' echo 1+', ' dc "a', ' dc.b "a"b"', ' dc.b <', ' dc.b ,', ' dc.b ,1', ' dc.b 1,,2', ' dc.b ==', ' dc.b ||1', ' dc.b [[1]', ' dc.b [1]]', ' lda (1', ' if )\n endif', ' repeat 1+\n repend', ' align )', ' include "a', ' incbin "a', ' bne )', ' lda #)', ' lda #"', ' ldx 1+,y', ' lda (1+),y', ' lda (1+,x)', ' dc.b []', ' dc.b ()', ' dc.b [],1', ' dc.b 1,[]', ' lda #[]', ' lda []', ' dc.b 5~3', ' dc.b 5 ~', 'x set []', ' ds []', ' if []\n endif', ' dc.b 1,2~3', 'l,"q nop', 'l,"q = 1', ' echo "a', ' hex 0g1', ' hex zz', 's,"q set 1', ' nop "', 'a set z,"q', 'a setsym "z,', ' dc.b ' + '[' * 300 + '1' + ']' * 300, ' dc.b ' + '-' * 300 + '1', ' dc.b ' + '1+[' * 250 + '1' + ']' * 250, ' nop ' + ' ' * 1200 + ' ', ' ' + 'x' * 1200]

PLACES = {
    'top': lambda s: ((('a.asm', P + OK + s + OK),), ),
    'include': lambda s: ((('a.asm', P + OK + ' include "i.h"\n' + OK), ('i.h', OK + s + OK)), ),
    'deep': lambda s: ((('a.asm', P + ' include "i.h"\n' + OK), ('i.h', OK + ' include "j"\n'), ('j', '\n\n' + s)), ),
    'if': lambda s: ((('a.asm', P + ' if 1\n' + s + ' else\n' + s + ' endif\n' + OK),), ),
    'skipped': lambda s: ((('a.asm', P + ' if 0\n' + s + ' endif\n' + OK),), ),
    'else': lambda s: ((('a.asm', P + ' if 0\n nop\n else\n' + s + ' endif\n' + OK),), ),
    'repeat': lambda s: ((('a.asm', P + ' repeat 2\n' + OK + s + ' repend\n' + OK),), ),
    'repeat0': lambda s: ((('a.asm', P + ' repeat 0\n' + OK + s + ' repend\n' + OK),), ),
    'macro': lambda s: ((('a.asm', P + ' mac o\n' + OK + s + OK + ' endm\n' + OK + ' o\n' + OK),), ),
    'macro2': lambda s: ((('a.asm', P + ' mac o\n' + OK + s + OK + ' endm\n mac o2\n nop\n o\n endm\n' + OK + ' o2\n' + OK),), ),
    'unused': lambda s: ((('a.asm', P + ' mac o\n' + OK + s + OK + ' endm\n' + OK),), ),
    'mexit': lambda s: ((('a.asm', P + ' mac o\n' + OK + ' mexit\n' + s + OK + ' endm\n' + OK + ' o\n'),), ),
    'incmac': lambda s: ((('a.asm', P + ' include "i.h"\n' + OK + ' o\n'), ('i.h', ' mac o\n' + s + ' endm\n')), ),
    'macinc': lambda s: ((('a.asm', P + ' mac o\n include "i.h"\n endm\n' + OK + ' o\n' + OK), ('i.h', OK + s)), ),
    'callinc': lambda s: ((('a.asm', P + ' mac o\n nop\n' + s + ' endm\n include "i.h"\n' + OK), ('i.h', OK + '\n o\n' + OK)), ),
    'late': lambda s: ((('a.asm', P + ' if f\n' + s + ' endif\n' + OK + 'f = 1\n'),), ),
    'later': lambda s: ((('a.asm', P + ' if f\n' + s + ' endif\n' + OK + 'f = g\ng = h\nh = 1\n'),), ),
    'first': lambda s: ((('a.asm', P + ' ifnconst f\n' + s + ' endif\n' + OK + ' lda g\ng\nf = 1\n'),), ),
    'last': lambda s: ((('a.asm', P + OK + s),), ),
    'noeol': lambda s: ((('a.asm', P + OK + s[:-1]),), ),
    'end': lambda s: ((('a.asm', P + OK + ' end\n' + s),), ),
    'twopass': lambda s: ((('a.asm', P + ' lda fwd\n' + s + ' jmp fwd\nfwd\n' + OK),), ),
    'comment': lambda s: ((('a.asm', P + '/* a\n b */\n' + s + OK),), ),
    'localoff': lambda s: ((('a.asm', P + ' list localoff\n' + s + OK),), ),
    'locinc': lambda s: ((('a.asm', P + ' include "i.h"\n' + OK), ('i.h', OK + ' list localoff\n' + s + OK)), ),
    'locabove': lambda s: ((('a.asm', P + ' list localoff\n include "i.h"\n list localon\n' + OK), ('i.h', OK + s + OK)), ),
    'loconoff': lambda s: ((('a.asm', P + ' list localoff\n list localon\n' + s + OK),), ),
    'locafter': lambda s: ((('a.asm', P + ' include "i.h"\n' + s + OK), ('i.h', OK + ' list localoff\n')), ),
    'offinc': lambda s: ((('a.asm', P + ' list off\n include "i.h"\n' + OK), ('i.h', OK + s + OK)), ),
    'offmac': lambda s: ((('a.asm', P + ' mac o\n' + s + ' endm\n list off\n o\n' + OK),), ),
    'locmac': lambda s: ((('a.asm', P + ' mac o\n list localoff\n' + s + ' endm\n o\n' + OK),), ),
    'bss': lambda s: ((('a.asm', P + ' seg.u z\n org $80\n ds 3\n' + s + ' seg c\n org $400\n' + OK),), ),
    'rorg': lambda s: ((('a.asm', P + ' rorg $600\n' + s + ' rend\n' + OK),), ),
    'afterinc': lambda s: ((('a.asm', P + ' include "i.h"\n' + s + OK), ('i.h', OK + '\n\n' + OK)), ),
    'aftermac': lambda s: ((('a.asm', P + ' m 5\n n\n' + s + OK),), ),
    'afterrep': lambda s: ((('a.asm', P + ' repeat 3\n nop\n\n repend\n' + s + OK),), ),
    'aftercond': lambda s: ((('a.asm', P + ' if 0\n foo\n else\n nop\n endif\n' + s + OK),), ),
    'afterecho': lambda s: ((('a.asm', P + ' echo "text",5\n' + s + ' echo 6\n' + OK),), ),
    'reprep': lambda s: ((('a.asm', P + ' repeat 2\n repeat 2\n' + s + ' repend\n nop\n repend\n' + OK),), ),
    'repmac': lambda s: ((('a.asm', P + ' mac o\n' + OK + s + ' endm\n repeat 2\n o\n repend\n' + OK),), ),
    'macrep': lambda s: ((('a.asm', P + ' mac o\n repeat 2\n' + s + ' repend\n endm\n' + OK + ' o\n' + OK),), ),
    'nolist': lambda s: ((('a.asm', P + ' list off\n' + s + ' list on\n' + OK),), ),
}


def report(item, twice=False):
    """Messages and status as the model says, in the selected format; echo on success.

    twice: a line may have more than one message."""
    files, args = item
    fl = filelist(files)
    real = [a for a in args if a[:2] not in ('-l', '-L')]
    m = model(fl, real, **({'want_list': True} if len(real) < len(args) else {}))
    fmt = next((int(a[2:]) for a in args if a[:2] == '-E'), 0)
    r, = yield [Case([fl[0][0], *args, '-oo'], fl, ('o',))]
    d = diff(m, r, symbols=False)
    if d:
        return d
    if r.rc == 0:
        if r.out != (m.echo + '\nComplete. (0)\n').encode('latin-1'):
            return 'messages of a success: expected %s, got %s' % (short(m.echo), short(r.out))
        return None
    want = [(n, l) for n, l, c, t in m.errors if n is not None]
    got = [(n, l) for n, l, t in real_errors(r.out, fmt)]
    if twice:
        want, got = ([k for k, _ in itertools.groupby(x)] for x in (want, got))
    if want != got:
        return 'reported at %s, expected %s (%s)' % (short(got), short([(n, l, t) for n, l, c, t in m.errors]), short(r.out))
    if not all(t.strip() for n, l, t in real_errors(r.out, fmt)):
        return 'a message without text: %s' % short(r.out)
    if r.rc != 5 and m.rc != 5 and r.rc != m.rc:
        return 'exit status %d, expected %d' % (r.rc, m.rc)
    if b'Complete. (0)' in r.out:
        return 'claims success: %s' % short(r.out)
    return None


def located(item):
    """Item (files, the same with an unknown mnemonic in the place of the statement, format, whether it may end the assembly)."""
    f1, f2, fmt, may = item
    l1, l2 = filelist(f1), filelist(f2)
    r1, r2 = yield [Case([l[0][0], '-E%d' % fmt, '-oo'], l, ('o',)) for l in (l1, l2)]
    for r in (r1, r2):
        if r.rc < 0:
            return 'ended by signal %d' % -r.rc
    if (r1.rc == 0) != (r2.rc == 0) and not (may and r1.rc and b'Aborting' in r1.out and real_errors(r1.out, fmt)):
        return 'exit status %d, with an unknown mnemonic %d' % (r1.rc, r2.rc)
    if r1.rc == 0:
        return None
    a, b = ([k for k, _ in itertools.groupby((n, l) for n, l, t in real_errors(r.out, fmt))] for r in (r1, r2))
    if not a or a != (b[:len(a)] if may and b and b'Aborting' in r1.out else a if not b else b):
        return 'reported at %s, an unknown mnemonic in its place at %s (%s)' % (short(a), short(b), short(r1.out))
    return None


ENDING = (' dc.b ' + '[' * 300 + '1' + ']' * 300, ' dc.b ' + '-' * 300 + '1', ' dc.b ' + '1+[' * 250 + '1' + ']' * 250, ' align )', ' incbin "a', ' include "a')       # something else is wrong as well


def malformed(fmts):
    for e, (k, f), fm in itertools.product(MALFORMED, PLACES.items(), fmts):
        if k == 'noeol' and '\n' in e or e.count('"') % 2 and ('mac' in k or k in ('skipped', 'repeat0', 'else', 'first', 'late', 'later', 'unused', 'mexit', 'callinc')):
            continue
        if len(e) > 1000 and k not in ('top', 'include', 'macinc'):
            continue
        may = e in ENDING or e.count('[') + e.count('(') > e.count(']') + e.count(')')
        one, two = (x if k == 'noeol' or may else ((x[0][0], x[0][1] + ' bar\n'),) + tuple(x[1:]) for x in (f(e + '\n')[0], f(' foo\n' + ('\n' if '\n' in e else ''))[0]))
        yield (one, two, fm, may)


TOKENS = ['5', 'a', '"s"', '~', '-', '<', '*', '+', '==', '?', '/', '[', ']']


def surely_malformed(w):
    """Brackets that do not match, or not one operand more than there are binary operators."""
    op, args, binary, depth = True, 0, 0, 0
    for t in w:
        if t in ('5', 'a', '"s"') or t == '*' and op:
            args += 1
            op = False
        elif t == '[':
            depth += 1
        elif t == ']':
            depth -= 1
            if depth < 0 or not args:
                return True
            op = False
        elif t in '~-<' and op:
            pass
        elif t == '~':
            return True
        else:
            binary += 1
            op = True
    return depth != 0 or args != binary + 1


def opened(w):
    depth = 0
    for t in w:
        depth = depth + 1 if t == '[' else max(depth - 1, 0) if t == ']' else depth
    return depth > 0


def tokens(n):
    """Every word over the tokens of expressions that cannot be one."""
    for w in words(TOKENS, n, 1):
        if surely_malformed(w):
            for p in (' dc.l %s\n', ' lda #%s\n', ' dc.b 1,%s,2\n', 'v = %s\n', ' if %s\n endif\n')[:5 if len(w) < n else 2]:
                t = p % ' '.join(w)
                yield (' processor 6502\n org 0\na = 3\n nop\n' + t + ' dc.b 1\n bar\n', ' processor 6502\n org 0\na = 3\n nop\n' + (' foo\n' + '\n' * (t.count('\n') - 1)) + ' dc.b 1\n bar\n', 0, opened(w))


def num(s, i):
    return s.replace('%d', str(i)) if '%d' in s else s


def places(fmts):
    for e, (k, f), fm in itertools.product(ERRORS, PLACES.items(), fmts):
        if k == 'noeol' and '\n' in e[:-1]:
            continue
        if '*/' in e and k in ('skipped', 'repeat0', 'end', 'first', 'late', 'later'):
            continue
        if e.startswith(' mac') and k in ('macro', 'macro2', 'unused', 'mexit', 'incmac', 'callinc'):
            continue
        if e == ' include "none"\n' and k in ('macinc',):
            continue
        yield (f(num(e, 1))[0], fm)


def several(n, fmt):
    """Every word of errors and good lines: all are reported."""
    al = [e for e in ERRORS if e not in (' processor foo\n', ' processor 68hc11\n', ' include "none"\n', '*/\n')]
    al += [OK, ' lda fw\n', ' echo "x"\n']
    for w in words(al, n, n):
        yield (P + ''.join(num(s, i) for i, s in enumerate(w)) + OK + 'fw\n', fmt)


def counts():
    """Number of errors, lengths of names: message buffers grow."""
    for n in list(range(1, 40)) + [100, 255, 256, 257, 1000, 1023, 1024, 3000]:
        yield (P + ' foo\n' * n + OK, ())
        yield (P + ' lda #300\n' * n + OK, ('-E1',))
        yield (P + ' repeat %d\n err\n repend\n' % n, ('-E2',))
        yield (P + '\n' * n + ' err\n' + OK, ())
        yield (P + '\n' * n + ' err\n' + OK, ('-E1',))
        yield (P + '\n' * n + ' err\n' + OK, ('-E2',))
        yield (P + ' echo "%s"\n' % 'e' * n if n < 900 else P, ())
        yield (P + ' echo "some text"\n' * n, ())
        yield (P + ' echo "%s"\n' % ('e' * min(n, 900)) + ' echo %d,f\nf = 5\n' % n, ())
        yield (P + ' echo "%s"\n' % ('e' * min(n, 900)) * 40, ())
        yield (P + ' %s\n' % ('f' * min(n, 900)) + OK, ())
        if n < 200:
            nm = 'n' * n
            for f in ('-E0', '-E1', '-E2'):
                yield (((nm, P + ' foo\n' + OK),), (f,))
                yield ((('a.asm', P + ' include "%s"\n' % nm + OK), (nm, ' err\n\n err\n')), (f,))
    for n in range(15 * 1024, 17 * 1024, 13):
        k, q = divmod(n, 900)
        yield (P + ' echo "%s"\n' % ('e' * 898) * k + ' echo "%s"\n' % ('g' * q) + ' echo "end"\n', ())
    for n in range(560, 640):
        yield (P + ' foo\n' * n + ' err\n', ())
        yield (P + ' foo\n' * n + ' err\n', ('-E2',))


LATE = [' dc.b %s', ' lda #%s', ' lda.b %s', ' bne %s', ' sta (%s),y', ' align %s-300', ' if %s\n foo\n endif', ' if %s == 300\n err\n endif', ' repeat %s-299\n bar\n repend', ' if %s\nk = 5\nk = 6\n endif', ' ds %s-301', ' stx %s,y', ' org $100-%s\n dc.b 1']


def late_items():
    """Errors that show only when a value has become known, after 1..13 passes."""
    for n in range(14):
        chain = ''.join('c%d = c%d\n' % (i, i + 1) for i in range(n)) + 'c%d = 300\n' % n
        for a in LATE:
            for o in ((), ('-E1',), ('-E2',)):
                yield (P + ' dc.b 1\n' + a % 'c0' + '\n nop\n' + chain + 'z nop\n', ('-p30',) + o)
                if n in (0, 5, 8, 9):
                    for b in LATE:
                        yield (P + ' dc.b 1\n' + a % 'c0' + '\n' + b % 'c1' + '\n nop\n' + chain + ('c1 = 300\n' if n == 0 else ''), ('-p30',) + o)


def abort_items():
    """Errors that end the assembly at once, after others, in every format and place."""
    ab = [' include "none"\n', ' incbin "none"\n', ' mac n\n nop\n endm\n', ' mac q\n nop\n', ' ds undef\n', ' org undef\n', ' align undef\n', ' lda #1\n', ' mac r\n r\n endm\n r\n', ' mac\n endm\n', ' repeat undef\n nop\n repend\n', ' echo undef\n', ' rorg undef\n', ' incbin "b",undef\n', ' incbin "b",99\n', ' seg.u undef\n', ' if undef\n endif\n', 'x set undef\n', ' dc.b undef\n', ' dv undef 1\n', ' err\n', ' processor x\n', ' /* open\n', 'e eqm e\n dc.b e\n', ' end\n']
    for a, b, c, f in itertools.product(['', ' foo\n', ' echo "t"\n', ' lda fw\n'], ab, ['', ' bar\n', OK], ('-E0', '-E1', '-E2')):
        yield ((('a.asm', P + a + b + c + 'fw\n'), ('self', ' include "self"\n'), ('b', b'abc')), (f,))
        yield ((('a.asm', P + a + ' include "i"\n' + c + 'fw\n'), ('i', '\n' + b), ('self', ' include "self"\n'), ('b', b'abc')), (f,))
        if 'mac' not in b:
            yield ((('a.asm', P + ' mac o\n' + a + b + ' endm\n o\n' + c + 'fw\n'), ('self', ' include "self"\n'), ('b', b'abc')), (f,))


ARGS = ['1', '"text"', 'f', 'f+1', '.', 's', 'e', '-1', '"a;b"', '$ffffffff', '""', '"a b"', 'x', '[f]d', '[x]d', "'a", 'undef', '%1010', 'f,f', '"q",1', '(f)', '<f', '~0', '[f==5]']


def echo_items(n):
    """ECHO with every argument list up to n, in contexts, with final values."""
    for k in range(64):
        for d in (-1, 0, 1):
            for v in ('%d' % (2 ** k + d), '-%d' % (2 ** k + d) if k < 63 else '-5', '$%x' % (2 ** k + d if k < 63 else 7), '-%d' % (3 * 2 ** k // 4)):
                if v not in ('-%d' % (2 ** 63 + d), '%d' % 2 ** 63, '%d' % (2 ** 63 + 1)):
                    yield (P + ' echo %s,"t",f\nf = %s\n echo f\n' % (v, v), ())
    pre = P + 'x set 1\ns = "str"\nf0 = 2\ne eqm x+1\n'
    for w in words(ARGS, n, 1):
        yield (pre + ' echo ' + ','.join(w) + '\nf = 5\n', ())
    for a in ARGS:
        for b in (' repeat 2\nx set x+1\n echo %s\n repend\n', ' mac o\n echo %s\n endm\n o\n o\n', ' if 0\n echo %s\n endif\n', ' if f-5\n echo %s\n else\n echo "n",%s\n endif\n', ' lda fw\n echo %s\nfw\n echo fw\n', ' include "i"\n echo %s\n', ' echo %s\n foo\n', ' list off\n echo %s\n', 'l echo %s\n', '.l echo %s\n', '\techo\t%s ; c\n', ' ECHO %s\n', ' #echo %s\n', ' .echo %s\n', ' mac o2\n echo {1}\n endm\n o2 %s\n'):
            for args in ((), ('-p20',), ('-f3',)):
                if '%s' in b:
                    t = b.replace('%s', a)
                    yield ((('a.asm', pre + t + 'f = 5\n'), ('i', ' echo "inc"\n')), args)


EW = [' echo x\n', ' echo "a"\n', 'x set x+1\n', ' echo fw,f\n', ' lda fw\n', ' repeat 2\n', ' repend\n', ' if f-5\n', ' else\n', ' endif\n', ' o\n', ' include "i"\n', ' foo\n', ' err\n', ' dc.b x\n']


def echo_words(n):
    for w in balanced(EW, n):
        yield ((('a.asm', P + ' mac o\n echo "o",x\n endm\nx set 1\n' + ''.join(w) + 'fw\nf = 5\n'), ('i', ' echo "i"\nx set x+1\n')), ('-E2',) if len(w) & 1 else ())


def success_items():
    """Things near an error that are none."""
    for t in [' lda #255\n', ' lda #-128\n', ' dc.b 255,-128\n', ' dc.w 65535,-32768\n', ' bne .+129\n', ' bne .-126\n', ' if 0\n foo\n endif\n', 'a = 1\na = 1\n', ' org $100\n', ' org .\n', ' repeat 0\n foo\n repend\n', ' mac u\n foo\n endm\n', ' lda f+200\n', ' dc.b f,g-g\n', ' bne g\n', ' /* foo */\n', ';foo\n', ' dc.b 1 ; foo\n', ' echo\n', ' m 1,2\n', ' lda (255),y\n', ' ds 0\n', ' align 1\n', ' hex\n', ' hex 00\n', ' processor 6502\n', ' PROCESSOR 6502\n', 'l\nl2\n', ' include "e"\n', ' incbin "e"\n', ' end\n foo\n', ' seg x\n', ' subroutine\n', 's subroutine\n', ' err ;' [:1] + '\n', ' dc.l $ffffffff\n']:
        for args in itertools.chain.from_iterable(((), (a,)) for a in ('-E0', '-E1', '-E2', '-f1', '-f2', '-f3', '-ll', '-Ll')):
            yield ((('a.asm', P + t + 'f = 5\ng\n'), ('e', '')), args)


def operand_items(every):
    """Instructions with operands and extensions of every form, most of them illegal, between a good line and a second error."""
    for cpu in gen.CPUS:
        seen = set()
        for n in gen.mnemonics(cpu):
            ins = isa.TABLE[cpu][n]
            kind = (tuple(sorted(ins.ops)), ins.rel, ins.mask, ins.imod)
            if kind in seen:
                continue
            seen.add(kind)
            for syn in [x for x in gen.syntaxes(cpu) if x != ',sp' or len(gen.syntaxes(cpu)) > len(gen.SYNTAX) + 2] + gen.SYNTAX_LIST:
                for ext in ('', '.w', '.b', '.wx', '.by', '.ind', '.0', '.0x') + (('.bx', '.wy', '.0y', '.l', '.u', '.i', '.d', '.e', '.r', '.s') if every else ()):
                    for v in ('$12', '$1234', '9', '-300', '$12345', 'undef') if '%s' in syn else ('',):
                        yield (gen.head(cpu) + ' nop\n %s%s %s\n nop\n foo\n' % (n, ext, syn.replace('%s', v)), ())
            if ins.rel or ins.mask or ins.imod:
                vs = ('0', '7', '8', '-1', '255', '256', '-300', 'undef')
                for a, b in itertools.product(vs, vs):
                    for c in ('', ',.', ',.+300', ',.-300', ',undef', ',255', ',256'):
                        yield (gen.head(cpu) + ' nop\n %s %s,%s%s\n nop\n foo\n' % (n, a, b, c), ())
    for d in ('dc', 'dc.b', 'dc.w', 'dc.l', 'dc.s', 'byte', 'word', 'long', 'ds', 'ds.w', 'dv q', 'dv.w q', 'dv.s q', 'dv', 'dv n', 'dv.b n', 'align', 'org', 'rorg', 'incbin', 'repeat', 'if', 'echo', 'x set', 'x =', 'x equ', 'x eqm'):
        for v in ('', '1', '-1', '255', '256', '-255', '-256', '65535', '65536', '-65535', '-65536', '$ffffffff', '$100000000', '"s"', 'undef', '1,2', '1,300', '1,70000', '1,"s"', '"s",70000', '0', 'n', '1/0'):
            for o in ((), ('-S',), ('-E2', '-S')):
                if d == 'ds' and not o:
                    for e in (' org $200,undef\n', ' org $200,1\n', ' mac n\n nop\n endm\n mac n\n nop\n endm\n', ' mac lda\n nop\n endm\n', ' lda $12345\n', ' jmp $12345\n', ' lda $12345,x\n', ' jmp -70000\n'):
                        for o2 in ((), ('-S',), ('-E1', '-S')):
                            yield (P + 'n = 5\n' + e + ' dc.b %s\n foo\n' % (v or '1'), o2)
                t = ' ' + d if d[0] != 'x' or d[1] != ' ' else d
                if d == 'rorg' and v == '' or d in ('x equ', 'x =', 'x eqm', 'if', 'repeat') and (v == '' or '"' in v or ',' in v) or d == 'repeat' and len(v) > 4:
                    continue
                yield (P + 'q eqm ..\nn = 5\n%s %s\n%s nop\n foo\n' % (t, v, ' repend\n' if d == 'repeat' else ' endif\n' if d == 'if' else ''), o)


def modelled(item):
    """As report, where the model speaks."""
    try:
        model(filelist(item[0]), item[1])
    except refasm.Unsupported:
        return None
    return (yield from report(item, True))


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    fm = [('-E0',), ('-E1',), ('-E2',), ('-E2', '-ll'), ('-E1', '-f3')]
    return [
        progs('places', '%d errors in %d places, formats of messages' % (len(ERRORS), len(PLACES)), lambda: places(fm), report),
        progs('tokens', 'words of length 1..4 over %d tokens of expressions that cannot be an expression, in up to 5 places' % len(TOKENS), lambda: tokens(4), located),
        progs('malformed', '%d malformed operands in %d places, formats' % (len(MALFORMED), len(PLACES)), lambda: malformed((0, 1, 2)), located),
        progs('several2', 'pairs of errors', lambda: itertools.chain(several(2, ('-E0',)), several(2, ('-E1',)), several(2, ('-E2',))), report),
        progs('several3', 'triples of errors and good lines', lambda: itertools.chain(several(3, ('-E0',)), several(4, ('-E2',)) if k else ()), report),
        progs('counts', 'numbers of errors and messages, line numbers, name lengths', counts, report),
        progs('aborts', 'errors that end the assembly, after and before others', abort_items, report),
        progs('late', '%d errors and their pairs, known only after up to 14 passes' % len(LATE), late_items, report),
        progs('operands', 'every kind of instruction x operand forms x extensions x values, directives x values, before a second error', lambda: operand_items(k), modelled),
        progs('echo', 'argument lists of length 1..%d, places' % (2 + k), lambda: echo_items(2 + k), report),
        progs('echo-words', 'balanced programs of up to %d statements out of %d' % (4 + k, len(EW)), lambda: echo_words(4 + k), report),
        progs('good', 'sources next to an error, all options', success_items, report),
        Space('scale-echo', 'up to %d messages' % (33000 if k == 0 else 70000), lambda: scale.echoes([n for n in scale.counts(k) if n <= (70000 if k else 33000)]), scale.exactly, chunk=1),
        Space('scale', 'up to 131073 lines before an error, errors', lambda: scale.errors(scale.counts(tier == 'thorough')), scale.reported, chunk=1),
    ]
