"""P17: reporting options change neither status nor output."""
import itertools

import gen as G
import isa
from common import Case, bytediff, diff, filelist, model, progs, short, words

P = ' processor 6502\n org $100\nx set 0\n mac m\n dc.b {1}\n.l lda .l\n endm\n'
TAIL = ' dc.w .,x\nf = $33\ng\n'

STMTS = [' dc.b x\n', 'x set x+1\n', ' lda f\n', ' lda g\n', ' m 7\n', ' ds 5\n', ' org $180\n', ' if f\n dc.b 1\n else\n dc.b 2,3\n endif\n', ' repeat 2\n dc.b x\nx set x+1\n repend\n', ' include "i"\n', ' incbin "b"\n', ' echo "e",x\n', ' list off\n', ' list on\n', 'k1 list off\n', 'k2 list on\n', ' dc.w k1,k2\n', ' seg.u u\n org 3\nv ds 2\n seg c\n org $300\n', ' rorg $500\n', ' rend\n', ' bne g\n', ' jmp u1\n', ' dc.b 300\n', ' foo\n', ' lda #g\n', 'a = 1\n', 'a = 2\n', ' err\n', ' align 16\n', ' subroutine\n', 'n,x set 3\n', 'e eqm .+1\n', ' dc.w e\n', ' dc "text;"\n', ' include "none"\n', ' hex 01 02\n', ' trace on\n', ' list localoff\n', ' dc.l x\n', ' processor 68hc11\n', ' if g-f\n', ' endif\n', '1$ nop\n', ' bne 1$\n', ' dc.w g-$100\n', ' end\n', ' lda.b g\n', ' mac m\n nop\n endm\n']
FILES = (('i', ' dc.b $44\n nop ; c\n list off\n nop\n list on\n'), ('b', bytes(range(20))))

REPORT = [('-ll',), ('-Ll',), ('-ss',), ('-T0',), ('-T1',), ('-T2',), ('-v0',), ('-v1',), ('-v2',), ('-v3',), ('-v4',), ('-d0',), ('-d1',), ('-E0',), ('-E1',), ('-E2',)]
EVERY = [('-Ll', '-ss', '-v4', '-d1', '-T1', '-E2'), ('-ll', '-ss', '-T2', '-v1', '-E1'), ('-v4', '-d1'), ('-ss', '-T1'), ('-ss', '-T2'), ('-Ll', '-v4')]
PASSES = [('-p20',), ('-p100', '-ll'), ('-P20',), ('-p20', '-ss', '-v4')]
STRICT = [('-S',), ('-S', '-ll', '-ss')]


def relate(item):
    """Item (files, args, option sets, option sets allowing more passes, option sets turning on checks)."""
    files, args, rep, pas, stri = item
    m = model(files, args)
    alls = [()] + list(rep) + list(pas) + list(stri)
    rr = yield [Case(['a.asm', *args, '-oo', *o], files, ('o',)) for o in alls]
    base = rr[0]
    if base.rc < 0:
        return 'ended by signal %d' % -base.rc
    if (m.rc == 0) != (base.rc == 0) or m.rc == 0 and m.out != base.files[0]:
        return diff(m, base, symbols=False)
    for o, r in zip(alls[1:], rr[1:]):
        if r.rc < 0:
            return 'with %s: ended by signal %d' % (' '.join(o), -r.rc)
        if o in stri:
            if r.rc == 0 and (base.rc or r.files[0] != base.files[0]):
                return 'with %s: a success with other output (status %d without)' % (' '.join(o), base.rc)
            continue
        if o in pas and base.rc:
            continue
        if r.rc != base.rc:
            return 'with %s: exit status %d, without %d' % (' '.join(o), r.rc, base.rc)
        if r.files[0] != base.files[0]:
            return 'with %s: %s' % (' '.join(o), bytediff(base.files[0] or b'', r.files[0]))
    return None


def usable(w):
    d = 0
    for s in w:
        if s == ' if g-f\n':
            d += 1
        elif s == ' endif\n':
            d -= 1
            if d < 0:
                return False
    if ' processor 68hc11\n' in w:
        return len(w) == 1
    if ' rend\n' in w and ' rorg $500\n' not in w:
        return False
    return True


def short_words(full):
    n3 = 6 if full else 2
    for w in words(STMTS, 3, 1):
        if usable(w) and (len(w) < 3 or len(set(w)) == 3):
            yield ((('a.asm', P + ''.join(w) + TAIL),) + FILES, (), tuple(REPORT) if len(w) < 2 else tuple(EVERY[:n3 if len(w) > 2 else 6]), tuple(PASSES[:1] if len(w) > 2 else PASSES), tuple(STRICT[:1]))


def pairs():
    """All pairs of reporting options, both orders, on programs with every feature."""
    progs_ = [[0, 2, 4, 7, 8, 9, 10, 11], [1, 3, 5, 6, 17], [12, 0, 13, 4, 25], [14, 26, 27], [15, 0, 16, 28, 29], [20, 21, 22, 23], [18, 19, 0], [31, 0], [24, 0, 4], [33, 0, 4, 8], [34, 4, 8], [43, 0]]
    for ix in progs_:
        t = P + ''.join(STMTS[i] for i in ix) + TAIL
        for fmt in ('-f1', '-f2', '-f3'):
            ps = [a + b for a, b in itertools.permutations(REPORT, 2)]
            for i in range(0, len(ps), 24):
                yield ((('a.asm', t),) + FILES, (fmt,), tuple(ps[i:i + 24]), tuple(PASSES), tuple(STRICT))
    # every subset of one value of each option
    dims = [(None, '-ll', '-Ll'), (None, '-ss'), (None, '-T1', '-T2'), (None, '-v1', '-v4'), (None, '-d1'), (None, '-E1', '-E2')]
    subs = [tuple(x for x in c if x) for c in itertools.product(*dims)]
    for ix in progs_:
        t = P + ''.join(STMTS[i] for i in ix) + TAIL
        for i in range(0, len(subs), 24):
            yield ((('a.asm', t),) + FILES, ('-f2',), tuple(s for s in subs[i:i + 24] if s), (), ())


def long_passes():
    """Sources needing 1..14 passes (chains of forward references), with limits around."""
    for n in range(0, 15):
        chain = ''.join('a%d = a%d+1\n' % (i, i + 1) for i in range(n))
        t = ' processor 6502\n org $100\n' + (' dc.b a0\n' if n else '') + chain + 'a%d = 1\n' % n
        for p in range(1, 16):
            yield ((('a.asm', t),), ('-p%d' % p,), tuple(REPORT), (), tuple(STRICT))
        yield ((('a.asm', t),), (), tuple(REPORT + EVERY), tuple(PASSES), tuple(STRICT))


CPUS = [('6502', ' lda #1\n lda $12\n bne .\n jmp ($1234)\n'), ('65c02', ' stz 5\n bra .\n'), ('68hc11', ' ldaa #1\n ldx 5\n bset 3,1\n bra .\n'), ('6803', ' ldaa 1\n ldd 5\n'), ('hd6303', ' xgdx\n'), ('68705', ' lda #1\n bset 1,5\n brset 1,5,.\n'), ('68908', ' lda #1\n cbeq 5,.\n mov 5,6\n'), ('f8', ' li 5\n lr a,1\n br .\n'), ('68hc11', ' org 5\n'), ('6502', '')]


def forms():
    """Every instruction and operand shape of every processor: strict mode and reporting change no byte."""
    for cpu in G.CPUS:
        for n in G.mnemonics(cpu):
            for syn in G.syntaxes(cpu) + ['%s,%s', '%s,%s,%s']:
                for v in ('0', '1', '$12', '$ff', '$100', '$1234', '-1', 'f', 'g', '.') if '%s' in syn else ('',):
                    yield (((('a.asm', G.head(cpu) + ' %s %s\n dc.b $ee\nf = 0\ng = $234\n' % (n, G.fill(syn, [v, '1', '.']))),)), (), (('-ll', '-v1'),), (), (('-S',),))
    for n in sorted(set(isa.F8_BYTE) | set(isa.F8_WORD) | set(isa.F8_SREG) | set(isa.F8_PORT) | {'lis', 'lisl', 'lisu', 'sl', 'sr'} | set(isa.F8_BRANCH)):
        for v in ('0', '1', '7', '$12', '$ff', '$100', '$1234', '-1', 'f', 'g', '.'):
            yield (((('a.asm', G.head('f8') + ' %s %s\n dc.b $ee\nf = 0\ng = $234\n' % (n, v)),)), (), (('-ll', '-v1'),), (), (('-S',),))


def cpus():
    for c, b in CPUS:
        for fmt in ('-f1', '-f2', '-f3'):
            yield ((('a.asm', ' processor %s\n org $100\n%s dc.w 5\n' % (c, b)),), (fmt,), tuple(REPORT + EVERY), tuple(PASSES), tuple(STRICT))


def spaces(tier):
    full = tier == 'thorough'
    return [
        progs('programs', 'words of length 1..3 over %d statements x reporting options' % len(STMTS), lambda: short_words(full), relate, chunk=8),
        progs('pairs', 'all ordered pairs and all combinations of reporting options x 12 programs', pairs, relate, chunk=4),
        progs('passes', 'sources needing 1..15 passes x limits 1..15 x options', long_passes, relate, chunk=8),
        progs('forms', 'every instruction and operand shape of every processor x 10 values, plain, listed and strict', forms, relate),
        progs('processors', 'every processor x format x options', cpus, relate, chunk=2),
    ]
