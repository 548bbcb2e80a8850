"""P23: the result depends only on the source, its files and the options."""
import itertools

import gen
from common import Case, Space, bytediff, filelist, model, short, words
from P17 import FILES, STMTS, TAIL, CPUS, usable, P

E1 = {'MALLOC_PERTURB_': '85', 'VF_STACK': '170', 'VF_TIME': '40000000', 'VF_ANYENV': '1', 'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'de_DE', 'TZ': 'Asia/Tokyo', 'HOME': '/nonexistent', 'PATH': '', 'DASM': '-f3', 'DASMFLAGS': '-f3', 'TMPDIR': '/x', 'INCLUDE': 'd', 'PWD': '/', 'USER': 'x', 'COLUMNS': '10', 'TERM': 'dumb', 'POSIXLY_CORRECT': '1', 'SOURCE_DATE_EPOCH': '0'}
E2 = {'MALLOC_PERTURB_': '255', 'VF_STACK': '255', 'VF_TIME': '-900000000', 'VF_ANYENV': 'd', 'PADDING': 'x' * 3000}
E3 = {'MALLOC_PERTURB_': '254', 'VF_STACK': '1', 'VF_ANYENV': '-f2 -v4 -DZ=3'}
ME = {'MSAN_OPTIONS': 'abort_on_error=1:poison_in_dtor=0'}
VARIANTS = {'dasm': ('plain', 'dasm', {}), 'ftohex': ('plain', 'ftohex', {}), 'dasm1': ('plain', 'dasm', E1), 'dasm2': ('plain', 'dasm', E2), 'dasm3': ('plain', 'dasm', E3),
            'mdasm': ('msan', 'dasm', ME), 'mftohex': ('msan', 'ftohex', ME), 'ftohex1': ('plain', 'ftohex', E1)}
NAMES = ('o', 'l', 's')
STALE = (('o', b'\xaa' * 5000), ('l', b'old list\n' * 500), ('s', b'old symbols\n' * 500))
OLD1 = (('o', b''), ('l', b'x'), ('s', b'--- Symbol List\n'))


def differs(a, b, what):
    if b.rc < 0:
        return '%s: ended by signal %d: %s' % (what, -b.rc, short(b.err[:400], 500))
    if a.rc != b.rc:
        return '%s: exit status %d, otherwise %d' % (what, b.rc, a.rc)
    if a.out != b.out:
        return '%s: messages %s, otherwise %s' % (what, short(b.out), short(a.out))
    if a.err != b.err:
        return '%s: standard error %s, otherwise %s' % (what, short(b.err), short(a.err))
    for n, x, y in zip(NAMES, a.files, b.files):
        if x is None and b.rc and y in (dict(STALE)[n], dict(OLD1)[n]):
            continue                        # a run that gives up may leave an old file alone
        if x != y:
            return '%s: file %s: %s' % (what, n, bytediff(x or b'', y))
    return None


def again(progs_):
    """Item (files, args): the same from every environment, memory contents and old files."""
    def script(item):
        files, args = item
        fl = filelist(files)
        a = [fl[0][0], *args, '-oo', '-ll', '-ss']
        m = model(fl, args)
        base, = yield [Case(a, fl, NAMES)]
        if base.rc < 0:
            return 'ended by signal %d' % -base.rc
        if (m.rc == 0) != (base.rc == 0) or m.rc == 0 and m.out != base.files[0]:
            return 'exit status %d, expected %d, or other output' % (base.rc, m.rc)
        rr = yield [Case(a, fl + (STALE if p in ('dasm', 'dasm2') else OLD1 if p == 'dasm3' else ()), NAMES, prog=p) for p in progs_]
        for p, r in zip(progs_, rr):
            d = differs(base, r, {'dasm': 'old output files', 'mdasm': 'memory sanitizer'}.get(p, 'other memory and environment (%s)' % p))
            if d:
                return d
        return None
    return script


ALL = again(('dasm', 'dasm1', 'dasm2', 'dasm3'))
FEW = again(('dasm', 'dasm1'))
MSAN = again(('mdasm',))


def programs(n):
    for w in words(STMTS, n, n):
        if usable(w):
            yield ((('a.asm', P + ''.join(w) + TAIL),) + FILES, ())


def formats(n):
    for w in words(STMTS, n, 1):
        if usable(w):
            for a in (('-f2',), ('-f3',), ('-v4', '-T1'), ('-Ll',), ('-Ll', '-f3', '-T1'), ('-S', '-E1'), ('-v2', '-f3', '-E2')):
                yield ((('a.asm', P + ''.join(w) + TAIL),) + FILES, a)


def decoys(n):
    """Files of the same name in directories that only the environment could name."""
    st = [' include "i"\n', ' include "j"\n', ' incbin "b"\n', ' include "n"\n', ' incdir "e"\n', ' dc.b 9\n']
    there = (('d/i', ' dc.b $66\n'), ('d/j', ' dc.b $67\n'), ('d/b', b'decoy'), ('d/n', ' dc.b $68\n'), ('1/i', ' dc.b $69\n'), ('1/n', ' dc.b $6a\n'), ('e/i', ' dc.b 1\n'), ('e/b', b'xyz'), ('j', ' dc.b 2\n'), ('d/a.asm', ' dc.b 5\n'))
    for w in words(st, n, 1):
        for a in ((), ('-Ie',), ('-Ie', '-f3'), ('-Inone',), ('-f2',)):
            yield ((('a.asm', P + ''.join(w)),) + there, a)


def same_result(script_args):
    """Item (files, args, other args): same in every respect."""
    files, args, others = script_args
    fl = filelist(files)
    base, *rr = yield [Case([fl[0][0], *a], fl, NAMES) for a in (args, *others)]
    if base.rc < 0:
        return 'ended by signal %d' % -base.rc
    for o, r in zip(others, rr):
        d = differs(base, r, ' '.join(o))
        if d:
            return d
    return None


def orders():
    """Every order of independent options."""
    texts = [''.join(STMTS[i] for i in ix) for ix in ([0, 2, 4, 7, 8, 9, 10, 11], [1, 3, 5, 6, 17], [12, 0, 13, 4, 25], [14, 26, 27], [15, 0, 16, 28, 29], [20, 21], [31, 0], [24, 0, 4], [43, 0], [])]
    sets = [('-f3', '-oo', '-ll', '-ss', '-v1'), ('-f2', '-oo', '-ss', '-T1', '-Dq=5'), ('-oo', '-E1', '-ll', '-p12', '-Iinc'), ('-oo', '-Da=1', '-Db=2', '-Mc=a+b', '-f1'), ('-ll', '-ss', '-T2', '-oo', '-S'), ('-R', '-oo', '-f3', '-E2', '-m1000'), ('-v4', '-oo', '-P6', '-ss', '-E2'), ('-d1', '-oo', '-v0', '-ll', '-f2')]
    for t, s in itertools.product(texts, sets):
        if '-Mc=a+b' in s:
            ps = [p for p in itertools.permutations(s) if p.index('-Mc=a+b') > p.index('-Da=1') and p.index('-Mc=a+b') > p.index('-Db=2') and p.index('-Da=1') < p.index('-Db=2')]
        else:
            ps = list(itertools.permutations(s))
        if '-d1' in s:
            ps = [p for p in ps if True]
        for i in range(0, len(ps), 30):
            yield ((('a.asm', P + t + TAIL),) + FILES, s, tuple(ps[i:i + 30]))


def where(item):
    """Item (files, args): other names and directories of the source give the same bytes and symbols."""
    files, args = item
    fl = filelist(files)
    names = ['a.asm', './a.asm', 'd/a.asm', 'd/../a.asm', 'A_longer_name.s', 'd/e/f/g', 'a', '.a', 'x y']
    cases = []
    for n in names:
        real = n.replace('d/../', '').replace('./', '')
        fs = ((real, fl[0][1]),) + fl[1:] + ((('d/q', ''),) if '..' in n else ())
        cases.append(Case([n, *args, '-oo', '-ss'], fs, ('o', 's')))
    for o in (('p/o', 'p/s'), ('./o', './s'), ('o.bin', 'a.sym'), ('out put', 's y')):
        cases.append(Case(['a.asm', *args, '-o' + o[0], '-s' + o[1]], fl + (('p/q', ''),), (o[0].replace('./', ''), o[1].replace('./', ''))))
    # unrelated files and a file of the same name as a symbol, segment or mnemonic
    cases.append(Case(['a.asm', *args, '-oo', '-ss'], fl + (('nop', 'x'), ('m', 'x'), ('a.lst', 'x'), ('a.out', 'x'), ('x', 'x'), ('i.h', ' nop\n'), ('d/i', ' err\n'), ('INCODE', 'x')), ('o', 's')))
    rr = yield cases
    base = rr[0]
    for c, r in zip(cases[1:], rr[1:]):
        if (r.rc, r.files) != (base.rc, base.files):
            return '%s: exit status %d, %s; as a.asm %d' % (' '.join(c.args), r.rc, short(r.out[-200:]), base.rc)
    return None


def splits(n):
    """Every way of moving consecutive lines of a program into a file."""
    al = [' dc.b x\n', 'x set x+1\n', ' lda f\n', 'l%d lda g\n', ' m 7\n', ' ds 5,1\n', ' if f\n dc.b 1\n else\n dc.b 2,3\n endif\n', ' repeat 2\n dc.b x\nx set x+1\n repend\n', ' incbin "b"\n', ' rorg $500\n', ' bne g\n', ' jmp h\n', ' subroutine\n', '.l%d bne .l%d\n', ' mac k%d\n dc.b {1}\n endm\n k%d 5\n', 'e%d eqm .+1\n dc.w e%d\n', ' align 8\n', ' seg.u u\n org 3\nv%d ds 2\n seg c\n org $300\n', '1$ bne 1$\n', ' org $180\n', ' echo x\n']
    for w in words(al, n, n):
        if (' org $180\n' in w or any('seg.u' in s for s in w)) and (w.count(' org $180\n') + sum('seg.u' in s for s in w) > 1):
            continue
        if w.count('1$ bne 1$\n') > 1:
            continue
        ls = [s.replace('%d', str(i)) for i, s in enumerate(w)]
        whole = P + ''.join(ls) + TAIL + 'h\n'
        alts = []
        for i in range(n):
            for j in range(i + 1, n + 1):
                inc = ''.join(ls[i:j])
                main = P + ''.join(ls[:i]) + ' include "z"\n' + ''.join(ls[j:]) + TAIL + 'h\n'
                alts.append((('a.asm', main), ('z', inc)))
        alts.append((('a.asm', ' include "z"\n'), ('z', whole)))
        alts.append((('a.asm', ''.join(' include "z%d"\n' % i for i in range(n + 2))), ('z0', P), *[('z%d' % (i + 1), s) for i, s in enumerate(ls)], ('z%d' % (n + 1), TAIL + 'h\n')))
        yield (whole, tuple(alts))


def split(item):
    whole, alts = item
    fx = FILES
    m = model((('a.asm', whole),) + fx, ())
    base, *rr = yield [Case(['a.asm', '-oo', '-ss'], (('a.asm', whole),) + fx, ('o', 's'))] + [Case(['a.asm', '-oo', '-ss'], a + fx, ('o', 's')) for a in alts]
    if (m.rc == 0) != (base.rc == 0) or m.rc == 0 and m.out != base.files[0]:
        return 'exit status %d, expected %d, or other output' % (base.rc, m.rc)
    for a, r in zip(alts, rr):
        if (r.rc, r.files) != (base.rc, base.files):
            return 'split as %s: exit status %d, otherwise %d, or other files' % (short(a, 400), r.rc, base.rc)
        if r.rc == 0 and r.out != base.out:
            return 'split as %s: messages %s, otherwise %s' % (short(a, 400), short(r.out), short(base.out))
    return None


DEFS = ['a = 5\n', 'b equ a+1\n', 'c = f-1\n', 'e eqm a+2\n', ' mac k\n dc.b {1},a\n endm\n', ' mac j\n k {1}\n endm\n', 's = "st"\n', 'n set 3\n', '; c\n', 'd = b*2\n', '/* x\n y */\n']


def moves(n):
    """Every order of definition blocks, above the code that uses them."""
    use = ' dc.b a,b,e,n\n j 7\n k 8\n dc s\n dc.w c,d,f\n lda f\n'
    must = [s for s in DEFS if s[0] not in ';/']
    for p in itertools.permutations(range(len(DEFS)), n):
        head = [DEFS[i] for i in p]
        rest = [s for s in must if s not in head]
        yield (' processor 6502\n org $100\n' + ''.join(head + rest) + use + 'f\n', ' processor 6502\n org $100\n' + ''.join(must) + use + 'f\n')


def moved(item):
    t, ref = item
    m = model((('a.asm', ref),), ())
    a, b = yield [Case(['a.asm', '-oo', '-ss'], (('a.asm', x),), ('o', 's')) for x in (t, ref)]
    if m.rc or b.rc or b.files[0] != m.out:
        return 'exit status %d, expected %d' % (b.rc, m.rc)
    if (a.rc, a.files) != (b.rc, b.files):
        return 'definitions in another order: exit status %d, or other files' % a.rc
    return None


def cpus():
    for c in gen.CPUS:
        ms = gen.mnemonics(c)
        for m in ms:
            for o in ('', ' 5', ' #5', ' $1234', ' 5,x', ' (5),y', ' a,1', ' 1,5', ' 1,5,.', ' .', ' fw', ' x'):
                yield (' processor %s\n org $100\n %s%s\n dc.b 1\nfw\n' % (gen.PNAME.get(c, c), m, o), ())


def msan_only(item):
    files, args = item
    fl = filelist(files)
    a = [fl[0][0], *args, '-oo', '-ll', '-ss']
    base, r = yield [Case(a, fl, NAMES), Case(a, fl, NAMES, prog='mdasm')]
    return differs(base, r, 'memory sanitizer')


def envs(item):
    files, args = item
    fl = filelist(files)
    a = [fl[0][0], *args, '-oo', '-ll', '-ss']
    base, *rr = yield [Case(a, fl, NAMES)] + [Case(a, fl, NAMES, prog=p) for p in ('dasm1', 'dasm2', 'dasm3')]
    for p, r in zip(('dasm1', 'dasm2', 'dasm3'), rr):
        d = differs(base, r, 'other memory and environment (%s)' % p)
        if d:
            return d
    return None


def hexes(item):
    fmt, data = item
    base, *rr = yield [Case([str(fmt), 'i', 'o'], (('i', data),), ('o',), prog='ftohex'), Case([str(fmt), 'i', 'o'], (('i', data),) + STALE[:1], ('o',), prog='ftohex')] + [Case([str(fmt), 'i', 'o'], (('i', data),), ('o',), prog=p) for p in ('mftohex', 'ftohex1')]
    for p, r in zip(('old file', 'memory sanitizer', 'other memory'), rr):
        d = differs(base, r, p)
        if d:
            return d
    return None


def hex_items():
    for n in range(0, 70):
        for f in (1, 2, 3):
            d = bytes((i * 7 + n) & 255 for i in range(n))
            yield (f, d)
            yield (f, b'\x00\x10' + n.to_bytes(2, 'little') + d)


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    out = [
        Space('programs', 'words of length 1..2 over %d statements x 4 environments' % len(STMTS), lambda: itertools.chain(programs(1), programs(2)), ALL, chunk=8),
        Space('formats', 'words of length 1..%d x sets of options x 4 environments' % (1 + k), lambda: formats(1 + k), ALL, chunk=8),
        Space('uninitialised', 'words of length 1..2 over %d statements; memory sanitizer' % len(STMTS), lambda: itertools.chain(programs(1), programs(2), formats(1)), MSAN, chunk=8),
        Space('instructions', 'every instruction of every processor x 12 operands; other memory contents', cpus, envs, chunk=8),
        Space('instructions-msan', 'every instruction of every processor x 12 operands; memory sanitizer', lambda: itertools.islice(cpus(), 0, None, 1 if k else 3), msan_only, chunk=8),
        Space('decoys', 'words of length 1..3 over 6 statements, files of the same names where only the environment points; 4 environments', lambda: decoys(3), ALL, chunk=8),
        Space('orders', 'all permutations of 5 options x 8 sets x 10 programs', orders, same_result, chunk=1),
        Space('names', 'words of length 1..2 x names and directories', lambda: itertools.chain(programs(1), programs(2)), where, chunk=4),
        Space('splits', 'words of length 1..3 x every way to move lines into a file', lambda: itertools.chain(splits(1), splits(2), splits(3)), split, chunk=4),
        Space('moves', 'orders of %d of %d definition blocks' % (5 if k else 4, len(DEFS)), lambda: moves(5 if k else 4), moved),
        Space('ftohex', 'inputs of 0..69 bytes; memory sanitizer, old files', hex_items, hexes, chunk=8),
    ]
    if k:
        out.append(Space('programs3', 'words of length 3; 2 environments', lambda: programs(3), FEW, chunk=8))
    return out
