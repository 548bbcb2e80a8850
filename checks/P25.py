"""P25: the shipped machine headers and macros."""
import itertools
import os

import machtab as T
from common import Case, Space, bytediff, short

REPO = os.environ.get('VF_REPO', '/repo')
CACHE = {}


def shipped(machine, *names):
    """The named files of a machine directory, as (name, contents)."""
    out = []
    for n in names:
        k = machine + '/' + n
        if k not in CACHE:
            with open(os.path.join(REPO, 'machines', k), 'rb') as f:
                CACHE[k] = f.read()
        out.append((n, CACHE[k]))
    return tuple(out)


def files(machine):
    return shipped(machine, *{
        'atari2600': ('vcs.h', 'macro.h'), 'atari7800': ('7800.h', 'macro.h'), 'channel-f': ('ves.h', 'macro.h'),
        '68hc11': ('68hc11a1.asm', '68hc11e1.asm', '68hc811e2.asm', 'register.asm'),
        '68hc908': ('bits68hc908.asm', 'macros.asm', 'mc68hc908jb8.asm', 'mc68hc908jk1.asm', 'mc68hc908jk3.asm', 'mc68hc908mr32.asm', 'reg68hc908jb8.asm', 'reg68hc908jk3.asm', 'reg68hc908mr32.asm')}[machine])


def run(machine, src, args=(), fmt='-f3'):
    return Case(['a.asm', fmt, '-oo', '-ss'] + list(args), [('a.asm', src)] + list(files(machine)), ['o', 's'])


def bad(r):
    if r.rc != 0:
        return 'exit status %d: %s' % (r.rc, short(r.out))
    if b'error' in r.out.lower() or b'warning' in r.out.lower():
        return 'success with a message: %s' % short(r.out)
    return None


def le(v):
    return bytes((v & 255, v >> 8 & 255))


def be(v):
    return bytes((v >> 8 & 255, v & 255))


# ---------------------------------------------------------------- a small 6502

class Cpu:
    """Executes the instructions the macros may use; counts cycles; records writes."""

    def __init__(self, code, org, a=0, x=0, y=0, sp=0xff, p=0x20, mem=None):
        self.m = mem if mem is not None else bytearray(65536)
        self.m[org:org + len(code)] = code
        self.a, self.x, self.y, self.sp, self.p, self.pc = a, x, y, sp, p, org
        self.t, self.writes, self.reads, self.ops = 0, [], [], set()

    def nz(self, v):
        self.p = self.p & 0x7d | v & 0x80 | (0 if v else 2)

    def step(self):
        m, pc = self.m, self.pc
        op, lo, hi = m[pc], m[pc + 1 & 0xffff], m[pc + 2 & 0xffff]
        n, t = 1, 2
        self.ops.add(op)
        if op == 0xea:
            pass
        elif op in (0x80,):
            n = 2
        elif op == 0x04:
            n, t = 2, 3
            self.reads.append(lo)
        elif op == 0x0c:
            n, t = 3, 4
            self.reads.append(lo | hi << 8)
        elif op == 0x24:
            n, t = 2, 3
            self.reads.append(lo)
            v = m[lo]
            self.p = self.p & 0x3d | v & 0xc0 | (0 if self.a & v else 2)
        elif op == 0x78:
            self.p |= 4
        elif op == 0xd8:
            self.p &= ~8
        elif op == 0x18:
            self.p &= ~1
        elif op == 0xa9:
            self.a, n = lo, 2
            self.nz(lo)
        elif op == 0xa2:
            self.x, n = lo, 2
            self.nz(lo)
        elif op == 0xa0:
            self.y, n = lo, 2
            self.nz(lo)
        elif op == 0xab:            # lxa: (A or some constant) and the operand
            self.a, n = (self.a | 0xee) & lo, 2
            self.x = self.a
            self.nz(self.a)
        elif op == 0x8a:
            self.a = self.x
            self.nz(self.a)
        elif op == 0x98:
            self.a = self.y
            self.nz(self.a)
        elif op == 0xaa:
            self.x = self.a
            self.nz(self.x)
        elif op == 0xa8:
            self.y = self.a
            self.nz(self.y)
        elif op == 0xca:
            self.x = self.x - 1 & 255
            self.nz(self.x)
        elif op == 0xe8:
            self.x = self.x + 1 & 255
            self.nz(self.x)
        elif op == 0x9a:
            self.sp = self.x
        elif op == 0x48:
            t = 3
            self.put(0x100 | self.sp, self.a)
            self.sp = self.sp - 1 & 255
        elif op == 0x85:
            n, t = 2, 3
            self.put(lo, self.a)
        elif op == 0x8d:
            n, t = 3, 4
            self.put(lo | hi << 8, self.a)
        elif op == 0x95:
            n, t = 2, 4
            self.put(lo + self.x & 255, self.a)
        elif op == 0x4a:
            self.p = self.p & ~1 | self.a & 1
            self.a >>= 1
            self.nz(self.a)
        elif op in (0xd0, 0xf0):
            n = 2
            if bool(self.p & 2) == (op == 0xf0):
                d = pc + 2 + (lo - 256 if lo & 128 else lo) & 0xffff
                t += 1 + (d >> 8 != (pc + 2) >> 8)
                n = d - pc
        else:
            raise ValueError('instruction %02x at %04x' % (op, pc))
        self.pc = pc + n & 0xffff
        self.t += t

    def put(self, a, v):
        self.writes.append((a, v))
        self.m[a] = v

    def go(self, end, limit=200000):
        while self.pc != end:
            if self.t > limit:
                raise ValueError('does not end')
            self.step()


# ---------------------------------------------------------------- registers

def image(item):
    """Header included in a program of data: the data alone comes out, at its address."""
    machine, src, args, org, want = item
    a, b = yield [run(machine, src, args), run(machine, src, args, '-f1')]
    for r in (a, b):
        why = bad(r)
        if why:
            return why
    if a.files[0] != want:
        return bytediff(want, a.files[0])
    if b.files[0] != le(org) + want:
        return 'format 1: ' + bytediff(le(org) + want, b.files[0])
    return None


def defs(style, table):
    """Definitions of the table by -D or by lines: (args, source)."""
    if style == '-D':
        return tuple('-D%s=%s' % (k, v) for k, v in table), ''
    return (), ''.join('%s = %s\n' % (k, v) for k, v in table)


def value(s):
    return int(s.replace('$', '0x'), 0)


def vcs_values(table):
    d = {k: value(v) for k, v in table}
    b = d.get('TIA_BASE_ADDRESS', 0)
    out = {k: v + d.get('TIA_BASE_WRITE_ADDRESS', b) for k, v in T.TIA_WRITE.items()}
    out.update({k: v + d.get('TIA_BASE_READ_ADDRESS', b) for k, v in T.TIA_READ.items()})
    out.update(T.RIOT)
    out['TIA_BASE_ADDRESS'] = b
    out['TIA_BASE_WRITE_ADDRESS'] = d.get('TIA_BASE_WRITE_ADDRESS', b)
    out['TIA_BASE_READ_ADDRESS'] = d.get('TIA_BASE_READ_ADDRESS', b)
    return out


def words_of(names, vals):
    """dc.w lines for the names, and the bytes."""
    return ''.join(' dc.w %s\n' % n for n in names), b''.join(le(vals[n]) for n in names)


def vcs_program(table, style, place):
    args, text = defs(style, table)
    vals = vcs_values(table)
    src, want = words_of(sorted(vals), vals)
    inc = ' include "vcs.h"\n'
    if place == 'top':
        return ('atari2600', ' processor 6502\n' + text + inc + ' org $f000\n' + src, args, 0xf000, want)
    if place == 'segment':
        return ('atari2600', ' processor 6502\n' + text + inc + ' seg code\n org $f000\n' + src, args, 0xf000, want)
    if place == 'middle':
        return ('atari2600', ' processor 6502\n' + text + ' org $f000\n dc.b 1\n' + inc + ' org $f001\n' + src, args, 0xf000, b'\1' + want)
    if place == 'end':
        return ('atari2600', ' processor 6502\n' + text + ' org $f000\n' + src + inc, args, 0xf000, want)
    if place == 'macros':
        return ('atari2600', ' processor 6502\n' + text + inc + ' include "macro.h"\n org $f000\n' + src, args, 0xf000, want)
    return ('atari2600', ' processor 6502\n' + text + ' seg code\n org $f000\n' + src + inc + ' seg code\n dc.b 2\n', args, 0xf000, want + b'\2')


PLACES = ['top', 'segment', 'middle', 'end', 'macros', 'between']


def vcs_items(step):
    for place in PLACES:
        yield vcs_program((), '-D', place)
    for style in ('-D', '='):
        for v in list(range(0, 256, step)) + [0x100, 0x13f, 0x2c0, 0x1000, 0x3f40, 0xff00]:
            yield vcs_program((('TIA_BASE_ADDRESS', '$%x' % v),), style, 'top')
    vals = ['0', '$30', '$40', '64', '$100']
    for b, r, w in itertools.product([None] + vals, repeat=3):
        t = tuple((n, v) for n, v in (('TIA_BASE_ADDRESS', b), ('TIA_BASE_READ_ADDRESS', r), ('TIA_BASE_WRITE_ADDRESS', w)) if v is not None)
        for style in ('-D', '='):
            for place in PLACES if style == '=' else ('top', 'macros'):
                yield vcs_program(t, style, place)


def flat_items():
    """Headers that only define constants."""
    for machine, cpu, head, vals in (('atari7800', '6502', '7800.h', T.A7800), ('channel-f', 'f8', 'ves.h', T.VES)):
        order = le if cpu == '6502' else be
        names = sorted(vals)
        for extra in ('', ' include "macro.h"\n'):
            src = ''.join(' dc.w %s\n' % n for n in names)
            want = b''.join(order(vals[n]) for n in names)
            inc = ' include "%s"\n' % head + extra
            p = ' processor %s\n' % cpu
            yield (machine, p + inc + ' org $f000\n' + src, (), 0xf000, want)
            seg = ' seg s\n' if cpu == 'f8' else ''
            yield (machine, p + seg + ' org $f000\n' + inc + seg + src, (), 0xf000, want)
            yield (machine, p + seg + ' org $f000\n dc.b 1\n' + inc + seg + src, (), 0xf000, b'\1' + want)
            yield (machine, p + ' org $f000\n' + src + inc, (), 0xf000, want)
        for n in names:
            yield (machine, ' processor %s\n include "%s"\n org $f000\n dc.w %s\n' % (cpu, head, n), (), 0xf000, order(vals[n]))


HC11 = {'68hc11a1.asm': dict(FLASH_START=0xb600, FLASH_SIZE=512, BOOTROM_START=0xbf40, DOWNLOAD_SIZE=256),
        '68hc11e1.asm': dict(FLASH_START=0xb600, FLASH_SIZE=512, BOOTROM_START=0xbf00, DOWNLOAD_SIZE=512),
        '68hc811e2.asm': dict(FLASH_START=0xf800, FLASH_SIZE=2048, BOOTROM_START=0xbf40, DOWNLOAD_SIZE=256)}


def hc11_items():
    fixed = {'INIT'} | {n for n in T.HC11 if n.startswith('PA') and n[2:3].isdigit()}
    for head, top in HC11.items():
        for base in [None] + list(range(0, 0x10000, 0x800)):
            vals = {k: v + (0 if k in fixed else base or 0) for k, v in T.HC11.items()}
            vals.update(top)
            vals['RAM_END'] = top['DOWNLOAD_SIZE'] - 1
            vals['FLASH_END'] = top['FLASH_START'] + top['FLASH_SIZE']
            src = ''.join(' .word %s\n' % n for n in sorted(vals))
            want = b''.join(be(vals[n]) for n in sorted(vals))
            inc = ' .include "%s"\n' % head
            if base is None:
                yield ('68hc11', inc + ' .org $c000\n' + src, (), 0xc000, want)
                yield ('68hc11', ' .processor 68hc11\n .org $c000\n .byte 1\n' + inc + src, (), 0xc000, b'\1' + want)
                yield ('68hc11', ' .processor 68hc11\n .org $c000\n' + src + inc, (), 0xc000, want)
            else:
                yield ('68hc11', 'REGBASE .equ $%x\n' % base + inc + ' .org $c000\n' + src, (), 0xc000, want)
                yield ('68hc11', inc + ' .org $c000\n' + src, ('-DREGBASE=$%x' % base,), 0xc000, want)


MC = {'mc68hc908jb8.asm': (T.REG_JB8, T.MC_JB8), 'mc68hc908jk1.asm': (T.REG_JK3, T.MC_JK1), 'mc68hc908jk3.asm': (T.REG_JK3, T.MC_JK3), 'mc68hc908mr32.asm': (T.REG_MR32, T.MC_MR32)}


def hc908_items():
    for head, (reg, mc) in MC.items():
        over = [()] + [((n, v),) for n in ('RAM_START', 'RAM_SIZE', 'FLASH_START', 'FLASH_SIZE') for v in (0x48, 0x100, 0x1234, 0xe000)] + [(('RAM_START', 0x88), ('RAM_SIZE', 120), ('FLASH_START', 0xd000), ('FLASH_SIZE', 7808))]
        for o in over:
            vals = {**T.BITS, **reg, **mc, **dict(o)}
            for n in vals:
                if n.startswith('fw'):
                    vals[n] = mc[n] - mc['RAM_START'] + vals['RAM_START']
            src = ''.join(' .word %s\n' % n for n in sorted(vals))
            want = b''.join(be(vals[n]) for n in sorted(vals))
            inc = ' .include "%s"\n' % head
            yield ('68hc908', inc + ' .org $c000\n' + src, tuple('-D%s=$%x' % x for x in o), 0xc000, want)
            if o:
                yield ('68hc908', ''.join('%s .equ $%x\n' % x for x in o) + inc + ' .org $c000\n' + src, (), 0xc000, want)
            else:
                yield ('68hc908', ' .processor 68908\n .org $c000\n .byte 1\n' + inc + src, (), 0xc000, b'\1' + want)
                for n in sorted(vals):
                    yield ('68hc908', inc + ' .org $c000\n .word %s\n' % n, (), 0xc000, be(vals[n]))


# ---------------------------------------------------------------- macros of the Atari machines

def sleep(item):
    """A row of sleeps takes exactly the sum of the cycles, reaches its end and changes nothing."""
    machine, head, row, legal, org, base = item
    args = (['-DNO_ILLEGAL_OPCODES=1'] if legal else []) + (['-DTIA_BASE_ADDRESS=$%x' % base] if base is not None else [])
    src = ' processor 6502\n include "%s"\n include "macro.h"\n org $%x\n%s' % (head, org, ''.join(' SLEEP %s\n' % n for n, _ in row))
    r, = yield [run(machine, src, args)]
    want = [v for _, v in row]
    if any(v < 2 for v in want):
        if r.rc <= 0:
            return 'exit status %d for a duration below 2' % r.rc
        if b"Duration must be > 1" not in r.out:
            return 'no explanation: %s' % short(r.out)
        return None
    why = bad(r)
    if why:
        return why
    code = r.files[0]
    for a, p in ((0, 0x20), (0xff, 0xe7), (0x40, 0x23)):
        c = Cpu(code, org, a, 0x12, 0x34, 0x56, p)
        try:
            c.go(org + len(code))
        except ValueError as x:
            return str(x)
        if c.t != sum(want):
            return '%d cycles for %s' % (c.t, row)
        if (c.a, c.x, c.y, c.sp) != (a, 0x12, 0x34, 0x56) or c.writes:
            return 'changes a register or memory'
        if not legal and c.p != p:
            return 'changes flags'
        if base and [x for x in c.reads if not base <= x < base + 0x30]:
            return 'reads an address outside the base'
        if legal and c.ops & {0x04, 0x0c, 0x80}:
            return 'illegal instruction used'
    return None


ATARI = [('atari2600', 'vcs.h'), ('atari7800', '7800.h')]


def sleep_items(n, pair):
    for machine, head in ATARI:
        for legal in (0, 1):
            for v in range(-3, n):
                yield (machine, head, ((str(v), v),), legal, 0xf000, None)
            for a, b in itertools.product(range(0, pair), repeat=2):
                yield (machine, head, ((str(a), a), (str(b), b)), legal, 0xf000, None)
            for e, v in (('2+3', 5), ('[3+4]*2', 14), ('$10', 16), ('%1011', 11), ("'A", 65), ('2*4-1', 7), ('20/3', 6), ('1<<4', 16)):
                yield (machine, head, ((e, v),), legal, 0xf0f0, None)
            for org in range(0xf000, 0xf100, 5):
                yield (machine, head, (('7', 7), ('12', 12)), legal, org, None)
    for base in range(0, 0xd0, 8):
        for legal in (0, 1):
            for v in range(2, 12):
                yield ('atari2600', 'vcs.h', ((str(v), v),), legal, 0xf000, base)


def clean(item):
    """The start-up code leaves all of page 0 clear, A = X = Y = 0, S = $ff, decimal mode off, interrupts off."""
    legal, org, pre = item
    src = ' processor 6502\n include "vcs.h"\n include "macro.h"\n org $%x\n%s CLEAN_START\n' % (org, ' CLEAN_START\n' * pre)
    r, = yield [run('atari2600', src, ['-DNO_ILLEGAL_OPCODES=1'] if legal else [])]
    why = bad(r)
    if why:
        return why
    code = r.files[0]
    for a, x, y, sp, p in ((0, 0, 0, 0xff, 0), (0xff, 0xff, 0xff, 0xff, 0xff), (0x11, 0x01, 0x80, 0x00, 0x2b), (0x80, 0x7f, 0x55, 0xaa, 0x08)):
        # RAM and the TIA occupy page 0, and page 1 is the same memory
        c = Page(code, org, a, x, y, sp, p)
        for i in range(256):
            c.m[i] = i * 7 + a + 1 & 255
        try:
            c.go(org + len(code))
        except ValueError as e:
            return str(e)
        if legal and 0xab in c.ops:
            return 'illegal instruction used'
        if any(c.m[:256]):
            return 'not cleared: $%02x' % [i for i in range(256) if c.m[i]][0]
        if (c.a, c.x, c.y) != (0, 0, 0):
            return 'registers %s' % ((c.a, c.x, c.y),)
        if c.sp != 0xff:
            return 'stack pointer %02x' % c.sp
        if c.p & 8 or not c.p & 4:
            return 'flags %02x' % c.p
    return None


class Page(Cpu):
    def put(self, a, v):
        Cpu.put(self, a & 0xff if a < 0x200 else a, v)


def clean_items():
    for legal in (0, 1):
        for org in range(0xf000, 0xf120):
            yield (legal, org, 0)
        yield (legal, 0xf000, 1)
        yield (legal, 0xf0f0, 2)


def vsync(item):
    """Three lines with the sync bit set, then clear; A = 0."""
    org, base, pre = item
    src = ' processor 6502\n include "vcs.h"\n include "macro.h"\n org $%x\n%s VERTICAL_SYNC\n' % (org, ' VERTICAL_SYNC\n' * pre)
    r, = yield [run('atari2600', src, ['-DTIA_BASE_ADDRESS=$%x' % base] if base else [])]
    why = bad(r)
    if why:
        return why
    code = r.files[0]
    for a in (0, 0xff, 2):
        c = Cpu(code, org, a, 1, 2, 0x80, 0x20)
        try:
            c.go(org + len(code), 5000)
        except ValueError as e:
            return str(e)
        on, lines = 0, []
        for addr, v in c.writes:
            if addr == base + 2:
                lines.append(on)
            elif addr == base:
                on = v >> 1 & 1
            else:
                return 'writes to $%04x' % addr
        # the state during each line awaited: off before, three lines on
        if lines != [0, 1, 1, 1] * (pre + 1) or on:
            return 'sync during the lines: %s, afterwards %d' % (lines, on)
        if c.a or (c.x, c.y, c.sp) != (1, 2, 0x80):
            return 'registers'
    return None


def vsync_items():
    for org in range(0xf000, 0xf110):
        yield (org, 0, 0)
    for base in list(range(0, 0x100, 8)) + [0x100, 0x140, 0x1000]:
        for pre in (0, 1, 2):
            yield (0xf000, base, pre)


def pointer(item):
    """The 16-bit address in the two bytes; only A and those bytes change."""
    machine, head, sets, tail = item
    src = ' processor 6502\n include "%s"\n include "macro.h"\n org $f000\n%s\nend_\n%s' % (head, ''.join(' SET_POINTER %s,%s\n' % (p, a) for p, a, _, _ in sets), tail)
    r, = yield [run(machine, src)]
    why = bad(r)
    if why:
        return why
    code = r.files[0]
    sym = [l.split()[1] for l in r.files[1].decode('latin1').split('\n') if l.startswith('end_ ')]
    if not sym:
        return 'symbol missing'
    c = Cpu(code, 0xf000, 0x99, 1, 2, 0x80, 0x20)
    try:
        c.go(int(sym[0], 16))
    except ValueError as e:
        return str(e)
    want = []
    for p, a, pv, av in sets:
        want += [(pv, av & 255), (pv + 1, av >> 8 & 255)]
    if sorted(c.writes) != sorted(want):
        return 'writes %s instead of %s' % (c.writes, want)
    if (c.x, c.y, c.sp) != (1, 2, 0x80):
        return 'registers'
    return None


def pointer_items(step):
    for machine, head in ATARI:
        for p in (0x80, 0xfe, 0xff, 0x100, 0x2000, 0):
            for a in range(0, 0x10000, step):
                yield (machine, head, (('$%x' % p, '$%x' % a, p, a),), '')
        for a in range(256):
            for v in (a, a << 8, a << 8 | 255 - a):
                yield (machine, head, (('$80', '$%x' % v, 0x80, v),), '')
        for p in range(256):
            yield (machine, head, (('$%x' % p, '$1234', p, 0x1234),), '')
        tail = ' org $f4%02x\n' + 'data dc.b 1\n'
        for lo in range(0, 256, 3):
            yield (machine, head, (('$90', 'data', 0x90, 0xf400 + lo), ('$92+2', 'data+3', 0x94, 0xf400 + lo + 3)), tail % lo)
        yield (machine, head, (('p', 'data+$100', 0x90, 0xf510), ('p+2', 'data-1', 0x92, 0xf40f)), tail % 0x10 + 'p = $90\n')
        for q, w in itertools.product(((('$80', 0x80), ('$2000', 0x2000), ('$fe+4', 0x102))), repeat=2):
            yield (machine, head, ((q[0], '$1234', q[1], 0x1234), (w[0], '$5678-1', w[1], 0x5677)), '')


def bound_items():
    """BOUNDARY n: zeros up to an address whose low byte is a multiple of n."""
    for n in list(range(1, 257)):
        for start in range(0, 256, 17):
            yield bound(0xf000 + start, (n,))
    for start in range(256):
        for n in (5, 8, 100, 256):
            yield bound(0xf000 + start, (n,))
    for a, b in itertools.product((1, 2, 7, 16, 64, 256), repeat=2):
        for start in (0, 1, 0xfe):
            yield bound(0xf000 + start, (a, b))


def bound(org, row):
    src = ' processor 6502\n include "vcs.h"\n include "macro.h"\n org $%x\n dc.b $aa\n' % org
    out, pc = b'\xaa', org + 1
    for n in row:
        src += ' BOUNDARY %d\n dc.b $bb\n' % n
        while (pc & 255) % n:
            out, pc = out + b'\0', pc + 1
        out, pc = out + b'\xbb', pc + 1
    return ('atari2600', src, (), org, out)


# ---------------------------------------------------------------- macros of the other machines

def channelf_items():
    p = ' processor f8\n include "ves.h"\n include "macro.h"\n'
    for org in (0x800, 0x1000, 0x1234):
        yield ('channel-f', p + ' org $%x\n CARTRIDGE_START\n dc.w CartridgeStart\n dc.b 9\n' % org, (), org, b'\x55\x2b' + be(org) + b'\x09')
        for prompt in (0x123, 0xfff0):
            at = org + 2
            seq = bytes.fromhex('08 280107 2085 50 28') + be(prompt) + bytes.fromhex('44 2508 94 05 28011e 0c 2502 94 f9 208e 50 28') + be(prompt) + bytes.fromhex('63 6e 4c c4 5c 90 e1')
            yield ('channel-f', p + 'prompt = $%x\n org $%x\n CARTRIDGE_START\n PROMPTS_NOT\n dc.w prompts\n' % (prompt, org), (), org, b'\x55\x2b' + seq + be(at))


def hc908_macros():
    """Calls of the macros and the documented code: (call, bytes, heads it is in)."""
    every = list(MC)
    for reg, val in itertools.product((0, 1, 0x3f, 0xfe, 0xff, 0x100, 0xfe08, 0xffff), (0, 1, 0x80, 0xff)):
        code = bytes((0x6e, val, reg)) if reg < 256 else bytes((0xa6, val, 0xc7)) + be(reg)
        yield 'store_reg $%x,#%d' % (reg, val), code, every
    for reg, val in itertools.product((0, 1, 0xfe, 0x20), (0, 1, 0x1234, 0xffff)):
        yield 'store_reg16 $%x,#%d' % (reg, val), b'\x45' + be(val) + bytes((0x35, reg)), every
    for reg in (0, 1, 0x20, 0x100, 0xfe08):
        for v in (0, 1, 0x80, 0xff):
            yield 'set_bits $%x,#%d' % (reg, v), b'\x45' + be(reg) + bytes((0xf6, 0xaa, v, 0xf7)), every
            yield 'clear_bits $%x,%d' % (reg, v), b'\x45' + be(reg) + bytes((0xf6, 0xa4, v ^ 255, 0xf7)), every
    for bit, reg in itertools.product(range(8), (0, 1, 0x3f, 0xff)):
        yield 'shake_pin %d,$%x' % (bit, reg), bytes((2 * bit, reg, 4, 0x10 + 2 * bit, reg, 0x20, 2, 0x11 + 2 * bit, reg)), every
    for v in range(0, 256, 15):
        yield 'busy_loop_delay #%d' % v, bytes((0xa6, v, 0x4b, 0xfe)), every
        yield 'and_bits $20,#%d' % v, bytes((0xb6, 0x20, 0xa4, v, 0xb7, 0x20)), every
        yield 'or_bits $20,#%d' % v, bytes((0xb6, 0x20, 0xaa, v, 0xb7, 0x20)), every
    loop = {h: be(MC[h][1].get('MoniRomDelayLoop', 0)) for h in every}
    for h in every[0], every[2]:
        for x, a in itertools.product((0, 1, 16, 255), repeat=2):
            yield 'fw_delay %d,%d' % (x, a), bytes((0xae, x, 0xa6, a, 0xcd)) + loop[h], [h]
        start, ram = MC[h][1]['FLASH_START'], MC[h][1]['RAM_START']
        yield 'fw_flash_erase_proc', bytes((0x6e, 0x40, ram + 8, 0x6e, 12, ram + 9, 0x45)) + be(start) + b'\xcd\xfc\x06', [h]
    h = every[1]
    start, ram = MC[h][1]['FLASH_START'], MC[h][1]['RAM_START']
    yield 'fwFlashEraseProc', bytes((0x6e, 0x40, ram + 8, 0x6e, 12, ram + 9, 0x45)) + be(start) + b'\xcd\xfc\x06', [h]
    for n, x, a in (('5us', 1, 3), ('10us', 1, 8), ('100us', 1, 98), ('2ms', 8, 250), ('4ms', 16, 250)):
        yield 'delay' + n, bytes((0xae, x, 0xa6, a, 0xcd)) + loop[every[0]], [every[0]]
    yield 'delay100us', bytes((0xae, 1, 0xa6, 64, 0xcd)) + loop[every[2]], [every[2]]
    yield 'switch_to_pll_clock', bytes.fromhex('3f5c 1a5c 1e5d 0d5dfd 185c'), [every[3]]


def hc908_items2():
    p = 'F_CPU .equ 3\n .include "%s"\n'
    for call, code, heads in hc908_macros():
        for h in heads:
            yield ('68hc908', p % h + ' .org $d000\n %s\n .byte 9\n' % call, (), 0xd000, code + b'\x09')
            if call not in ('switch_to_pll_clock',):
                yield ('68hc908', p % h + ' .org $d000\n %s\n %s\n .byte 9\n' % (call, call), (), 0xd000, code + code + b'\x09')
    for h in MC:
        for x, a in ((1, 2), (255, 0)):
            loop = MC[h][1].get('MoniRomDelayLoop')
            more = 'MoniRomDelayLoop .equ $fd21\n' if loop is None else ''
            code = bytes((0xae, x, 0xa6, a, 0xcd, 0xfd, 0x21, 0x81))
            yield ('68hc908', more + p % h + ' .org $d000\n .byte 1\n declare_delay foo,%d,%d\n .word Delayfoo\n' % (x, a), (), 0xd000, b'\1' + code + be(0xd001))
        for v, w in ((0xf000, 0x1234), (0xfffe, 0xd000)):
            yield ('68hc908', p % h + ' .org $%x\n .byte 1\n declare_vector $%x,$%x\n' % (v - 1, v, w), (), v - 1, b'\1' + be(w))
        for sizes in itertools.product((0, 1, 2, 5), repeat=3):
            a = MC[h][1]['RAM_START']
            adr = [a, a + sizes[0], a + sizes[0] + sizes[1]]
            src = p % h + 'next_var .set RAM_START\n' + ''.join(' declare_var v%d,%d\n' % (i, s) for i, s in enumerate(sizes)) + ' .org $d000\n .word v0,v1,v2,next_var\n'
            yield ('68hc908', src, (), 0xd000, b''.join(be(x) for x in adr + [a + sum(sizes)]))


def spaces(tier):
    k = 1 if tier == 'thorough' else 0
    return [
        Space('vcs', 'every Atari 2600 register; base addresses 0..255 and larger; all combinations of 3 overrides over 6 choices x 6 places', lambda: vcs_items(1), image, chunk=4),
        Space('flat', 'every name of the Atari 7800 and Channel F headers, 4 places', flat_items, image, chunk=4),
        Space('68hc11', 'every name of 3 headers, register bases in steps of $800', hc11_items, image, chunk=4),
        Space('68hc908', 'every name of 4 headers, overridden memory map', hc908_items, image, chunk=4),
        Space('sleep', 'durations -3..%d, all pairs below %d, expressions, origins, bases; executed' % (2999 if k else 999, 60 if k else 30), lambda: sleep_items(3000 if k else 1000, 60 if k else 30), sleep, chunk=8),
        Space('clean', 'start-up code at 288 places; executed from 4 states', clean_items, clean, chunk=2),
        Space('vsync', 'vertical sync at 272 places, 35 bases; executed', vsync_items, vsync, chunk=4),
        Space('pointer', 'pointers x addresses; executed', lambda: pointer_items(61 if k else 257), pointer, chunk=8),
        Space('boundary', 'all boundaries 1..256 x starting positions', bound_items, image, chunk=8),
        Space('channel-f', 'the Channel F macros', channelf_items, image),
        Space('68hc908-macros', 'every 68HC908 macro over its arguments, once and twice', hc908_items2, image, chunk=8),
    ]
