"""Executable specification of the assembler.

A reference multi-pass assembler written from the manual and the observable behaviour.
It takes the text of the source files and the options and gives the expected exit status,
output file, symbol file, list file and messages.  It is used as the oracle: every program
of a space is run through the model and through the real assembler and compared.

Restrictions (such inputs raise Unsupported and are not put in alphabets): malformed
expressions are only predicted to fail, a few undocumented leniencies are not modelled.
"""
import posixpath
import re
import sys

import expr
import isa
from isa import AM, CVT, SIZE

M64 = (1 << 64) - 1

UNKNOWN, REF, STRING, SET, EQM, MASREF = 1, 4, 8, 0x10, 0x20, 0x40
S_UNKNOWN, S_REF, S_BSS, S_RORG = 1, 4, 0x10, 0x20

(R_MNE, R_OBSCURE, R_DC, R_DVP, R_DVC, R_DS, R_ALIGN, R_ALIGNR, R_ALIGNN, R_EQU, R_EQUMIS,
 R_IF, R_REPEAT, R_FWD, R_PHASE, R_BRANCH, R_INC, R_INCBIN) = [1 << i for i in range(18)]

ERR = {
    2: (True, 'Unable to open file.'), 3: (True, 'Source is not resolvable.'),
    4: (True, 'Too many passes (%s).'), 6: (True, "Syntax Error '%s'."),
    7: (True, 'Expression table overflow.'), 8: (True, 'Unbalanced Braces [].'),
    9: (True, 'Division by zero.'), 10: (True, "Unknown Mnemonic '%s'."),
    11: (False, "Illegal Addressing mode '%s'."), 12: (True, "Illegal forced Addressing mode on '%s'."),
    13: (True, 'Not enough args passed to Macro.'), 14: (False, 'Premature EOF.'),
    15: (True, "Illegal character '%s'."), 16: (False, 'Branch out of range (%s bytes).'),
    17: (True, 'ERR pseudo-op encountered.'), 18: (False, 'Origin Reverse-indexed.'),
    19: (False, 'EQU: Value mismatch.'), 20: (True, "Value in '%s' must be <$100."),
    21: (True, "Value in '%s' must be <$10000."), 22: (True, 'Illegal bit specification.'),
    23: (True, 'Not enough arguments.'), 24: (False, 'Label mismatch...\n --> %s'),
    25: (True, 'Macro "%s" definition is repeated.'), 26: (True, 'Value Undefined.'),
    27: (True, "Processor '%s' not supported."), 28: (False, 'REPEAT parameter < 0 (ignored).'),
    30: (True, 'Only one processor type may be selected.'), 32: (True, "Value in '%s' must be 1 or 4."),
    33: (True, "Value in '%s' must be <$10."), 34: (True, "Value in '%s' must be <$8."),
    35: (True, "Value in '%s' must be <$f."), 36: (True, "Value in '%s' must be <$10000."),
    37: (True, "Illegal combination of operands '%s'"), 38: (True, 'Recursion too deep in %s'),
    39: (True, 'Internal error in %s'), 40: (True, 'Unbalanced macro %s'),
    41: (True, 'Multi-line comment not closed.'), 42: (True, 'Multi-line comment closed without open.'),
    43: (True, 'Type mismatch'),
}

sys.setrecursionlimit(100000)
MAXLINE = 1024
CHUNK = 1024


class Abort(Exception):
    pass


class Unsupported(Exception):
    pass


def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


class Sym:
    __slots__ = ('name', 'value', 'flags', 'string', 'order')

    def __init__(self, name, order):
        self.name = name
        self.value = 0
        self.flags = UNKNOWN
        self.string = None
        self.order = order


class Seg:
    __slots__ = ('name', 'flags', 'rflags', 'org', 'rorg')

    def __init__(self, name):
        self.name = name
        self.flags = self.rflags = S_UNKNOWN
        self.org = self.rorg = 0


class Frame:
    __slots__ = ('name', 'lines', 'pos', 'lineno', 'macro', 'args', 'idx', 'dol', 'nolist', 'ml')

    def __init__(self, name, lines):
        self.name = name
        self.lines = lines
        self.pos = 0
        self.lineno = 0
        self.macro = False
        self.args = None
        self.nolist = False
        self.ml = False


class If:
    __slots__ = ('frame', 'x', 'acc', 'base')

    def __init__(self, frame, x, acc, base=False):
        self.frame, self.x, self.acc, self.base = frame, x, acc, base


class Out:
    """Expected results."""
    __slots__ = ('rc', 'out', 'syms', 'listing', 'echo', 'errors', 'passes', 'stmts', 'sym_order', 'fail_output',
                 'early')


_split = {}


def file_lines(data):
    """Lines of a file as the reader sees them: (text, dropped tail?)."""
    r = _split.get(data)
    if r is None:
        text = data.decode('latin-1') if isinstance(data, bytes) else data
        parts = text.split('\n')
        last = parts.pop()
        r = [p + '\n' for p in parts]
        if last:
            r.append(last)
        if len(_split) > 5000:
            _split.clear()
        _split[data] = r
    return r


def find_comment(s):
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == ';':
            return i
        if c == '/' and s[i + 1:i + 2] == '*':
            return i
        if c == '*' and s[i + 1:i + 2] == '/':
            return i
        if c == "'":
            i += 1
        elif c == '"':
            j = s.find('"', i + 1)
            if j < 0:
                return -1
            i = j
        i += 1
    return -1


def atoi(s):
    m = re.match(r'\s*([+-]?\d+)', s)
    return int(m.group(1)) if m else 0


EXT1 = {'s': 26, 'l': 24, 'r': AM['REL'], 'u': 25}


def extension(x):
    """Mode forced by an opcode extension."""
    if not x:
        return -1
    c = chr(ord(x[0]) | 0x20)
    d = chr(ord(x[1]) | 0x20) if len(x) > 1 else ' '
    if c in EXT1:
        return EXT1[c]
    if c in '0i':
        return {'x': AM['0X'], 'y': AM['0Y'], 'n': AM['INDWORD']}.get(d, AM['IMP'])
    if c in 'dbz':
        return {'x': AM['BYTEADRX'], 'y': AM['BYTEADRY'], 'i': AM['BITMOD'], 'b': AM['BITBRAMOD']}.get(d, AM['BYTEADR'])
    if c in 'ewa':
        return {'x': AM['WORDADRX'], 'y': AM['WORDADRY']}.get(d, AM['WORDADR'])
    return -1


def squeeze(s):
    """Runs of blanks do not count when list files are compared."""
    return re.sub('[ \t]+', ' ', s).strip(' ')


def sftos(v, f):
    s = '%04x ' % (v & M64)
    s += '???? ' if f & UNKNOWN else '     '
    s += 'str ' if f & STRING else '    '
    s += 'eqm ' if f & EQM else '    '
    p = f & (MASREF | SET)
    s += '(' if p else ' '
    s += 'R' if f & MASREF else ' '
    s += 'S' if f & SET else ' '
    s += ')' if p else ' '
    return s


_opcache = {}
_IDX = {'x': AM['0X'], 'y': AM['0Y'], 'sp': AM['BYTEADR_SP']}


def split_commas(s):
    out, depth, cur, i = [], 0, '', 0
    while i < len(s):
        c = s[i]
        if c == "'" and i + 1 < len(s):
            cur += s[i:i + 2]
            i += 2
            continue
        if c == '"':
            j = s.find('"', i + 1)
            if j < 0:
                raise expr.Bad(s)
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c in '[(':
            depth += 1
        elif c in '])':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
        i += 1
    out.append(cur)
    return out


def _operand(s, cpu):
    """Operand of an instruction -> (mode, [expression ...], illegal syntax)."""
    if s == '':
        return (AM['IMP'], [('n', 0)], False)
    ill = False
    if s[0] == '#':
        items = split_commas(s[1:])
        mode = AM['IMM8']
    elif s[0] == '(':
        m = re.match(r'^\(([^()]*)\)$', s)
        body = m.group(1) if m else None
        if m and body[-2:].lower() == ',x':
            return (AM['INDBYTEX'], [expr.Parser(body[:-2]).whole()], False)
        if m and body[-2:].lower() == ',y':
            return (AM['0Y'], [expr.Parser(body[:-2]).whole()], True)
        if m:
            mode = AM['INDBYTE'] if cpu == '65c02' else AM['INDWORD']
            return (mode, [expr.Parser(body).whole()], False)
        m = re.match(r'^\(([^()]*)\),([xXyY])$', s)
        if m:
            e = expr.Parser(m.group(1)).whole()
            if m.group(2) in 'yY':
                return (AM['INDBYTEY'], [e], False)
            return (AM['INDBYTEX'], [e], True)
        m = re.match(r'^\(([^()]*),[xX]\)\s*,([^()]*)$', s)
        if m:
            exprs = [expr.Parser(m.group(1)).whole()] + [expr.Parser(x).whole() for x in split_commas(m.group(2))]
            return (AM['INDBYTEX'], exprs, False)
        raise Unsupported(s)
    else:
        mode = -1
        if '(' in s:
            raise Unsupported(s)
        items = split_commas(s)
        m = re.match(r'^\[(x|y|sp)\+(.*)\]$', items[0], re.I)
        if m and cpu in ('68705', '6811', '68908'):
            mode = {'x': AM['BYTEADRX'], 'y': AM['BYTEADRY'], 's': AM['BYTEADR_SP']}[m.group(1)[0].lower()]
            items[0] = m.group(2)
    if items[0] == '' and len(items) >= 2 and items[1].lower() in _IDX:
        exprs = [('n', 0)]
    else:
        exprs = [expr.Parser(items[0]).whole()]
    for it in items[1:]:
        k = _IDX.get(it.lower().rstrip(' '))
        if k is not None and not (cpu == '65c02' and k == _IDX['sp']):
            if mode == AM['IMM8'] and k != _IDX['sp']:
                ill = True
            elif len(exprs) == 1:
                mode = k
            continue
        if len(exprs) == 1 and cpu == '65c02' and mode < 0:
            mode = AM['BYTEREL']
        exprs.append(expr.Parser(it).whole())
    if mode < 0:
        mode = AM['BYTEADR']
    return (mode, exprs, ill)


def operand(s, cpu):
    k = (s, cpu)
    r = _opcache.get(k)
    if r is None:
        try:
            r = _operand(s, cpu)
        except (expr.Bad, Unsupported) as e:
            r = e
        if len(_opcache) > 200000:
            _opcache.clear()
        _opcache[k] = r
    if isinstance(r, Exception):
        raise r
    return r


class Asm:
    def __init__(self, files, main, fmt=1, defs=(), incdirs=(), strict=False, maxpasses=10, allpasses=False,
                 want_list=False, list_all=False, maxsize=640 * 1024, errfmt=0):
        self.files = files
        self.main = main
        self.fmt = fmt
        self.strict = strict
        self.maxpasses = maxpasses
        self.allpasses = allpasses
        self.want_list = want_list
        self.list_all = list_all
        self.maxsize = maxsize
        self.errfmt = errfmt
        self.syms = {}
        self.count = 0
        self.seg0 = Seg('INITIAL CODE SEGMENT')
        self.seg = self.seg0
        self.segs = {self.seg0.name: self.seg0}
        self.macros = {}
        self.cpu = None
        self.msb = 1
        self.inc = []
        for d in incdirs:
            self.op_incdir(d)
        self.pass_no = 1
        self.redo = self.why = self.evals = 0
        self.redo_if = 0
        self.local = self.lastlocal = self.dol = self.lastdol = 0
        self.special = (0, False)
        self.checksum = 0
        self.ifs = [If(None, True, True, True)]
        self.reps = []
        self.frame = None
        self.stack = []
        self.level = 0
        self.inclevel = 0
        self.depth = 0
        self.errors = []
        self.echo = []
        self.fatal = False
        self.ml = False
        self.plab = self.pflags = 0
        self.av0 = self.av1 = self.av2 = ''
        self.ext = None
        self.mnext = -1
        self.gen = b''
        self.glen = 0
        self.opened = self.closed = 0
        self.stmts = 0
        self.listing = []
        self.orgfill = 255
        self.out = bytearray()
        self.linecache = {}
        self.readn, self.assigned, self.early = set(), set(), False
        for kind, name, text in defs:
            self.av0 = name
            if kind == 'M':
                self.op_eqm(text)
            else:
                self.op_set(text)
        self.cmdsyms = self.count

    # ---- messages

    def err(self, code, abort=False, text=None):
        fatal, fmtstr = ERR[code]
        if fatal:
            self.fatal = True
        f = self.frame
        k = len(self.stack) - 1
        while f is not None and f.macro:
            f = self.stack[k]
            k -= 1
        msg = fmtstr % (text if text is not None else '') if '%s' in fmtstr else fmtstr
        self.errors.append((f.name if f else None, f.lineno if f else 0, code, msg))
        if self.want_list and f is not None:
            self.listing.append(self.err_line(f.name, f.lineno, msg))
        if abort:
            raise Abort(code)

    def err_line(self, name, line, msg):
        if self.errfmt == 0:
            return '%s (%d): error: %s\n' % (name, line, msg)
        if self.errfmt == 1:
            return 'line %7d %-10s %s\n' % (line, name, msg)
        return '%s:%d: error: %s\n' % (name, line, msg)

    def again(self, why):
        self.redo += 1
        self.why |= why

    # ---- symbols

    def full(self, name):
        if name[0] == '.':
            return '%d%s' % (self.local, name)
        if name[-1] == '$':
            return '%d$%s' % (self.dol, name)
        return name

    def create(self, name, ordered):
        o = 0
        if ordered:
            self.count += 1
            o = self.count
        n = self.full(name)
        s = Sym(n, o)
        self.syms[n] = s
        return s

    def ref(self, name):
        """Value of a symbol in an expression -> (number, unknown, string)."""
        if name[0] == '.':
            if name == '.':
                g = self.seg
                if g.flags & S_RORG:
                    u, v = g.rflags & 1, g.rorg
                else:
                    u, v = g.flags & 1, g.org
                if u:
                    self.evals += 1
                return (s64(v), bool(u), None)
            if name == '..':
                v, u = self.special
                if u:
                    self.evals += 1
                return (v, u, None)
            if name == '...':
                return (self.checksum, False, None)
        n = self.full(name)
        s = self.syms.get(n)
        self.readn.add(n)
        if s is None:
            s = Sym(n, 0)
            s.flags = REF | MASREF | UNKNOWN
            self.syms[n] = s
            self.evals += 1
            return (0, True, None)
        f = s.flags
        if f & UNKNOWN:
            self.evals += 1
        if f & EQM:
            s.flags |= REF | MASREF
            self.depth += 1
            if self.depth > 1000:
                self.err(38, True, 'pushsymbol()')
            v, u, t = self.evl(s.string)[0]
            self.depth -= 1
            if t is not None:
                return (expr.strval(t), False, t)
            return (v, u, None)
        s.flags |= REF | MASREF
        if f & STRING:
            return (expr.strval(s.string), False, s.string)
        return (s.value, bool(f & UNKNOWN), None)

    def evl(self, text):
        try:
            asts = expr.parse_list(text)
        except expr.Bad:
            self.malformed(text)
            return [(0, False, None)]
        if not asts:
            return [(0, False, None)]
        return [self.ev1(a) for a in asts]

    def ev1(self, ast):
        if ast[0] == 'n':
            return (ast[1], False, None)
        try:
            return expr.ev(ast, self.ref)
        except expr.DivZero:
            self.err(9, True)

    def malformed(self, text):
        """Not a well-formed expression: predicted to fail, nothing more."""
        raise Unsupported(text)

    def label(self):
        g = self.seg
        rorg = g.flags & S_RORG
        cf = g.rflags if rorg else g.flags
        pc = g.rorg if rorg else g.org
        self.plab = g.org
        self.pflags = g.flags
        name = self.av0
        if not name:
            return
        if name[-1] == ':':
            name = name[:-1]
        if name[0] != '.' and name[-1:] != '$':
            self.lastdol += 1
            self.dol = self.lastdol
        if name == '.':
            return
        n = self.full(name)
        s = self.syms.get(n)
        if s is not None:
            if s.order and (s.flags | cf) & UNKNOWN:
                self.again(R_FWD)
            if not s.order:
                self.count += 1
                s.order = self.count
            f = s.flags
            if f & (UNKNOWN | REF) == (UNKNOWN | REF):
                self.again(R_FWD)
            elif cf & 1 and f & REF:
                self.again(R_FWD)
            elif not cf & 1 and not f & UNKNOWN:
                if s64(pc) != s.value:
                    if not self.redo_if & 2:
                        self.err(24, False, '%s %s' % (s.name, sftos(s.value, 0)))
                    self.again(R_PHASE)
        else:
            s = self.create(name, True)
        s.value = s64(pc)
        s.flags = (s.flags & ~UNKNOWN) | (cf & 1)

    # ---- output

    def checksize(self, n):
        g = self.seg
        if g.org > self.maxsize or (n & M64) > self.maxsize - g.org:
            self.err(38, True, 'code segment growing larger (%d) than max. allowed file size (%d)\n'
                     % ((g.org + n) & M64, self.maxsize))

    def emit(self, data, n=None):
        """Put bytes at the current origin (n: only the number of bytes matters)."""
        if n is None:
            n = len(data)
        g = self.seg
        self.checksize(n)
        if not self.redo and not g.flags & S_BSS:
            if g.flags & S_UNKNOWN:
                self.again(R_OBSCURE)
                return
            self.checksum += sum(data)
            out = self.out
            if self.fresh:
                self.fresh = False
                self.forg = g.org
                if self.fmt < 3:
                    out += bytes((g.org & 255, g.org >> 8 & 255))
                    if self.fmt == 2:
                        self.back = len(out)
                        self.seglen = 0
                        out += b'\0\0'
            if self.fmt == 2:
                if self.forg != g.org or self.seglen + n > 0xFFFF:
                    self.forg = g.org
                    self.patch()
                    out += bytes((g.org & 255, g.org >> 8 & 255))
                    self.back = len(out)
                    self.seglen = 0
                    out += b'\0\0'
                out += data
                self.seglen += n
            else:
                if g.org < self.forg:
                    self.err(18, True)
                if g.org > self.forg:
                    out += bytes((self.orgfill & 255,)) * (g.org - self.forg)
                    self.forg = g.org
                out += data
            self.forg += n
        g.org = (g.org + n) & M64
        if g.flags & S_RORG:
            g.rorg = (g.rorg + n) & M64

    def patch(self):
        self.out[self.back:self.back + 2] = bytes((self.seglen & 255, self.seglen >> 8 & 255))

    def fill(self, value, count, size):
        if count == 0:
            return
        if count < 0:
            self.err(18, True)
        self.checksize(count)
        unit = self.word(value, size)
        total = count * size
        pattern = unit * (CHUNK // size)
        n = total
        while n > CHUNK:
            self.emit(pattern)
            n -= CHUNK
        self.emit(pattern[:n])
        self.gen = pattern[:4]
        self.glen = n if n == total else CHUNK

    def word(self, v, size, swap=False):
        b = (v & ((1 << (8 * size)) - 1))
        return b.to_bytes(size, 'big' if bool(self.msb) != swap else 'little')

    def code(self, data):
        self.gen = bytes(data)
        self.glen = len(data)
        self.emit(self.gen)

    # ---- list file

    def list_line(self, comment):
        f = self.frame
        if f.nolist:
            return
        top = self.ifs[-1]
        x = ' ' if top.x and top.acc else '-'
        c = 'U' if self.pflags & S_BSS else ' '
        b = '%7d %c%s' % (f.lineno, c, sftos(self.plab, self.pflags & 7))
        n = self.glen
        for i in range(4):
            b += '%02x ' % self.gen[i] if i < n else '   '
        if n > 4:
            x = '*'
        ext = self.ext
        b = b[:-1] + '%c%-10s %s%s%s\t%s' % (x, self.av0, self.av1, '.' if ext is not None else '', ext or '', self.av2)
        if comment:
            b += '\t;' + comment
        self.listing.append(b.split('\n')[0] + '\n')
        self.glen = 0
        self.ext = None

    # ---- lines

    def readline(self):
        f = self.frame
        if f.pos >= len(f.lines):
            return None
        s = f.lines[f.pos]
        f.pos += 1
        f.lineno += 1
        if len(s) >= MAXLINE:
            if s[-1] == '\n' and len(s) == MAXLINE:
                return s[:-1]
            if len(s) > MAXLINE - 1 and not (len(s) == MAXLINE - 1):
                s = s[:MAXLINE - 1]
                c = -1 if self.ml else find_comment(s)
                if c < 0 or s[c] != ';':
                    self.err(6, False, 'line too long')
        return s

    def cleanup(self, buf, disable):
        """-> (text, comment)"""
        if self.ml:
            e = buf.find('*/')
            if e >= 0:
                self.ml = False
                head = buf[:e]
                tail = re.split('[\r\n]', buf[e + 2:])[0]
                return self.cleanup((tail + ';* ' + head)[:MAXLINE - 1], disable)
            buf = ';' + buf
        else:
            c = find_comment(buf)
            if c >= 0 and buf[c] == '*':
                self.err(42)
                c = -1
            if c >= 0 and buf[c] == '/':
                e = buf.find('*/', c + 2)
                if e >= 0:
                    tail = re.split('[\r\n]', buf[e + 2:])[0]
                    new = buf[:c] + tail + ';/' + buf[c + 1:e + 1]
                    return self.cleanup(new[:MAXLINE - 1], disable)
                self.ml = True
                buf = buf[:c] + ';' + buf[c:]
        out = []
        comment = ''
        i = 0
        src = buf
        while i < len(src):
            c = src[i]
            if c == ';':
                comment = src[i + 1:]
                break
            if c in '\r\n':
                break
            if c == '\t':
                out.append(' ')
            elif c == "'":
                out.append(c)
                i += 1
                d = src[i] if i < len(src) else '\n'
                if d in '\r\n':
                    out.append('\x80')
                    break
                out.append('\x80' if d in ' \t' else d)
            elif c == '"':
                j = src.find('"', i + 1)
                if j < 0:
                    if self.active():
                        self.err(6, False, None)
                    out.append(src[i:].replace(' ', '\x80'))
                    break
                out.append(src[i:j + 1].replace(' ', '\x80'))
                i = j
            elif c == '{' and not disable:
                j = src.find('}', i)
                if j < 0:
                    out.append(src[i:])
                    break
                n = atoi(src[i + 1:])
                args = self.frame.args or []
                if n < 0:
                    raise Unsupported(src)
                if n >= len(args):
                    if self.active():
                        self.err(13)
                    break
                src = src[:i] + args[n] + src[j + 1:]
                if sum(map(len, out)) + len(src) - i + 1 > MAXLINE:
                    raise Abort(1)
                continue
            else:
                out.append(c)
            i += 1
        return (''.join(out).rstrip(' '), comment)

    def parse(self, buf, dyn):
        i = 0
        n = len(buf)
        while i < n and buf[i] == ' ':
            i += 1
        if i < n and buf[i] == '^':
            i += 1
            while i < n and buf[i] == ' ':
                i += 1
        elif i < n and buf[i] == '#':
            buf = buf[:i] + ' ' + buf[i + 1:]
        else:
            i = 0
        lab = []
        undef = False
        while i < n and buf[i] not in ' =':
            c = buf[i]
            if c == ':':
                i += 1
                break
            if c == ',' and dyn:
                if buf[i + 1:i + 2] == '"':
                    i += 2
                    while i < n and buf[i] not in '" ,:':
                        lab.append(buf[i])
                        i += 1
                    if i < n and buf[i] == '"':
                        i += 1
                    else:
                        undef = True
                        self.err(6, False, buf)
                else:
                    t = re.split('[, =:]', buf[i + 1:])[0]
                    v, u, _ = self.evl(t)[0]
                    if u:
                        undef = True
                        self.again(R_FWD)
                    else:
                        v &= 0xFFFFFFFF
                        lab.append(str(v - (1 << 32) if v >> 31 else v))
                    i += 1
                    while i < n and buf[i] not in ' =,:':
                        i += 1
                continue
            lab.append(c)
            i += 1
        self.av0 = '' if undef else ''.join(lab).replace('\x80', ' ')
        while i < n and buf[i] == ' ':
            i += 1
        if i < n and buf[i] == '=':
            op = '='
            i += 1
        else:
            j = buf.find(' ', i)
            if j < 0:
                j = n
            op = buf[i:j].replace('\x80', ' ')
            i = j
        self.mnext = -1
        self.ext = None
        k = op.find('.', 1)
        if k > 0:
            self.ext = op[k + 1:]
            op = op[:k]
            self.mnext = extension(self.ext)
        self.av1 = op
        while i < n and buf[i] == ' ':
            i += 1
        self.av2 = re.sub(' +', ' ', buf[i:]).replace('\x80', ' ')

    def take(self, buf, disable):
        """cleanup + parse, with a cache for lines whose reading does not depend on state."""
        if not self.ml:
            r = self.linecache.get(buf)
            if r is not None:
                self.av0, self.av1, self.av2, self.ext, self.mnext, comment, text = r
                return comment, text
        pure = not self.ml and '/*' not in buf and '*/' not in buf and '{' not in buf and buf.count('"') % 2 == 0
        ne = len(self.errors)
        text, comment = self.cleanup(buf, disable)
        lab = text.split(' ', 1)[0] if text[:1] != ' ' else ''
        if '^' in text or '#' in text[:200].lstrip(' ')[:1]:
            lab = ','
        self.parse(text, self.active())
        if pure and ',' not in lab and len(self.errors) == ne:
            self.linecache[buf] = (self.av0, self.av1, self.av2, self.ext, self.mnext, comment, text)
        return comment, text

    def lookup(self, op):
        """-> handler for a mnemonic or None"""
        if op[:1] == '.':
            op = op[1:]
        op = op.lower()
        if self.cpu is not None:
            h = self.cpuops.get(op)
            if h is not None:
                return h
        h = OPS.get(op)
        if h is not None:
            return h
        m = self.macros.get(op)
        if m is not None:
            return m
        return None

    def active(self):
        t = self.ifs[-1]
        return t.x and t.acc

    def run(self):
        o = Out()
        try:
            o.rc = self.passes()
        except Abort as e:
            o.rc = e.args[0]
        o.out = bytes(self.out)
        o.syms = self.syms
        o.listing = ''.join(self.listing)
        o.echo = ''.join(self.echo)
        o.errors = self.errors
        o.passes = self.pass_no
        o.stmts = self.stmts
        o.early = self.early
        return o

    def passes(self):
        old = None
        while True:
            self.local = self.lastlocal = self.dol = self.lastdol = 0
            self.count = self.cmdsyms
            self.out = bytearray()
            self.readn, self.assigned, self.early = set(), set(), False
            self.fresh = True
            self.checksum = 0
            self.orgfill = 255
            self.listmode = True
            if not (self.list_all and self.pass_no > 1):
                self.listing = []
            self.push(self.main)
            while self.frame is not None:
                self.read_file()
            if not self.redo and self.fmt == 2 and not self.fresh:
                self.patch()
            if self.ml:
                return 41
            if self.redo:
                now = (self.redo, self.why, self.evals)
                if not self.allpasses and now == old:
                    return 3
                old = now
                self.redo = self.why = self.evals = 0
                self.redo_if = (self.redo_if << 1) & 0xFF
                self.pass_no += 1
                self.fatal = False
                if self.pass_no > self.maxpasses:
                    self.errors.append((None, 0, 4, ''))
                    return 4
                self.errors = []
                self.echo = []
                for s in self.syms.values():
                    s.flags &= ~REF
                    if s.order > self.cmdsyms:
                        s.order = 0
                for g in self.segs.values():
                    g.flags = (g.flags & S_BSS) | S_UNKNOWN
                    g.rflags = S_UNKNOWN
                self.seg = self.seg0
                continue
            rc = 5 if self.fatal else 0
            if self.opened != self.closed:
                return 40
            return rc

    def read_file(self):
        while True:
            f = self.frame
            if f.macro:
                if f.pos >= len(f.lines):
                    self.av0 = ''
                    self.op_endm('')
                    continue
                buf = f.lines[f.pos]
                f.pos += 1
                f.lineno += 1
            else:
                buf = self.readline()
                if buf is None:
                    break
            self.stmts += 1
            comment, _ = self.take(buf, False)
            self.gen = b''
            self.glen = 0
            op = self.av1
            if op:
                h = self.lookup(op)
                self.count_macro(h)
                if h is not None:
                    if h in IFOPS:
                        h(self, self.av2)
                    elif self.active():
                        if h.__class__ is Macro:
                            self.expand(h, self.av2)
                        elif h.__class__ is tuple:
                            h[0](self, self.av2, h[1])
                        else:
                            h(self, self.av2)
                elif self.active():
                    self.err(10, False, op)
            else:
                self.count_macro(None)
                if self.active():
                    self.label()
            if self.want_list and self.listmode:
                self.list_line(comment)
        while self.reps and self.reps[-1][0] is f:
            self.reps.pop()
        while self.ifs[-1].frame is f:
            self.ifs.pop()
        self.inclevel -= 1
        self.ml = self.ml or f.ml
        self.frame = self.stack.pop() if self.stack else None
        if self.frame is not None and self.want_list:
            self.listing.append('------- FILE %s\n' % self.frame.name)

    def count_macro(self, h):
        if h is Asm.op_mac:
            self.opened += 1
        elif h is Asm.op_endm:
            self.closed += 1

    def open(self, name):
        d = self.files.get(posixpath.normpath(name) if './' in name else name)
        if d is not None:
            return d
        if ':' in name:
            return None
        for dr in self.inc:
            p = dr + name if dr == '' or dr[-1] in ':/' else dr + '/' + name
            d = self.files.get(posixpath.normpath(p) if './' in p or '//' in p else p)
            if d is not None:
                return d
        return None

    def push(self, name):
        if self.inclevel == 200:
            self.err(38, True, 'INCLUDE')
        d = self.open(name)
        if d is None:
            self.err(2)
            self.again(R_INC)
            return
        self.inclevel += 1
        if self.want_list:
            self.listing.append('------- FILE %s LEVEL %d PASS %d\n' % (name, self.inclevel, self.pass_no))
        if self.frame is not None:
            self.stack.append(self.frame)
        self.frame = Frame(name, file_lines(d))
        self.frame.ml, self.ml = self.ml, False

    # ---- directives

    def op_processor(self, s):
        cpu = isa.PROCESSOR.get(s)
        if cpu is None:
            self.err(27, True, s)
        if self.cpu is not None and cpu != self.cpu:
            self.err(30, True, s)
        if self.cpu is None:
            self.cpu = cpu
            self.cpuops = CPUOPS[cpu]
        self.msb = 0 if cpu in isa.LSBFIRST else 1

    def op_list(self, s):
        self.label()
        self.glen = 0
        if s[:7] in ('localof', 'LOCALOF'):
            self.frame.nolist = True
        elif s[:7] in ('localon', 'LOCALON'):
            self.frame.nolist = False
        elif s[:2] in ('of', 'OF'):
            self.listmode = False
        else:
            self.listmode = True

    @staticmethod
    def filename(s):
        if s[:1] == '"':
            return s[1:].split('"')[0]
        return s

    def op_include(self, s):
        self.label()
        t = None
        if not s[:1].isdigit():
            try:
                t = self.evl(s)[0][2]
            except Unsupported:
                raise
        self.push(t if t is not None else self.filename(s))

    def op_incbin(self, s):
        self.label()
        v = self.evl(s)
        if v[0][2] is None:
            self.err(43)
            self.again(R_INCBIN)
            return
        skip = 0
        if len(v) > 1:
            if v[1][1]:
                self.err(26, True)
            skip = v[1][0]
        if skip < 0:
            raise Unsupported('negative skip')
        d = self.open(self.filename(v[0][2]))
        if d is None:
            self.err(2, True)
        if isinstance(d, str):
            d = d.encode('latin-1')
        d = d[skip:]
        if self.redo:
            self.emit(b'', len(d))
        else:
            for i in range(0, len(d), CHUNK):
                self.emit(d[i:i + CHUNK])
        self.glen = 0

    def op_trace(self, s):
        pass

    def op_incdir(self, s):
        d = self.filename(s)
        if d not in self.inc:
            self.inc.append(d)

    def op_seg(self, s):
        g = self.segs.get(s)
        if g is None:
            g = Seg(s)
            self.segs[s] = g
            if self.mnext == AM['BSS']:
                g.flags |= S_BSS
        self.seg = g
        self.label()

    def op_hex(self, s):
        self.label()
        h = s.replace(' ', '')
        if len(h) & 1 and len(h) > 0:
            h = h[:-1]
        try:
            data = bytes.fromhex(h)
        except ValueError:
            raise Unsupported(s)
        if any(len(x) & 1 for x in s.split(' ')[:-1]):
            raise Unsupported(s)
        self.code(data)

    def op_err(self, s):
        self.label()
        self.err(17, True)

    def data(self, s, name):
        self.gen = b''
        self.glen = 0
        self.label()
        if name[0] != 'd':
            self.ext = name[0]
            self.mnext = extension(self.ext)
        elif name[1] not in 'cv':
            self.ext = 'l' if name == 'dd' else name[1]
            self.mnext = extension(self.ext)
        fn = None
        if name == 'dv':
            lab, _, s = s.partition(' ')
            t = self.syms.get(self.full(lab)) if lab else None
            if t is None or not t.flags & EQM:
                self.err(6, False, 'EQM label not found' if t is None else 'must specify EQM label for DV')
                self.again(R_DVP)
                return
            fn = t.string
        vals = self.evl(s)
        size, swap = 1, False
        if self.mnext == AM['WORDADR']:
            size = 2
        elif self.mnext == 26:
            size, swap = 2, True
        elif self.mnext == 24:
            size = 4
        buf = bytearray()
        first = None
        for v, u, t in vals:
            if u:
                self.again(R_DC)
            if t is not None:
                for ch in t:
                    v = ord(ch)
                    if len(buf) > CHUNK - 4:
                        if first is None:
                            first = bytes(buf[:4])
                        self.emit(bytes(buf))
                        buf = bytearray()
                    if fn is not None:
                        self.special = (v, False)
                        v, u2, _ = self.evl(fn)[0]
                        if u2:
                            self.again(R_DVP)
                    buf += self.word(v, size, swap)
                continue
            if len(buf) > CHUNK - 4:
                if first is None:
                    first = bytes(buf[:4])
                self.emit(bytes(buf))
                buf = bytearray()
            if fn is not None:
                self.special = (v, u)
                v, u2, _ = self.evl(fn)[0]
                if u2:
                    self.again(R_DVC)
            if size == 1:
                if v < -0xFF or v > 0xFF:
                    self.err(20, False, 'byte %s %d' % (name, v))
            elif size == 2:
                if self.strict and (v < -0xFFFF or v > 0xFFFF):
                    self.err(21, False, '%s %s %d' % ('swapped' if swap else 'word', name, v))
            buf += self.word(v, size, swap)
        self.code(buf)
        if first is not None:
            self.gen = first
            self.glen = 5

    def op_dc(self, s):
        self.data(s, 'dc')

    def op_byte(self, s):
        self.data(s, 'byte')

    def op_word(self, s):
        self.data(s, 'word')

    def op_long(self, s):
        self.data(s, 'long')

    def op_dv(self, s):
        self.data(s, 'dv')

    def op_db(self, s):
        self.data(s, 'db')

    def op_dw(self, s):
        self.data(s, 'dw')

    def op_dd(self, s):
        self.data(s, 'dd')

    def op_ds(self, s):
        size = {AM['WORDADR']: 2, 24: 4}.get(self.mnext, 1)
        self.label()
        v = self.evl(s)
        filler = v[1][0] if len(v) > 1 else 0
        if v[0][1]:
            self.again(R_DS)
        else:
            if len(v) > 1 and v[1][1]:
                self.again(R_DS)
            self.fill(filler, v[0][0], size)

    def op_end(self, s):
        while self.frame.macro:
            self.op_endm('')
        self.frame.pos = len(self.frame.lines)

    def op_org(self, s):
        v = self.evl(s)
        g = self.seg
        g.org = v[0][0] & M64
        g.flags = (g.flags & ~1) | (1 if v[0][1] else 0)
        if len(v) > 1:
            self.orgfill = v[1][0]
            if v[1][1]:
                self.err(26, True)
        self.label()

    def op_rorg(self, s):
        v = self.evl(s)
        g = self.seg
        g.flags |= S_RORG
        if s.strip() != '':
            g.rorg = v[0][0] & M64
            g.rflags = (g.rflags & ~1) | (1 if v[0][1] else 0)
        self.label()

    def op_rend(self, s):
        self.label()
        self.seg.flags &= ~S_RORG

    def op_align(self, s):
        v = self.evl(s)
        g = self.seg
        fill = 0
        if len(v) > 1:
            if v[1][1]:
                self.again(R_ALIGN)
            else:
                fill = v[1][0] & 255
        n, u, _ = v[0]
        if not u and n == 0:
            self.err(9, True)
        if g.flags & S_RORG:
            pf, pc, why = g.rflags, g.rorg, R_ALIGNR
        else:
            pf, pc, why = g.flags, g.org, R_ALIGNN
        if pf & 1 or u:
            self.again(why)
        else:
            k = n - s64(pc % (n & M64))
            if k != n:
                self.fill(fill, k, 1)
        self.label()

    def op_subroutine(self, s):
        self.lastlocal += 1
        self.local = self.lastlocal
        self.label()

    def target(self):
        name = self.av0
        if not name:
            return None
        s = self.syms.get(self.full(name))
        if s is None:
            s = self.create(name, True)
        if not s.order:
            self.count += 1
            s.order = self.count
        return s

    def op_equ(self, s):
        v = self.evl(s)
        if self.av0 in ('.', '*'):
            self.av0 = '.'
            if self.seg.flags & S_RORG:
                self.op_rorg(s)
            else:
                self.op_org(s)
            return
        n, u, t = v[0]
        again = self.syms.get(self.full(self.av0)) if self.av0 else None
        again = again is not None and again.order
        lab = self.target()
        if lab is None:
            return
        if again and lab.flags & UNKNOWN and not u:
            self.again(R_EQU)
        if not lab.flags & UNKNOWN:
            if u:
                self.again(R_EQU)
            elif lab.value != n:
                self.err(19)
                self.again(R_EQUMIS)
        lab.value = n
        lab.flags = (lab.flags & MASREF) | (UNKNOWN if u else 0) | (STRING if t is not None else 0)
        lab.string = t
        w = n & M64
        b = bytes((w >> 8 & 255, w & 255))
        if w > 0xFFFF:
            b = bytes((w >> 24 & 255, w >> 16 & 255)) + b
        self.gen = b
        self.glen = len(b)

    def op_eqm(self, s):
        lab = self.target()
        if lab is None:
            return
        lab.value = 0
        lab.flags = (lab.flags & MASREF) | STRING | SET | EQM
        lab.string = s

    def op_echo(self, s):
        line = ''
        for v, u, t in self.evl(s):
            if not u:
                line += ' ' + (t if t is not None else '$%x' % (v & M64))
        line += '\n'
        self.echo.append(line)
        if self.want_list:
            self.listing.append(line)

    def op_set(self, s):
        i = 0
        while i < len(s) and s[i] not in '" ,':
            i += 1
        if s[i:i + 1] == ',':
            name = s[:i]
            undef = False
            while i < len(s) and s[i] not in '" ':
                if s[i + 1:i + 2] == '"':
                    i += 2
                    while i < len(s) and s[i] not in '" ,':
                        name += s[i]
                        i += 1
                    if s[i:i + 1] == '"':
                        i += 1
                    else:
                        self.err(6, False, s)
                else:
                    t = s[i + 1:].split(',')[0]
                    v, u, _ = self.evl(t)[0]
                    if u:
                        undef = True
                    else:
                        v &= 0xFFFFFFFF
                        name += str(v - (1 << 32) if v >> 31 else v)
                    i += 1
                    while i < len(s) and s[i] not in ' ,':
                        i += 1
            if undef:
                self.again(R_FWD)
                return
            s = name
        n, u, t = self.evl(s)[0]
        lab = self.target()
        if lab is None:
            return
        if lab.name not in self.assigned:
            self.assigned.add(lab.name)
            if lab.name in self.readn:
                self.early = True
        lab.value = n
        lab.flags = (lab.flags & MASREF) | (UNKNOWN if u else 0) | (STRING if t is not None else 0)
        lab.string = t

    def op_setstr(self, s):
        if '"' in s:
            raise Unsupported(s)
        self.op_set('"%s"' % s)

    def op_setsym(self, s):
        v, u, t = self.evl(s)[0]
        if u:
            self.again(R_FWD)
            return
        if t is None:
            self.err(43)
            return
        self.op_set(t)

    # ---- macros, conditionals, repetition

    def op_mac(self, s):
        name = self.av2 = s.lower()
        skip = not self.active()
        h = self.lookup(name)
        if skip:
            defined = True
        else:
            defined = h is not None
            if self.want_list and self.listmode:
                self.list_line('')
        if not defined:
            m = Macro(name, self.pass_no)
            self.macros[name] = m
        elif self.strict and not skip and h.__class__ is Macro and h.defpass == self.pass_no:
            self.err(25, True, name)
        body = []
        while True:
            buf = self.readline()
            if buf is None:
                self.err(14, True)
            self.stmts += 1
            text, comment = self.cleanup(buf, True)
            self.parse(text, False)
            if self.av1:
                h = self.lookup(self.av1)
                self.count_macro(h)
                if h is Asm.op_endm:
                    if not defined:
                        m.lines = body
                    return
            if not skip and self.want_list and self.listmode:
                self.list_line(comment)
            body.append(text.replace('\x80', ' '))

    def expand(self, mac, s):
        self.label()
        if self.level == 32:
            self.err(38, True, ' macro [%s] recursion > %d' % (mac.name, 32))
        self.level += 1
        args = [s]
        rest = s
        while rest:
            a, c, rest = rest.partition(',')
            args.append(a)
            rest = rest.lstrip(' ')
        f = Frame(mac.name, mac.lines)
        f.macro = True
        f.args = args
        f.idx = self.local
        f.dol = self.dol
        f.ml, self.ml = self.ml, False
        self.stack.append(self.frame)
        self.frame = f
        self.lastlocal += 1
        self.local = self.lastlocal
        self.lastdol += 1
        self.dol = self.lastdol

    def op_endm(self, s):
        f = self.frame
        if not f.macro:
            return
        self.level -= 1
        while self.reps and self.reps[-1][0] is f:
            self.reps.pop()
        while self.ifs[-1].frame is f:
            self.ifs.pop()
        self.local = f.idx
        self.dol = f.dol
        self.ml = f.ml
        self.frame = self.stack.pop()

    op_mexit = op_endm

    def pushif(self, x):
        t = self.ifs[-1]
        self.ifs.append(If(self.frame, x, t.acc and t.x))

    def op_ifconst(self, s, want=False):
        if not self.active():
            self.pushif(False)
            return
        self.label()
        self.pushif(self.evl(s)[0][1] == want)

    def op_ifnconst(self, s):
        self.op_ifconst(s, True)

    def op_if(self, s):
        if not self.active():
            self.pushif(False)
            return
        self.label()
        v, u, t = self.evl(s)[0]
        if u or t is not None:
            self.again(R_IF)
            self.pushif(False)
            self.ifs[-1].acc = False
            self.redo_if |= 1
        else:
            self.pushif(v != 0)

    def op_else(self, s):
        t = self.ifs[-1]
        if t.acc and not t.base:
            self.label()
            t.x = not t.x

    def op_endif(self, s):
        t = self.ifs[-1]
        if not t.base:
            if t.acc:
                self.label()
            if t.frame is self.frame:
                self.ifs.pop()

    def op_repeat(self, s):
        if not self.active():
            self.pushif(False)
            return
        self.label()
        v, u, t = self.evl(s)[0]
        if v == 0 or (v < 0 and u):
            if u:
                self.again(R_REPEAT)
            self.pushif(False)
            return
        if v < 0:
            self.pushif(False)
            self.err(28)
            return
        if u or t is not None:
            self.again(R_REPEAT)
        f = self.frame
        self.reps.append([f, f.pos, f.lineno, v, u or t is not None, self.ml])
        self.pushif(True)

    def op_repend(self, s):
        if not self.active():
            self.op_endif(s)
            return
        f = self.frame
        if self.reps and self.reps[-1][0] is f:
            r = self.reps[-1]
            if not r[4]:
                r[3] -= 1
            if not r[4] and r[3]:
                f.pos = r[1]
                f.lineno = r[2]
                self.ml = r[5]
            else:
                self.reps.pop()
                self.op_endif(s)

    # ---- instructions

    def ins(self, s, ins):
        g = self.seg
        g.flags |= S_REF
        self.label()
        try:
            mode, asts, illegal = operand(s, self.cpu)
        except expr.Bad:
            self.malformed(s)
        args = [self.ev1(a) for a in asts]
        if illegal:
            self.err(11, False, s)
            self.again(R_MNE)
        for a in args:
            if a[1]:
                self.again(R_MNE)
        if ins.imod and len(args) > 1:
            mode = AM['BITBRAMOD'] if ins.rel else AM['BITMOD']
        v, u, _ = args[0]
        size = 2 if u or v >= 0x100 else 1 if v else 0
        ops = ins.ops
        want = mode
        while mode not in ops and mode in CVT:
            mode = CVT[mode]
        if self.cpu == '65c02' and mode not in ops:
            if mode == AM['INDBYTEX'] and AM['INDWORDX'] in ops:
                mode = AM['INDWORDX']
            elif mode == AM['INDBYTE'] and AM['INDWORD'] in ops:
                mode = AM['INDWORD']
        if mode not in ops:
            self.err(11, False, '%s %s' % (ins.name, s))
            self.again(R_MNE)
            return
        force = self.mnext
        if force >= 0:
            mode = force
            B, W = AM['BYTEADR'], AM['WORDADR']
            if want in (AM['INDBYTEX'], AM['INDBYTEY']):
                self.err(12, False, ins.name)
                self.again(R_MNE)
                return
            if want == AM['BYTEADR_SP']:
                mode = AM['WORDADR_SP'] if force in (W, AM['WORDADR_SP']) else want
            elif want == AM['0Y']:
                mode = AM['WORDADRY'] if force in (W, AM['WORDADRY']) else \
                    AM['BYTEADRY'] if force in (B, AM['BYTEADRY']) else want
            elif want == AM['0X']:
                mode = AM['WORDADRX'] if force in (W, AM['WORDADRX']) else \
                    AM['BYTEADRX'] if force in (B, AM['BYTEADRX']) else want
            if mode not in ops:
                self.err(12, False, ins.name)
                self.again(R_MNE)
                return
        forced_byte = force in BYTEMODES
        if forced_byte and size > 1:
            self.err(20, False, '%s %s, user requested byte mode' % (ins.name, s))
        while size > SIZE[mode]:
            nxt = CVT.get(mode)
            if nxt is None or nxt not in ops:
                if u:
                    break
                wide = None
                if v > 255 and not forced_byte:
                    wide = WIDEN.get(mode)
                if wide in ops:
                    mode = wide
                    break
                self.err(20, False, '%s %s' % (ins.name, s))
                break
            mode = nxt
        if mode in WORDMODES:
            if self.strict and (v > 0xFFFF or v < -0xFFFF):
                self.err(21, False, '%s %s' % (ins.name, s))
        elif mode in CHECK8:
            if v < -0xFF:
                self.err(20, False, 'negative %s %s' % (ins.name, s))
        op = ops[mode]
        b = bytearray((op >> 8, op & 255)) if op > 255 else bytearray((op,))
        rest = 0
        if mode == AM['BITMOD'] or mode == AM['BITBRAMOD']:
            a, au, _ = args[1]
            if mode == AM['BITMOD']:
                if not au and (a >= 0x100 or a < -0xFF):
                    self.err(20, False, 'unknown %s %d' % (ins.name, a))
                self.bitnum(b, args[0], s)
            else:
                self.bitnum(b, args[0], s)
                if not au and (a >= 0x100 or a < -0xFF):
                    self.err(20, False, '%s %d' % (ins.name, a))
            b.append(a & 255)
            rest = 2 if mode == AM['BITBRAMOD'] else 1
        elif mode != AM['REL']:
            n = SIZE[mode]
            if n:
                b += self.word(v, n)
            rest = 1
        if ins.mask:
            if rest >= len(args):
                self.err(23, True)
            a, au, _ = args[rest]
            if not au and (a >= 0x100 or a < -0xFF):
                self.err(20, False, 'unknown && > 256 %s %d' % (ins.name, a))
            b.append(a & 255)
            rest += 1
        if ins.rel or mode in (AM['REL'], AM['BYTEREL']):
            if rest >= len(args):
                self.err(23, True)
            b.append(0)
            t, tu, _ = args[rest]
            if not tu:
                if g.flags & S_RORG:
                    pc, pf = g.rorg, g.rflags
                else:
                    pc, pf = g.org, g.flags
                if not pf & 1:
                    d = s64(t - pc - len(b))
                    if d >= 128 or d < -128:
                        self.err(16, False, '%d' % d)
                        self.again(R_BRANCH)
                        d = 0
                else:
                    self.again(R_MNE)
                    d = 0
                b[-1] = d & 255
        self.code(b)

    def bitnum(self, b, arg, s):
        v, u, _ = arg
        if not u:
            if v < 0 or v > 7:
                self.err(22, False, s)
            else:
                b[0] += v << 1

    # ---- Fairchild F8

    def f8val(self, s):
        """-> (value, unresolved)"""
        v = self.evl(s)
        if len(v) != 1 or s.strip() == '':
            self.err(6, True, s)
        if v[0][1]:
            self.again(R_MNE)
            return (0, True)
        return (v[0][0] & M64, False)

    def f8_imp(self, s, op):
        if s:
            raise Unsupported(s)
        self.seg.flags |= S_REF
        self.label()
        self.code((op,))

    def f8_byte(self, s, a):
        self.label()
        v, _ = self.f8val(s)
        if v > 0xFF:
            self.err(20, False, '%s %s' % (a[0], s))
        self.code((a[1], v & 255))

    def f8_word(self, s, a):
        self.label()
        v, _ = self.f8val(s)
        if v > 0xFFFF:
            self.err(36, False, '%s %s' % (a[0], s))
        self.code((a[1], v >> 8 & 255, v & 255))

    def f8sreg(self, s):
        r = isa.F8_SREGNAME.get(s.lower())
        if r is not None:
            return (r, False)
        v, u = self.f8val(s)
        if u:
            return (0, True)
        if v > 14:
            self.err(35, True, s)
        return (v, False)

    def f8_sreg(self, s, a):
        self.label()
        r, _ = self.f8sreg(s)
        self.code((a[1] | r,))

    def f8_small(self, s, a):
        name, op, lim, code = a
        self.label()
        v, _ = self.f8val(s)
        if v > lim:
            self.err(code, False, '%s %s' % (name, s))
        self.code((op | (v & lim),))

    def f8_shift(self, s, a):
        self.label()
        v, u = self.f8val(s)
        if u:
            self.code((0,))
        elif v in (1, 4):
            self.code((a[1] + (2 if v == 4 else 0),))
        else:
            self.err(32, False, '%s %s' % (a[0], s))
            self.code((0,))

    def f8_lr(self, s, a):
        self.label()
        p = s.split(',')
        if len(p) != 2:
            self.err(6, False, 'lr ' + s)
            return
        x, y = p
        x = x[:-1] if x[-1:] == ' ' else x
        y = y[1:] if y[:1] == ' ' else y
        regs = []
        for t in (x, y):
            r = isa.F8_REGNAME.get(t.lower())
            if r is None:
                r, u = self.f8sreg(t)
                if u:
                    self.code((0,))
                    return
            regs.append(r)
        op = isa.F8_LR.get(tuple(regs))
        if op is None:
            self.err(37, True, 'lr ' + s)
        self.code((op,))

    def f8branch(self, op, s):
        self.label()
        t, u = self.f8val(s)
        if u:
            self.code((0, 0))
            return
        g = self.seg
        if g.flags & S_RORG:
            pc, pf = g.rorg, g.rflags
        else:
            pc, pf = g.org, g.flags
        if not pf & 1:
            d = s64(t - pc - 1)
            if d > 127 or d < -128:
                d &= 0xFFFFFFFF
                self.err(16, False, '%d' % (d - (1 << 32) if d >> 31 else d))
                self.again(R_BRANCH)
                d = 0
        else:
            self.again(R_MNE)
            d = 0
        self.code((op, d & 255))

    def f8_branch(self, s, a):
        self.f8branch(a[1], s)

    def f8_bfbt(self, s, a):
        name, op, lim, code = a
        p = s.split(',')
        if len(p) != 2:
            self.err(6, False, '%s %s' % (name, s))
            return
        v, u = self.f8val(p[0])
        if u:
            self.label()
            self.code((0, 0))
            return
        if v > lim:
            self.err(code, False, '%s %s' % (name, s))
            v &= lim
        self.f8branch(op | v, p[1])


class Macro:
    __slots__ = ('name', 'lines', 'defpass')

    def __init__(self, name, p):
        self.name = name
        self.lines = []
        self.defpass = p


BYTEMODES = frozenset(AM[x] for x in ('IMM8', 'BYTEADR', 'BYTEADRX', 'BYTEADRY', 'BYTEADR_SP'))
WORDMODES = frozenset(AM[x] for x in ('IMM16', 'WORDADR', 'WORDADRX', 'WORDADRY', 'INDWORD', 'INDWORDX', 'WORDADR_SP'))
CHECK8 = BYTEMODES | frozenset(AM[x] for x in ('BYTEREL', 'INDBYTEX', 'INDBYTEY', 'INDBYTE'))
WIDEN = {AM['BYTEADRX']: AM['WORDADRX'], AM['BYTEADRY']: AM['WORDADRY'], AM['BYTEADR_SP']: AM['WORDADR_SP']}

OPS = {
    'list': Asm.op_list, 'include': Asm.op_include, 'seg': Asm.op_seg, 'hex': Asm.op_hex, 'err': Asm.op_err,
    'dc': Asm.op_dc, 'byte': Asm.op_byte, 'word': Asm.op_word, 'long': Asm.op_long, 'ds': Asm.op_ds,
    'dv': Asm.op_dv, 'end': Asm.op_end, 'org': Asm.op_org, 'rorg': Asm.op_rorg, 'rend': Asm.op_rend,
    'align': Asm.op_align, 'subroutine': Asm.op_subroutine, 'equ': Asm.op_equ, '=': Asm.op_equ,
    'eqm': Asm.op_eqm, 'set': Asm.op_set, 'setstr': Asm.op_setstr, 'setsym': Asm.op_setsym,
    'mac': Asm.op_mac, 'macro': Asm.op_mac, 'endm': Asm.op_endm,
    'ifconst': Asm.op_ifconst, 'ifnconst': Asm.op_ifnconst, 'ifndef': Asm.op_ifnconst, 'if': Asm.op_if,
    'else': Asm.op_else, 'endif': Asm.op_endif, 'eif': Asm.op_endif, 'repeat': Asm.op_repeat,
    'repend': Asm.op_repend, 'echo': Asm.op_echo, 'processor': Asm.op_processor, 'incbin': Asm.op_incbin,
    'incdir': Asm.op_incdir, 'trace': Asm.op_trace,
}


def _mexit(self, s):
    Asm.op_endm(self, s)


OPS['mexit'] = _mexit
IFOPS = frozenset(OPS[x] for x in ('mac', 'ifconst', 'ifnconst', 'if', 'else', 'endif', 'repeat', 'repend'))

CPUOPS = {}
for _c, _t in isa.TABLE.items():
    CPUOPS[_c] = {_n: (Asm.ins, _i) for _n, _i in _t.items()}
_f = {}
for _n, _o in isa.F8_IMP.items():
    _f[_n] = (Asm.f8_imp, _o)
for _n, _o in isa.F8_BYTE.items():
    _f[_n] = (Asm.f8_byte, (_n, _o))
for _n, _o in isa.F8_WORD.items():
    _f[_n] = (Asm.f8_word, (_n, _o))
for _n, _o in isa.F8_SREG.items():
    _f[_n] = (Asm.f8_sreg, (_n, _o))
for _n, _o in isa.F8_PORT.items():
    _f[_n] = (Asm.f8_small, (_n, _o, 15, 33))
for _n, _o in isa.F8_BRANCH.items():
    _f[_n] = (Asm.f8_branch, (_n, _o))
_f['lis'] = (Asm.f8_small, ('lis', 0x70, 15, 33))
_f['lisl'] = (Asm.f8_small, ('lisl', 0x68, 7, 34))
_f['lisu'] = (Asm.f8_small, ('lisu', 0x60, 7, 34))
_f['sl'] = (Asm.f8_shift, ('sl', 0x13))
_f['sr'] = (Asm.f8_shift, ('sr', 0x12))
_f['bf'] = (Asm.f8_bfbt, ('bf', 0x90, 15, 33))
_f['bt'] = (Asm.f8_bfbt, ('bt', 0x80, 7, 34))
_f['lr'] = (Asm.f8_lr, None)
_f['res'] = Asm.op_ds
_f['db'] = Asm.op_db
_f['dw'] = Asm.op_dw
_f['dd'] = Asm.op_dd
CPUOPS['f8'] = _f


def symbol_lines(syms):
    """Lines of the symbol file, unordered: [(name, value, order, line)]."""
    out = []
    for s in syms.values():
        line = '%-24s %-12s' % (s.name, sftos(s.value, s.flags))
        if s.flags & STRING:
            line += ' "%s"' % s.string
        out.append((s.name, s.value, s.order, line))
    return out


def assemble(files, main='a.asm', **kw):
    return Asm(files, main, **kw).run()


def confirm(files, main, syms, **kw):
    """One single reading of the source with the final symbol values known from the start.

    A consistent result needs no second pass and gives the same output again."""
    kw.pop('maxpasses', None)
    kw.pop('allpasses', None)
    a = Asm(files, main, maxpasses=1, **kw)
    for n, s in syms.items():
        t = Sym(n, s.order if s.order <= a.cmdsyms else 0)
        t.value, t.flags, t.string = s.value, s.flags & ~REF, s.string
        a.syms[n] = t
    return a.run()
