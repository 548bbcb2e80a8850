"""Reference evaluator for assembler expressions.

Written from the manual's operator table, as a recursive precedence-climbing
parser producing a small AST (the assembler itself uses an operator stack).

A value is a triple (number, unknown, string):
  number   signed 64-bit integer
  unknown  True if it depends on something that has no value yet
  string   the text, for string constants and string symbols, else None
"""

MASK = (1 << 64) - 1
SIGN = 1 << 63


def s64(v):
    v &= MASK
    return v - (1 << 64) if v & SIGN else v


class Bad(Exception):
    """The text is not an expression the model accepts."""


class DivZero(Exception):
    pass


BIN = {
    '*': 20, '/': 20, '%': 20, '+': 19, '-': 19, '<<': 18, '>>': 18,
    '<': 17, '<=': 17, '>': 17, '>=': 17, '==': 16, '=': 16, '!=': 16,
    '&': 15, '^': 14, '|': 13, '&&': 12, '||': 11, '?': 10,
}
TWO = ('<<', '>>', '<=', '>=', '==', '!=', '&&', '||')
UNARY = '-~!<>'
SYMCH = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.@{}')


class Parser:
    def __init__(self, text):
        self.t = text
        self.i = 0

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] in ' \n':
            self.i += 1

    def peek(self):
        self.ws()
        return self.t[self.i] if self.i < len(self.t) else ''

    def lists(self):
        """exp {, exp}"""
        if self.peek() == '#':
            self.i += 1
        out = [self.binary(0)]
        while self.peek() == ',':
            self.i += 1
            out.append(self.binary(0))
        if self.peek():
            raise Bad(self.t)
        return out

    def whole(self):
        e = self.binary(0)
        if self.peek():
            raise Bad(self.t)
        return e

    def binop(self):
        c = self.peek()
        if not c:
            return None
        two = self.t[self.i:self.i + 2]
        if two in TWO:
            return two
        if c in BIN:
            return c
        return None

    def binary(self, minprec):
        left = self.unary()
        while True:
            op = self.binop()
            if op is None or BIN[op] < minprec:
                return left
            self.i += len(op)
            right = self.binary(BIN[op] + 1)      # all binary operators associate to the left
            left = ('b', op, left, right)

    def unary(self):
        c = self.peek()
        if c and c in UNARY:
            self.i += 1
            return ('u', c, self.unary())
        return self.primary()

    def digits(self, allowed):
        j = self.i
        while j < len(self.t) and self.t[j] in allowed:
            j += 1
        s = self.t[self.i:j]
        self.i = j
        return s

    def primary(self):
        c = self.peek()
        t = self.t
        if c == '':
            raise Bad(t)
        if c in '[(':
            self.i += 1
            e = self.binary(0)
            if self.peek() not in ('])'):
                raise Bad(t)
            if self.peek() == '':
                raise Bad(t)
            self.i += 1
            if self.i < len(t) and t[self.i] == 'd':
                self.i += 1
                return ('d', e)
            return e
        if c == '*':
            self.i += 1
            return ('s', '.')
        if c == '%':
            self.i += 1
            return ('n', int(self.digits('01') or '0', 2))
        if c == '$':
            self.i += 1
            return ('n', s64(int(self.digits('0123456789abcdefABCDEF') or '0', 16)))
        if c == "'":
            self.i += 1
            if self.i < len(t):
                v = ord(t[self.i])
                self.i += 1
                return ('n', v)
            return ('n', 32)
        if c == '"':
            j = t.find('"', self.i + 1)
            if j < 0:
                raise Bad(t)
            s = t[self.i + 1:j]
            self.i = j + 1
            return ('str', s)
        if c.isdigit():
            j = self.i
            while j < len(t) and t[j].isdigit():
                j += 1
            if j < len(t) and t[j] == '$':
                s = t[self.i:j + 1]
                self.i = j + 1
                return ('s', s)
            if t[self.i:self.i + 2] == '0x':
                self.i += 2
                return ('n', s64(int(self.digits('0123456789abcdefABCDEF') or '0', 16)))
            if c == '0':
                return ('n', int(self.digits('01234567'), 8))
            return ('n', s64(int(self.digits('0123456789'))))
        j = self.i
        while j < len(t) and t[j] in SYMCH:
            j += 1
        if j == self.i:
            raise Bad(t)
        if j < len(t) and t[j] == '$':
            j += 1
        s = t[self.i:j]
        self.i = j
        return ('s', s)


_cache = {}


def parse_list(text):
    r = _cache.get(text)
    if r is None:
        try:
            p = Parser(text)
            r = [] if p.peek() == '' else p.lists()
        except Bad as e:
            r = e
        if len(_cache) > 200000:
            _cache.clear()
        _cache[text] = r
    if isinstance(r, Bad):
        raise r
    return r


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def strval(s):
    v = 0
    for ch in s:
        v = (v << 8) | ord(ch)
    return s64(v)


def ev(ast, sym):
    """sym(name) -> (number, unknown, string)"""
    k = ast[0]
    if k == 'n':
        return (ast[1], False, None)
    if k == 's':
        return sym(ast[1])
    if k == 'str':
        return (strval(ast[1]), False, ast[1])
    if k == 'd':
        v, u, s = ev(ast[1], sym)
        if not u:
            s = str(v)
        return (v, u, s)
    if k == 'u':
        v, u, _ = ev(ast[2], sym)
        op = ast[1]
        if op == '-':
            v = s64(-v)
        elif op == '~':
            v = ~v
        elif op == '!':
            v = 0 if v else 1
        elif op == '<':
            v &= 0xFF
        else:
            v = (v >> 8) & 0xFF
        return (v, u, None)
    a, ua, _ = ev(ast[2], sym)
    b, ub, _ = ev(ast[3], sym)
    op = ast[1]
    u = ua or ub
    if op == '&&':
        if (not ua and not a) or (not ub and not b):
            return (0, False, None)
        return (1, u, None)
    if op == '||':
        if (not ua and a) or (not ub and b):
            return (1, False, None)
        return (0, u, None)
    if op == '?':
        if ua:
            return (0, True, None)
        return (b, ub, None) if a else (0, False, None)
    if op in ('/', '%', '<<', '>>') and u:
        return (0, True, None)
    if op == '+':
        v = s64(a + b)
    elif op == '-':
        v = s64(a - b)
    elif op == '*':
        v = s64(a * b)
    elif op == '/':
        if b == 0:
            raise DivZero()
        v = s64(cdiv(a, b))
    elif op == '%':
        v = a if b == 0 else a - b * cdiv(a, b)
    elif op == '<<':
        v = s64(a << b) if 0 <= b <= 63 else 0
    elif op == '>>':
        v = a >> b if 0 <= b <= 63 else (-1 if a < 0 else 0)
    elif op == '&':
        v = a & b
    elif op == '|':
        v = a | b
    elif op == '^':
        v = a ^ b
    elif op == '<':
        v = int(a < b)
    elif op == '<=':
        v = int(a <= b)
    elif op == '>':
        v = int(a > b)
    elif op == '>=':
        v = int(a >= b)
    elif op in ('==', '='):
        v = int(a == b)
    elif op == '!=':
        v = int(a != b)
    else:
        raise Bad(op)
    return (v, u, None)
