"""Model of C integer types and a generator of well-defined integer expressions with known values (LP64 x86-64)."""
import random

class T:
    __slots__ = ('name', 'bits', 'signed', 'rank', 'bool')
    def __init__(s, name, bits, signed, rank, isbool=False):
        s.name, s.bits, s.signed, s.rank, s.bool = name, bits, signed, rank, isbool
    def __repr__(s): return s.name
    @property
    def lo(s): return -(1 << (s.bits - 1)) if s.signed else 0
    @property
    def hi(s): return 1 if s.bool else ((1 << (s.bits - 1)) - 1 if s.signed else (1 << s.bits) - 1)

BOOL = T('_Bool', 8, False, 0, True)
CHAR = T('char', 8, True, 1)
SCHAR = T('signed char', 8, True, 1)
UCHAR = T('unsigned char', 8, False, 1)
SHORT = T('short', 16, True, 2)
USHORT = T('unsigned short', 16, False, 2)
INT = T('int', 32, True, 3)
UINT = T('unsigned', 32, False, 3)
LONG = T('long', 64, True, 4)
ULONG = T('unsigned long', 64, False, 4)
LL = T('long long', 64, True, 5)
ULL = T('unsigned long long', 64, False, 5)
ALL = [BOOL, CHAR, SCHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, LL, ULL]
UNS = {INT: UINT, LONG: ULONG, LL: ULL}


def conv(v, t):
    if t.bool:
        return 1 if v else 0
    v &= (1 << t.bits) - 1
    if t.signed and v >> (t.bits - 1):
        v -= 1 << t.bits
    return v


def promote(t):
    return INT if t.rank < 3 else t


def common(a, b):
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank > b.rank else b
    s, u = (a, b) if a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.bits > u.bits:
        return s
    return UNS[s]


def inrange(v, t):
    return t.lo <= v <= t.hi


BOUND = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096,
         32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000,
         0xffffffffffffffff, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0x123456789abcdef0, 0xdeadbeef, 0xff00ff00, 0x00ff00ff]


def rval(r, t):
    k = r.random()
    if k < .45:
        v = r.choice(BOUND)
        if r.random() < .4:
            v = -v
        if r.random() < .15:
            v += r.choice((-1, 1))
    elif k < .6:
        v = (1 << r.randrange(64)) + r.choice((-1, 0, 0, 1))
        if r.random() < .3:
            v = -v
    elif k < .75:
        v = r.randrange(-20, 40)
    else:
        v = r.getrandbits(r.choice((8, 16, 31, 32, 33, 63, 64)))
        if r.random() < .3:
            v = -v
    return conv(v, t)


def lit(r, v, t, plain=False):
    """A literal spelling of value v whose C type is exactly promote-like t (int, uint, long, ulong, ll, ull), or cast."""
    if t.rank < 3:
        return f'({t.name})({lit(r, v, INT)})' if v >= 0 else f'({t.name})({lit(r, v, INT)})'
    suf = {INT: '', UINT: 'u', LONG: 'l', ULONG: 'ul', LL: 'll', ULL: 'ull'}[t]
    if v < 0:
        if v == t.lo:
            return f'(-{-(v + 1)}{suf}-1)'
        return f'(-{-v}{suf})' if not plain else f'-{-v}{suf}'
    k = r.random()
    if k < .6 or t in (INT,) and v > 0x7fffffff:
        s = str(v)
    elif k < .85:
        s = hex(v)
    else:
        s = '0' + oct(v)[2:] if v else '0'
    if r.random() < .3:
        suf = suf.upper()
    return s + suf


class N:
    """Expression: text, type, value; pure=True if no side effects; const=True if a constant expression."""
    __slots__ = ('s', 't', 'v')
    def __init__(self, s, t, v):
        self.s, self.t, self.v = s, t, v


def binop(op, a, b):
    """Type and value of a op b, or None when undefined."""
    if op in ('<<', '>>'):
        t = promote(a.t)
        x = conv(a.v, t)
        n = b.v
        if n < 0 or n >= t.bits:
            return None
        if op == '<<':
            if t.signed:
                if x < 0 or not inrange(x << n, t):
                    return None
            return t, conv(x << n, t)
        return t, x >> n
    t = common(a.t, b.t)
    x, y = conv(a.v, t), conv(b.v, t)
    if op == '+': v = x + y
    elif op == '-': v = x - y
    elif op == '*': v = x * y
    elif op in '/%':
        if y == 0:
            return None
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if t.signed and not inrange(q, t):
            return None
        v = q if op == '/' else x - q * y
    elif op == '&': v = x & y
    elif op == '|': v = x | y
    elif op == '^': v = x ^ y
    elif op == '==': return INT, int(x == y)
    elif op == '!=': return INT, int(x != y)
    elif op == '<': return INT, int(x < y)
    elif op == '<=': return INT, int(x <= y)
    elif op == '>': return INT, int(x > y)
    elif op == '>=': return INT, int(x >= y)
    else: raise ValueError(op)
    if t.signed and not inrange(v, t):
        return None
    return t, conv(v, t)


def unop(op, a):
    if op == '!':
        return INT, int(a.v == 0)
    t = promote(a.t)
    x = conv(a.v, t)
    if op == '-':
        if t.signed and not inrange(-x, t):
            return None
        return t, conv(-x, t)
    if op == '~':
        return t, conv(~x, t)
    return t, x


ARITH = ['+', '-', '*', '/', '%', '&', '|', '^']
CMP = ['==', '!=', '<', '<=', '>', '>=']


class Gen:
    """leaf(r) -> N ; all generated text is fully parenthesised per operator unless parens=False contexts."""
    def __init__(self, r, leaf, const_leaf=None, types=ALL, assign_leaf=None, comma=True):
        self.comma = comma
        self.r, self.leaf, self.types = r, leaf, types
        self.const_leaf = const_leaf or self.literal
        self.assign_leaf = assign_leaf

    def literal(self, t=None):
        r = self.r
        t = t or r.choice((INT, INT, INT, UINT, LONG, ULONG, LL, ULL, r.choice(self.types)))
        v = rval(r, t)
        return N(lit(r, v, t), t, v)

    def expr(self, depth):
        r = self.r
        if depth <= 0:
            k = r.random()
            if self.assign_leaf and k < .06:
                return self.assign_leaf(self)
            return self.leaf() if k < .72 else self.const_leaf()
        k = r.random()
        if k < .52:
            return self.binary(depth)
        if k < .62:
            a = self.expr(depth - 1)
            op = r.choice('-~!+')
            x = unop(op, a)
            if x is None:
                op = '~'
                x = unop(op, a)
            return N(f'({op}{a.s})' if not a.s.startswith(op) else f'({op} {a.s})', *x)
        if k < .76:
            a = self.expr(depth - 1)
            t = r.choice(self.types)
            return N(f'(({t.name}){a.s})', t, conv(a.v, t))
        if k < .84:
            a = self.expr(depth - 1)
            b = self.expr(depth - 1)
            op = r.choice(('&&', '||'))
            v = int(bool(a.v) and bool(b.v)) if op == '&&' else int(bool(a.v) or bool(b.v))
            return N(f'({a.s} {op} {b.s})', INT, v)
        if k < .92:
            c = self.expr(depth - 1)
            a = self.expr(depth - 1)
            b = self.expr(depth - 1)
            t = common(a.t, b.t)
            return N(f'({c.s} ? {a.s} : {b.s})', t, conv(a.v if c.v else b.v, t))
        if k < .94 and self.comma:
            a = self.expr(min(depth - 1, 1))
            b = self.expr(depth - 1)
            return N(f'({a.s}, {b.s})', b.t, b.v)
        return self.expr(depth - 1)

    def operand_depths(self, depth):
        r = self.r
        k = r.random()
        if k < .4:
            return depth - 1, r.randrange(0, depth)
        if k < .8:
            return r.randrange(0, depth), depth - 1
        return depth - 1, depth - 1

    def binary(self, depth):
        r = self.r
        d1, d2 = self.operand_depths(depth)
        a = self.expr(d1)
        op = r.choice(ARITH + ARITH + CMP + ['<<', '>>', '>>', '<<'])
        if op in ('<<', '>>') and r.random() < .8:
            t = promote(a.t)
            n = r.choice((0, 1, 2, 3, 4, 7, 8, 15, 16, 24, 31, t.bits - 1, r.randrange(t.bits)))
            n = min(n, t.bits - 1)
            if r.random() < .5:
                b = self.expr(d2)
                m = (b.v & n)
                b = N(f'({b.s} & {n})', common(b.t, INT), m) if d2 or r.random() < .5 else N(str(n), INT, n)
            else:
                b = N(str(n), INT, n)
            if op == '<<' and t.signed:
                if r.random() < .7:
                    u = UNS[t]
                    a = N(f'(({u.name}){a.s})', u, conv(a.v, u))
                else:
                    op = '>>'
        elif op in '/%*' and r.random() < .5:
            b = self.const_leaf()
        else:
            b = self.expr(d2)
        x = binop(op, a, b)
        if x is None:
            # make it well defined: unsigned arithmetic, or another operator
            t = common(a.t, b.t)
            if op in ('+', '-', '*') and t.signed:
                u = UNS[t]
                if r.random() < .5:
                    a = N(f'(({u.name}){a.s})', u, conv(a.v, u))
                else:
                    b = N(f'(({u.name}){b.s})', u, conv(b.v, u))
                x = binop(op, a, b)
            if x is None:
                for op in r.sample(['&', '|', '^', '==', '<', '>=', '!='], 7):
                    x = binop(op, a, b)
                    if x:
                        break
        return N(f'({a.s} {op} {b.s})', *x)
