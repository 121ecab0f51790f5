"""Generator of floating expressions.  Values are tracked only approximately (to keep conversions defined); the oracle is a reference build."""
import math, struct
from .cint import *


class F:
    def __init__(s, name, rank, suf):
        s.name, s.rank, s.suf = name, rank, suf
    def __repr__(s): return s.name


FLT, DBL, LDB = F('float', 10, 'f'), F('double', 11, ''), F('long double', 12, 'L')
FPS = [FLT, DBL, LDB]

FPRELUDE = r'''
extern int printf(const char *, ...);
extern void *memcpy(void *, const void *, unsigned long);
typedef unsigned long long u64;
void E(int id, u64 v) { printf("%d %llx\n", id, v); }
void Ef(int id, float f) { unsigned u; memcpy(&u, &f, 4); if (f != f) printf("%d nan\n", id); else printf("%d f%x\n", id, u); }
void Ed(int id, double f) { u64 u; memcpy(&u, &f, 8); if (f != f) printf("%d nan\n", id); else printf("%d d%llx\n", id, u); }
void El(int id, long double f) { u64 u; unsigned short s; memcpy(&u, &f, 8); memcpy(&s, (char *)&f + 8, 2);
  if (f != f) printf("%d nan\n", id); else printf("%d l%x:%llx\n", id, s, u); }
'''
FPROTO = '''extern int printf(const char *, ...);
typedef unsigned long long u64;
void E(int id, u64 v); void Ef(int id, float f); void Ed(int id, double f); void El(int id, long double f);
'''
EMIT = {FLT: 'Ef', DBL: 'Ed', LDB: 'El'}


def tofloat(v):
    try:
        return float(v)
    except OverflowError:
        return math.inf if v > 0 else -math.inf


def rf(v):
    """approximate rounding to float range"""
    try:
        return struct.unpack('f', struct.pack('f', v))[0]
    except (OverflowError, struct.error):
        return math.inf if v > 0 else -math.inf


SPECIAL = [0.0, 1.0, 0.5, 2.0, 1.5, 3.0, 0.1, 1e10, 1e-10, 16777216.0, 16777217.0, 9007199254740993.0, 4294967295.0, 4294967296.0, 2147483648.0,
           9223372036854775808.0, 18446744073709549568.0, 1.17549435e-38, 2.2250738585072014e-308, 1e308, 3.4e38, 5e-324, 1e-45, 255.5, 127.9, 0.999999999,
           65535.5, 1 / 3, 1 + 2 ** -52, 1 + 2 ** -23, 2 ** 53 + 2.0, 1e300, 1e-300]


def frand(r, t, special=True):
    k = r.random()
    if k < .4 and special:
        v = r.choice(SPECIAL)
    elif k < .6:
        v = r.randrange(-1000, 1000) / r.choice((1, 2, 3, 7, 8, 10, 16))
    elif k < .8:
        v = (1 + r.getrandbits(52) / 2 ** 52) * 2.0 ** r.randrange(-8, 70)
    else:
        v = (1 + r.getrandbits(52) / 2 ** 52) * 2.0 ** r.randrange(*((-130, 120) if t is FLT else (-1000, 1000)))
    if r.random() < .35:
        v = -v
    if t is FLT and abs(v) > 3.4e38:
        v = math.copysign(3.4e38, v)
    return v


def flit(r, v, t, sign_ok=True):
    s = '-' if v < 0 or (v == 0 and math.copysign(1, v) < 0) else ''
    a = abs(v)
    k = r.random()
    if t is LDB and k < .2 and 0 < a < 1e300:
        # a long double literal that is not a double
        s2 = f'0x1.{r.getrandbits(63):016x}p{r.randrange(-200, 200)}'
        a2 = float.fromhex(s2)
        return (f'({s}{s2}{t.suf})' if s else s2 + t.suf), (-a2 if s else a2)
    if k < .45:
        m = a.hex()
    elif k < .8:
        m = repr(a)
    else:
        m = '%.*e' % (r.choice((3, 8, 17, 20)), a)
        a = float(m)
    if 'inf' in m:
        m, a = '1e300', 1e300
    v = -a if s else a
    if t is FLT:
        v = rf(v)
    suf = t.suf if r.random() < .7 else t.suf.swapcase()
    return (f'({s}{m}{suf})' if s else m + suf), v


def fcommon(a, b):
    if isinstance(a, F) or isinstance(b, F):
        if not isinstance(a, F): return b
        if not isinstance(b, F): return a
        return a if a.rank > b.rank else b
    return common(a, b)


def can_convert(v, t):
    """fp value (approximate; nan/None when not known reliably) -> integer type defined for sure?"""
    if v is None or math.isnan(v) or math.isinf(v):
        return False
    lo, hi = float(t.lo), float(t.hi)
    m = 1e-3 * max(abs(v), 1)
    if t.bool:
        return abs(v) > 1e-6
    if t.lo == 0:
        return v > -0.9 and v + m < hi
    return v - m > lo and v + m < hi


NAN = math.nan


def known(v):
    return v is not None and v == v


class FGen:
    """leaf(t) -> N(s, t, approx v) for F or integer type t.  v is nan/None when not reliably known (see can_convert)."""
    def __init__(self, r, leaf, assign=None):
        self.r, self.leaf = r, leaf

    def anytype(self):
        r = self.r
        return r.choice(FPS) if r.random() < .7 else r.choice(ALL)

    def fexpr(self, depth):
        """An expression of floating type."""
        r = self.r
        e = self.expr(depth)
        if isinstance(e.t, F):
            return e
        t = r.choice(FPS)
        return N(f'(({t.name}){e.s})', t, self.cv(e.v, t))

    def cv(self, v, t):
        if v is None:
            return NAN
        v = tofloat(v)
        v = rf(v) if t is FLT else v
        return NAN if math.isinf(v) else v

    def arith(self, op, x, y):
        if x != x or y != y:
            return NAN
        try:
            if op == '+': v = x + y
            elif op == '-': v = x - y
            elif op == '*': v = x * y
            else: v = x / y if y else NAN
        except OverflowError:
            return NAN
        if op in '+-' and abs(v) < 1e-3 * max(abs(x), abs(y)):
            return NAN
        if math.isinf(v) or (abs(v) < 1e-30 and not (op == '*' and (x == 0 or y == 0))):
            return NAN
        return v

    def compare(self, op, x, y):
        if not known(x) or not known(y):
            return None
        x, y = tofloat(x), tofloat(y)
        if abs(x - y) <= 1e-3 * max(abs(x), abs(y)):
            return None
        return int({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])

    def truth(self, x):
        if not known(x) or (isinstance(x, float) and abs(x) < 1e-6):
            return None
        return bool(x)

    def expr(self, depth):
        r = self.r
        if depth <= 0:
            return self.leaf(self.anytype())
        k = r.random()
        if k < .5:
            d1, d2 = (depth - 1, r.randrange(depth)) if r.random() < .5 else (r.randrange(depth), depth - 1)
            a, b = self.expr(d1), self.expr(d2)
            if not isinstance(a.t, F) and not isinstance(b.t, F):
                a = self.fexpr(0)
            t = fcommon(a.t, b.t)
            op = r.choice('+-*/+-*')
            return N(f'({a.s} {op} {b.s})', t, self.cv(self.arith(op, self.cv(a.v, t), self.cv(b.v, t)), t))
        if k < .6:
            a = self.fexpr(depth - 1)
            op = r.choice('--+!')
            if op == '!':
                v = self.truth(a.v)
                return N(f'(!{a.s})', INT, None if v is None else int(not v))
            return N(f'({op} {a.s})', a.t, -a.v if op == '-' else a.v)
        if k < .76:
            a = self.expr(depth - 1)
            t = self.anytype()
            if isinstance(t, F):
                return N(f'(({t.name}){a.s})', t, self.cv(a.v, t))
            if isinstance(a.t, F):
                if t.bool:
                    v = self.truth(a.v)
                    return N(f'(({t.name}){a.s})', t, None if v is None else int(v))
                if not can_convert(a.v, t):
                    t = r.choice(FPS)
                    return N(f'(({t.name}){a.s})', t, self.cv(a.v, t))
                return N(f'(({t.name}){a.s})', t, int(a.v) if abs(a.v - round(a.v)) > .01 * max(1, abs(a.v)) else None)
            return N(f'(({t.name}){a.s})', t, None if a.v is None else conv(int(a.v), t))
        if k < .86:
            a, b = self.fexpr(depth - 1), self.expr(r.randrange(depth))
            if r.random() < .5: a, b = b, a
            op = r.choice(CMP)
            return N(f'({a.s} {op} {b.s})', INT, self.compare(op, a.v, b.v))
        if k < .93:
            c = self.expr(depth - 1)
            a, b = self.expr(r.randrange(depth)), self.fexpr(r.randrange(depth))
            t = fcommon(a.t, b.t)
            va, vb = self.cv(a.v, t), self.cv(b.v, t)
            ct = self.truth(c.v)
            v = NAN if ct is None else va if ct else vb
            return N(f'({c.s} ? {a.s} : {b.s})', t, v)
        if k < .97:
            a, b = self.fexpr(depth - 1), self.fexpr(r.randrange(depth))
            op = r.choice(('&&', '||'))
            return N(f'({a.s} {op} {b.s})', INT, None)
        return self.fexpr(depth - 1)
