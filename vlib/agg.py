"""Random aggregate types (struct/union/array, bit-fields, anonymous members, packed, aligned, flexible arrays)."""
from .cint import *
from .cfp import FLT, DBL, LDB, FPS, F, flit, frand


class Sc:
    """scalar: c = spelling usable before a declarator; k = T | F | 'ptr'"""
    def __init__(s, c, k, size, enum=None):
        s.c, s.k, s.size, s.enum = c, k, size, enum
    align = property(lambda s: s.size)
    def __repr__(s): return s.c


class Arr:
    def __init__(s, e, n): s.e, s.n = e, n
    size = property(lambda s: s.e.size * s.n)
    align = property(lambda s: s.e.align)


class Mem:
    def __init__(s, name, ty, width=None, attr='', pre=''):
        s.name, s.ty, s.width, s.attr, s.pre = name, ty, width, attr, pre


class Ag:
    def __init__(s, kind, tag):
        s.kind, s.tag = kind, tag
        s.mems, s.packed, s.aligned, s.flex = [], False, 0, None
        s.anon_ok = True
        s.size = s.align = None      # only an estimate (generator heuristics)
    c = property(lambda s: f'{s.kind} {s.tag}')


INTS = [Sc(t.name, t, t.bits // 8) for t in ALL]
FLS = [Sc('float', FLT, 4), Sc('double', DBL, 8), Sc('long double', LDB, 16)]
PTR = Sc('void *', 'ptr', 8)
FPTR = Sc('fnp_t', 'ptr', 8)
EU, ES = Sc('enum EU', UINT, 4, (0, 7)), Sc('enum ES', INT, 4, (-4, 3))
AGG_PRE = 'typedef int (*fnp_t)(void);\nenum EU { EU0, EU1, EU7 = 7 };\nenum ES { ESm = -4, ES0 = 0, ES3 = 3 };\n'


class AggGen:
    def __init__(self, r, pre='T', packed=.12, aligned=.12, bitf=.3, flex=.06, ldbl=True, enums=True, unions=.2, maxmem=7, fmem=True, anon=.12):
        self.r, self.pre = r, pre
        self.n = 0
        self.defs = []
        self.packed, self.aligned, self.bitf, self.flexp, self.ldbl, self.enums, self.unions = packed, aligned, bitf, flex, ldbl, enums, unions
        self.maxmem, self.fmem, self.anon = maxmem, fmem, anon

    def scalar(self):
        r = self.r
        k = r.random()
        if k < .72 or (not self.fmem and k < .9): return r.choice(INTS)
        if k < .9: return r.choice(FLS if self.ldbl else FLS[:2])
        if k < .95 or not self.enums: return r.choice((PTR, FPTR))
        return r.choice((EU, ES))

    def nm(self):
        self.n += 1
        return f'm{self.n}'

    def agg(self, depth=2, top=True, kind=None):
        r = self.r
        kind = kind or ('union' if r.random() < self.unions else 'struct')
        self.n += 1
        a = Ag(kind, f'{self.pre}{self.n}')
        a.packed = r.random() < self.packed
        a.aligned = r.choice((2, 4, 8, 16, 32, 64)) if r.random() < self.aligned else 0
        nm = r.choice((1, 1, 2, 2, 3, 3, 4, 5, self.maxmem))
        # packed aggregates: a leading run of bit-fields that do not straddle or over-read their unit
        if a.packed and r.random() < self.bitf * 2:
            bits = 0
            for _ in range(r.randrange(1, 6)):
                t = r.choice(INTS)
                w = r.randrange(1, (1 if t.k is BOOL else t.k.bits) + 1)
                b0 = bits if kind == 'struct' else 0
                if b0 // (t.size * 8) != (b0 + w - 1) // (t.size * 8):
                    continue
                a.mems.append(Mem(self.nm(), t, w))
                if kind == 'struct': bits += w
            a.mems.append(Mem(self.nm(), Arr(INTS[1], r.choice((8, 9, 13)))))
        i = 0
        while i < nm:
            i += 1
            k = r.random()
            if not a.packed and k < self.bitf:
                for _ in range(r.choice((1, 1, 2, 3, 4, 6))):
                    if r.random() < .12:
                        t = r.choice(INTS[1:])
                        w = 0 if r.random() < .6 else r.randrange(1, t.k.bits + 1)
                        a.mems.append(Mem(None, t, w))
                        continue
                    t = r.choice(INTS + [EU, ES] if self.enums and r.random() < .3 else INTS)
                    full = 1 if t.k is BOOL else t.k.bits
                    w = r.choice((1, full, full // 2 or 1, r.randrange(1, full + 1), r.randrange(1, full + 1), min(full, r.choice((8, 16, 31, 32, 33, 63)))))
                    if t.enum: w = r.choice((3, 3, 4, 8, 9, 31, 32, r.randrange(3, 33)))
                    at = f' __attribute__((aligned({r.choice((1, 2, 4, 8, 16))})))' if r.random() < .04 and self.aligned else ''
                    a.mems.append(Mem(self.nm(), t, w, at))
                continue
            at = pre = ''
            if r.random() < .06 and self.aligned: at = f' __attribute__((aligned({r.choice((1, 2, 4, 8, 16, 32))})))'
            ty = None
            if depth > 0 and r.random() < .3:
                ty = self.agg(depth - 1, False)
                if r.random() < self.anon / .3 and ty.anon_ok and not ty.flex:
                    ty.anonymous = True
                    a.mems.append(Mem(None, ty))
                    continue
            else:
                ty = self.scalar()
                if at == '' and r.random() < .05 and self.aligned and not a.packed:
                    pre = f'_Alignas({r.choice((16, 32, 64))}) '
            if r.random() < .22:
                ty = Arr(ty, r.choice((1, 2, 3, 4, 5, 7)))
                if r.random() < .25: ty = Arr(ty, r.choice((1, 2, 3)))
            a.mems.append(Mem(self.nm(), ty, None, at, pre))
        if not any(m.name for m in a.mems):
            a.mems.append(Mem(self.nm(), self.scalar()))
        if top and kind == 'struct' and r.random() < self.flexp:
            a.flex = self.scalar()
            a.mems.append(Mem(self.nm(), Arr(a.flex, -1)))
        if not getattr(a, 'hold', False):
            pass
        a.text = self.body(a)
        if top:
            self.emit(a)
        return a

    def emit(self, a):
        """definitions, innermost first"""
        for m in a.mems:
            t = m.ty
            while isinstance(t, Arr): t = t.e
            if isinstance(t, Ag) and getattr(t, 'anonymous', False):
                self.emit(t)
            elif isinstance(t, Ag):
                if self.r.random() < .2 and not getattr(t, 'done', False):
                    t.inline = True       # defined inside its parent (anonymous tag or not)
                self.emit(t)
        if not getattr(a, 'anonymous', False) and not getattr(a, 'inline', False) and not getattr(a, 'done', False):
            a.done = True
            self.defs.append(self.spell(a) + ';')

    def spell(self, a, tag=True):
        at = []
        if a.packed: at.append('packed')
        if a.aligned: at.append(f'aligned({a.aligned})')
        ats = f' __attribute__(({", ".join(at)}))' if at else ''
        front = len(a.tag) % 2 == 0 or not tag
        return f'{a.kind}{ats if front else ""} {a.tag if tag else ""} {{ {self.body(a)} }}{"" if front else ats}'

    def body(self, a):
        out = []
        for m in a.mems:
            t, suf = m.ty, ''
            while isinstance(t, Arr):
                suf += f'[{t.n if t.n >= 0 else ""}]'
                t = t.e
            if isinstance(t, Ag) and getattr(t, 'anonymous', False):
                out.append(self.spell(t, False) + ';')
                continue
            if isinstance(t, Ag) and getattr(t, 'inline', False):
                ts = self.spell(t)
            else: ts = t.c
            if m.width is not None:
                out.append(f'{m.pre}{ts} {m.name or ""} : {m.width}{m.attr};')
            else:
                out.append(f'{m.pre}{ts} {m.name}{suf}{m.attr};')
        return ' '.join(out)


def leaves(a, path='', limit=None):
    """(path, Sc, width) of every accessible scalar; arrays contribute first and last element."""
    out = []
    for m in a.mems:
        t = m.ty
        if isinstance(t, Ag) and getattr(t, 'anonymous', False):
            out += leaves(t, path)
            continue
        if m.name is None: continue
        p = path + '.' + m.name
        out += _lv(t, p, m.width)
    return out


def _lv(t, p, width):
    if isinstance(t, Arr):
        n = t.n if t.n >= 0 else 3
        out = []
        for i in sorted({0, n - 1}):
            out += _lv(t.e, f'{p}[{i}]', None)
        return out
    if isinstance(t, Ag):
        return leaves(t, p)
    return [(p, t, width)]


def all_leaves(t, p=''):
    """like leaves but every array element; for union: only members, all of them"""
    if isinstance(t, Arr):
        out = []
        for i in range(max(t.n, 0)):
            out += all_leaves(t.e, f'{p}[{i}]')
        return out
    if isinstance(t, Ag):
        out = []
        for m in t.mems:
            if isinstance(m.ty, Ag) and getattr(m.ty, 'anonymous', False):
                out += all_leaves(m.ty, p)
            elif m.name is None: continue
            elif m.width is not None: out.append((p + '.' + m.name, m.ty, m.width))
            else: out += all_leaves(m.ty, p + '.' + m.name)
        return out
    return [(p, t, None)]


def subobjects(a, path=''):
    """paths of every named member (not through bit-fields): for offsetof/sizeof"""
    out = []
    for m in a.mems:
        if isinstance(m.ty, Ag) and getattr(m.ty, 'anonymous', False):
            out += subobjects(m.ty, path); continue
        if m.name is None or m.width is not None: continue
        t, p = m.ty, path + '.' + m.name
        out.append((p, t))
        while isinstance(t, Arr):
            if t.n < 0: p += '[2]'
            else: p += f'[{t.n - 1}]'
            t = t.e
            out.append((p, t))
        if isinstance(t, Ag): out += subobjects(t, p)
    return out


def value(r, t, width=None):
    """C text of a value for scalar t"""
    if t.enum: return r.choice({'enum EU': ('EU0', 'EU1', 'EU7'), 'enum ES': ('ESm', 'ES0', 'ES3')}[t.c])
    if t.k == 'ptr': return f'({t.c}){r.choice((0, 1, 0x1234567890, 0xfedcba9876543210, r.getrandbits(64)))}ull'
    if isinstance(t.k, F): return flit(r, frand(r, t.k), t.k)[0]
    v = rval(r, t.k)
    return lit(r, v, t.k)
