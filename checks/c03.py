"""C03: floating-point arithmetic and conversions are bit-exact (bit patterns logged; gcc/clang as reference)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.cint import *
from vlib.cfp import *
from vlib.diff import Diff

PRE = FPRELUDE + r'''
void Rf(int id, float f) { unsigned u; memcpy(&u, &f, 4); printf("%d F%x\n", id, u); }
void Rd(int id, double f) { u64 u; memcpy(&u, &f, 8); printf("%d D%llx\n", id, u); }
void Rl(int id, long double f) { u64 u; unsigned short s; memcpy(&u, &f, 8); memcpy(&s, (char *)&f + 8, 2); printf("%d L%x:%llx\n", id, s, u); }
float mkf(unsigned u) { float f; memcpy(&f, &u, 4); return f; }
double mkd(u64 u) { double f; memcpy(&f, &u, 8); return f; }
long double mkl(unsigned s, u64 u) { long double f = 0; unsigned short h = s; memcpy(&f, &u, 8); memcpy((char *)&f + 8, &h, 2); return f; }
'''
STOR = ['local'] * 3 + ['param'] * 3 + ['global', 'sglobal', 'slocal', 'volatile', 'deref', 'index', 'member', 'pmember', 'union', 'call', 'callarg', 'const',
        'complit', 'stmtexpr', 'tls', 'arrmember', 'cond', 'vla', 'reg']


class FB:
    def __init__(self, r, uid):
        self.r, self.uid = r, uid
        self.glob, self.decls, self.params, self.args = [], [], [], []
        self.byt = {}
        self.n = 0

    def val(self, t):
        r = self.r
        if isinstance(t, F):
            return flit(r, frand(r, t), t)
        v = rval(r, t)
        return lit(r, v, t), v

    def leaf(self, t):
        r = self.r
        if t in self.byt and r.random() < .5:
            return r.choice(self.byt[t])
        x = self.new(t)
        self.byt.setdefault(t, []).append(x)
        return x

    def new(self, t):
        r = self.r
        L, v = self.val(t)
        self.n += 1
        n = f'v{self.uid}_{self.n}'
        tn = t.name
        D, G = self.decls, self.glob
        s = r.choice(STOR)
        e = n
        if s == 'local': D.append(f'{tn} {n} = {L};')
        elif s == 'reg': D.append(f'register {tn} {n} = {L};')
        elif s == 'volatile': D.append(f'volatile {tn} {n} = {L};')
        elif s == 'param': self.params.append(f'{tn} {n}'); self.args.append(L)
        elif s == 'global': G.append(f'{tn} {n} = {L};')
        elif s == 'sglobal': G.append(f'static {tn} {n} = {L};')
        elif s == 'tls': G.append(f'static _Thread_local {tn} {n} = {L};')
        elif s == 'slocal': D.append(f'static {tn} {n} = {L};')
        elif s == 'deref': D.append(f'{tn} {n}_ = {L}, *{n} = &{n}_;'); e = f'(*{n})'
        elif s == 'index':
            k = r.randrange(1, 6); i = r.randrange(k)
            D.append(f'{tn} {n}[{k}] = {{[{i}] = {L}}}; {r.choice(("int", "long", "unsigned char"))} {n}i = {i};'); e = f'{n}[{n}i]' if r.random() < .6 else f'{n}[{i}]'
        elif s == 'vla':
            D.append(f'int {n}k = 3; {tn} {n}[{n}k]; {n}[2] = {L};'); e = f'{n}[2]'
        elif s == 'member': D.append(f'struct {{ char c; {tn} m; int z; }} {n} = {{1, {L}, 2}};'); e = f'{n}.m'
        elif s == 'pmember': D.append(f'struct {{ char c; {tn} m; int z; }} {n}_ = {{1, {L}, 2}}, *{n} = &{n}_;'); e = f'{n}->m'
        elif s == 'arrmember': D.append(f'struct {{ {r.choice(("char", "float", "long double"))} c; {tn} m[2]; }} {n}[2] = {{[1].m[1] = {L}}}; int {n}i = 1;'); e = f'{n}[{n}i].m[1]'
        elif s == 'union': D.append(f'union {{ {tn} m; char z[16]; }} {n} = {{ {L} }};'); e = f'{n}.m'
        elif s == 'call': G.append(f'static {tn} f{n}(void) {{ return {L}; }}'); e = f'f{n}()'
        elif s == 'callarg':
            o = r.choice(('int', 'double', 'long double', 'float'))
            G.append(f'static {tn} f{n}({o} a, {tn} b, {o} c) {{ return b; }}'); D.append(f'{tn} {n} = {L};'); e = f'f{n}(1, {n}, 2)'
        elif s == 'const': e = L
        elif s == 'complit': e = f'({tn}){{{L}}}'
        elif s == 'stmtexpr': D.append(f'{tn} {n} = {L};'); e = f'({{ {tn} q = {n}; q; }})'
        elif s == 'cond':
            D.append(f'{tn} {n} = {L}; volatile int {n}w = {r.randrange(2)};'); e = f'({n}w ? {n} : {n})'
            if not isinstance(t, F): t = promote(t)
        return N(e, t, v)


def expr_program(r, nf):
    parts, calls, desc = [PRE], [], {}
    n = 0
    for u in range(nf):
        fb = FB(r, u)
        g = FGen(r, fb.leaf)
        body = []
        for _ in range(r.randrange(4, 10)):
            e = g.expr(r.choice((1, 1, 2, 2, 3, 4, 5)))
            if r.random() < .15:
                for _ in range(r.randrange(4, 12)):     # deep right-leaning: fp temporaries
                    a = fb.leaf(r.choice(FPS))
                    t = fcommon(a.t, e.t)
                    e = N(f'({a.s} {r.choice("+-*/")} {e.s})', t, NAN)
            fp = isinstance(e.t, F)
            em = EMIT[e.t] if fp else 'E'
            k = r.random()

            def ev(x, em, note=''):
                nonlocal n
                body.append(f'{em}({n}, {x});'); desc[n] = note + x; n += 1
            if k < .45:
                ev(e.s, em)
            elif k < .65:
                t = r.choice(FPS); nm = f'r{u}_{n}'
                fb.decls.append(f'{t.name} {nm};')
                body.append(f'{nm} = {e.s};'); ev(nm, EMIT[t], f'{t} = {e.s} -> ')
            elif k < .72:
                body.append(f'if ({e.s}) E({n}, 1); else E({n}, 0);'); desc[n] = 'if ' + e.s; n += 1
            elif k < .78:
                ev(f'({e.s} ? 3 : -4)', 'E')
            elif k < .82:
                ev(f'!{e.s}', 'E')
            elif k < .86:
                t = r.choice(FPS)
                fb.glob.append(f'static {t.name} h{u}_{n}({t.name} a, int b) {{ return a; }}')
                ev(f'h{u}_{n}({e.s}, 1)', EMIT[t])
            elif k < .9 and fp:
                t = r.choice(FPS)
                fb.glob.append(f'static {t.name} h{u}_{n}({e.t.name} a) {{ return a; }}')
                ev(f'h{u}_{n}({e.s})', EMIT[t])
            else:
                # compound assignment and increments on an object
                t = r.choice(FPS + FPS + ALL); nm = f'r{u}_{n}'
                L, v = fb.val(t)
                kind = r.choice(('local', 'static', 'ptr', 'mem', 'arr'))
                ref = nm
                if kind == 'local': fb.decls.append(f'{t.name} {nm} = {L};')
                elif kind == 'static': fb.decls.append(f'static {t.name} {nm} = {L};')
                elif kind == 'ptr': fb.decls.append(f'{t.name} {nm}_ = {L}, *{nm} = &{nm}_;'); ref = f'(*{nm})'
                elif kind == 'mem': fb.decls.append(f'struct {{ int a; {t.name} m; }} {nm} = {{1, {L}}};'); ref = f'{nm}.m'
                else: fb.decls.append(f'{t.name} {nm}[3] = {{[1] = {L}}}; int {nm}i = 1;'); ref = f'{nm}[{nm}i]'
                if isinstance(t, F):
                    op = r.choice(('+=', '-=', '*=', '/=', '++', '--'))
                    if op[1] == '=':
                        ev(f'({ref} {op} {e.s})', EMIT[t])
                    else:
                        ev(r.choice((f'{op}{ref}', f'{ref}{op}')), EMIT[t])
                    ev(ref, EMIT[t], 'after: ')
                else:
                    ee = fb.leaf(r.choice(FPS))
                    op = r.choice('+-*/')
                    res = g.arith(op, tofloat(v), tofloat(ee.v))
                    if can_convert(res, t) and not t.bool:
                        ev(f'({ref} {op}= {ee.s})', 'E'); ev(ref, 'E', 'after: ')
                    else:
                        ev(ref, 'E')
        parts += fb.glob
        parts.append(f'void t{u}({", ".join(fb.params) or "void"}) {{\n  ' + '\n  '.join(fb.decls + body) + '\n}')
        calls.append(f't{u}({", ".join(fb.args)});')
    return '\n'.join(parts) + '\nint main(void) {\n ' + '\n '.join(calls) + '\nreturn 0; }\n', desc


FBITS = {FLT: (24, 0x7f, 23), DBL: (53, 0x3ff, 52), LDB: (64, 0x3fff, 63)}


def special_bits(r, t):
    """A constructor expression of a (possibly special) value of type t, and the Python value when finite and reliable."""
    k = r.random()
    neg = r.random() < .4
    if t is LDB:
        exps = [(0, 0)] if k < .1 else [(0x7fff, 1 << 63)] if k < .2 else [(0x7fff, 0xc000000000000001)] if k < .28 else [(0, r.getrandbits(62))] if k < .36 else \
            [(0x3fff + r.randrange(-70, 70), (1 << 63) | r.getrandbits(63) & -(1 << r.choice((0, 1, 40, 62))))]
        s, m = exps[0]
        v = None if s == 0x7fff else (tofloat(m) * 2.0 ** (s - 0x3fff - 63) if s else 0.0)
        if neg: s |= 0x8000; v = -v if v is not None else None
        return f'mkl({s:#x}, {m:#x}ull)', v
    p, bias, mb = FBITS[t]
    eb = 8 if t is FLT else 11
    top = (1 << eb) - 1
    if k < .1: e, m = 0, 0
    elif k < .2: e, m = top, 0
    elif k < .28: e, m = top, (1 << (mb - 1)) | r.getrandbits(mb - 2)
    elif k < .36: e, m = 0, r.getrandbits(mb)
    elif k < .42: e, m = r.choice((1, top - 1)), r.choice((0, (1 << mb) - 1, r.getrandbits(mb)))
    else: e, m = bias + r.randrange(-70, 70), r.getrandbits(mb) & -(1 << r.choice((0, 1, mb // 2, mb - 2)))
    v = None if e == top else (1 + m / 2 ** mb) * 2.0 ** (e - bias) if e else m * 2.0 ** (1 - bias - mb)
    u = (neg << (mb + eb)) | (e << mb) | m
    if neg and v is not None: v = -v
    return (f'mkf({u:#x})' if t is FLT else f'mkd({u:#x}ull)'), v


def matrix_program(r, nf):
    """Operators, comparisons, truth tests, negation and conversions on special bit patterns."""
    parts, calls, desc = [PRE], [], {}
    n = 0
    RAW = {FLT: 'Rf', DBL: 'Rd', LDB: 'Rl'}
    for u in range(nf):
        body, decls = [], []

        def ev(x, em):
            nonlocal n
            body.append(f'{em}({n}, {x});'); desc[n] = f'{x} with {" ".join(decls)}'; n += 1
        t1, t2 = r.choice(FPS), r.choice(FPS)
        a, va = special_bits(r, t1)
        b, vb = special_bits(r, t2)
        if r.random() < .3: t2, b, vb = t1, a, va
        q1, q2 = r.choice(('', 'volatile ', 'static ', 'const ')), r.choice(('', 'volatile '))
        decls.append(f'{q1.replace("static ", "")}{t1.name} a = {a};'); decls.append(f'{q2}{t2.name} b = {b};')
        ct = fcommon(t1, t2)
        for op in '+-*/':
            ev(f'a {op} b', EMIT[ct])
        for op in CMP:
            ev(f'a {op} b', 'E')
            body.append(f'if (a {op} b) E({n}, 1); else E({n}, 0);'); desc[n] = f'if a {op} b {decls}'; n += 1
            body.append(f'if (!(a {op} b)) E({n}, 1); else E({n}, 0);'); desc[n] = f'if !(a {op} b) {decls}'; n += 1
        for x in ('a && b', 'a || b', '!a', '!!a', '(_Bool)a', 'a ? 1 : 2', 'a < b || a > b', 'a == a', 'a != a', '!(a < b) && !(b < a)', 'a > b ? 5 : a < b ? 6 : 7',
                  '(a < b) == (b > a)', '-a < b', '(a <= b) + (a >= b)'):
            ev(x, 'E')
        body.append(f'{{ int c = 0; while (a) {{ if (++c == 3) break; }} E({n}, c); }}'); desc[n] = f'while a {decls}'; n += 1
        body.append(f'{{ int c = 0; do c++; while (a != b && c < 3); E({n}, c); }}'); desc[n] = f'do while a != b {decls}'; n += 1
        body.append(f'{{ int c = 0; for (; !b; ) {{ if (++c == 3) break; }} E({n}, c); }}'); desc[n] = f'for !b {decls}'; n += 1
        # copies and negation keep payload bits
        ev('a', RAW[t1]); ev('b', RAW[t2]); ev('-a', RAW[t1]); ev('- -b', RAW[t2])
        body.append(f'{{ {t1.name} x[2]; x[1] = a; struct {{ {t1.name} m; }} s = {{ x[1] }}, s2; s2 = s; {RAW[t1]}({n}, s2.m); }}'); desc[n] = f'copy {decls}'; n += 1
        # conversions between floating types
        for t in FPS:
            ev(f'({t.name})a', EMIT[t])
            body.append(f'{{ {t.name} x = a; {EMIT[t]}({n}, x); }}'); desc[n] = f'{t} x = a {decls}'; n += 1
        # to integers where defined
        for t in ALL:
            if t.bool or (va is not None and can_convert(va, t)):
                ev(f'({t.name})a', 'E')
                body.append(f'{{ {t.name} x = a; E({n}, x); }}'); desc[n] = f'{t} x = a {decls}'; n += 1
        # from integers
        for t in r.sample(ALL, 5):
            v = rval(r, t)
            if r.random() < .5 and t.bits == 64:
                v = conv(r.choice((2 ** 53 + 1, 2 ** 24 + 1, 2 ** 63 - 1, 2 ** 63 + 1025, 2 ** 64 - 1, 2 ** 64 - 1024, 2 ** 63 + 2 ** 39 + 1, 2 ** 54 + 3, r.getrandbits(64))), t)
            decls.append(f'{q2}{t.name} i{n} = {lit(r, v, t)};')
            nm = f'i{n}'
            for f in FPS:
                ev(f'({f.name}){nm}', EMIT[f])
            ev(f'a + {nm}', EMIT[t1]); ev(f'{nm} * b', EMIT[t2]); ev(f'a < {nm}', 'E'); ev(f'{nm} == b', 'E')
        # increments
        decls.append(f'{t1.name} c = {a};')
        ev('c++', EMIT[t1]); ev('c', EMIT[t1]); ev('--c', EMIT[t1]); ev('c -= b', EMIT[t1]); ev('c', EMIT[t1])
        body.append('printf("m%d %%g %%g %%Lg\\n", (double)c, 1.5f, (long double)b);' .replace('%d', str(n), 1)) if r.random() < .2 and va is not None and vb is not None else None
        parts.append(f'void t{u}(void) {{\n  ' + '\n  '.join(decls + [x for x in body if x]) + '\n}')
        calls.append(f't{u}();')
    return '\n'.join(parts) + '\nint main(void) {\n ' + '\n '.join(calls) + '\nreturn 0; }\n', desc

HEADER_NAMES = [f'{t}_{n}' for t in ('FLT', 'DBL', 'LDBL') for n in ('DIG', 'DECIMAL_DIG', 'EPSILON', 'MANT_DIG', 'MAX', 'MAX_10_EXP', 'MAX_EXP', 'MIN', 'MIN_10_EXP', 'MIN_EXP', 'TRUE_MIN', 'HAS_SUBNORM')] \
    + ['FLT_RADIX', 'FLT_EVAL_METHOD', 'DECIMAL_DIG']


def header_program():
    """<float.h> must characterise the arithmetic: the values the reference compiler gives them, and what the arithmetic itself shows"""
    desc, body = {}, []
    for n in HEADER_NAMES:
        k = len(body); desc[k] = f'float.h: {n}'
        body.append(f'#ifdef {n}\n Rl({k}, {n});\n#else\n printf("{k} undefined\\n");\n#endif')
    for n in HEADER_NAMES[:36]:
        if n.split('_', 1)[1] in ('DIG', 'DECIMAL_DIG', 'MANT_DIG', 'MAX_10_EXP', 'MAX_EXP', 'MIN_10_EXP', 'MIN_EXP', 'HAS_SUBNORM'):
            k = len(body); desc[k] = f'float.h: {n} in #if'
            body.append(f'#if {n} > 0\n printf("{k} pos\\n");\n#else\n printf("{k} other\\n");\n#endif')
    for T, P in (('float', 'FLT'), ('double', 'DBL'), ('long double', 'LDBL')):
        for e in (f'1 + ({T}){P}_EPSILON != 1', f'1 + ({T}){P}_EPSILON / 2 != 1', f'({T}){P}_MAX * 2 > {P}_MAX', f'({T}){P}_MIN / 2 > 0', f'({T}){P}_TRUE_MIN > 0', f'({T}){P}_TRUE_MIN / 2 > 0', f'({T}){P}_MAX == {P}_MAX'):
            k = len(body); desc[k] = f'float.h: {e}'
            body.append(f'{{ volatile {T} v = 1; Rl({k}, {e.replace("1 +", "v +")}); }}')
    return '#include <float.h>\n' + PRE + 'int main(void) {\n' + '\n'.join(body) + '\nreturn 0; }\n', desc


def check(ctx):
    ctx.rule = ('random fp expression trees (float/double/long double mixed with all integer types, 24 storage forms, compound updates) and an operator x conversion '
                'matrix over special bit patterns (zeros, subnormals, infinities, NaN payloads, rounding boundaries); results logged as bit patterns (NaN results canonical '
                'except copies/negation); non-trivial: distinct expression texts')
    slim = ctx.build('plain')
    D = Diff(ctx, slim)

    def one(job):
        kind, idx = job
        res = Res()
        r = ctx.rng(kind, idx)
        src, desc = header_program() if kind == 'header' else expr_program(r, 16) if kind == 'expr' else matrix_program(r, 14)
        vs = [[[]], [['-O0']], [['-O1', '-fPIC']], [['-fno-pie', '-no-pie']]][idx % 4]
        D.go(res, 'fp-' + kind, {'t.c': src}, vs, describe=lambda k: desc.get(int(k), '?')[:800])
        res.distinct = {h(x) for x in desc.values()}
        res.count(kind, len(desc))
        if idx == 0 and kind != 'header':
            res.sample = {'kind': kind, 'case': desc[sorted(desc)[7]]}
        return res
    jobs = [('header', i) for i in range(4)] + [('expr', i) for i in range(ctx.n(700, 6000))] + [('matrix', i) for i in range(ctx.n(520, 4000))]
    ctx.rng('order').shuffle(jobs)
    ctx.pmap(one, jobs)


if __name__ == '__main__':
    main('C03', check, min_events=10000, min_distinct=5000)
