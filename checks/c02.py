"""C02: compile-time evaluation agrees with run-time evaluation.
The same expression is observed in constant contexts (images, sizes, labels, #if) and with operands only known at run time."""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.cint import *
from vlib.cfp import *
from vlib.diff import Diff

PH = re.compile('\x01(\\d+)\x02')


class Leaves:
    """Leaves are placeholders, instantiated as a literal/constant spelling or as a run-time variable."""
    def __init__(self, r, uid):
        self.r, self.uid = r, uid
        self.tab = []
        self.decls, self.glob = [], []

    def mk(self, const, run_decl, var, t, v):
        self.tab.append((const, var))
        self.decls.append(run_decl)
        return N(f'\x01{len(self.tab) - 1}\x02', t, v)

    def intleaf(self, t=None):
        r = self.r
        t = t or r.choice((INT, INT, INT, UINT, LONG, ULONG, LL, ULL, r.choice(ALL)))
        v = rval(r, t)
        n = f'v{self.uid}_{len(self.tab)}'
        k = r.random()
        c = lit(r, v, t)
        if k < .07 and t is INT:
            self.glob.append(f'enum {{ K{n} = {lit(r, v, INT)} }};'); c = f'K{n}'
        elif k < .12:
            ty, sz = r.choice([('char', 1), ('short', 2), ('int[7]', 28), ('long double', 16), ('struct Cl', 16), ('void *', 8)])
            t, v, c = ULONG, sz, f'sizeof({ty})'
        elif k < .16 and 32 <= v < 127 and chr(v) not in "'\\":
            t, c = INT, f"'{chr(v)}'"
        elif k < .2 and t.rank >= 3:
            c = f'({t.name}){lit(r, v, t)}'
            c = f'({c})'
        elif k < .23:
            t, v, c = ULONG, 8, '__builtin_offsetof(struct Cl, b)'
        d = f'{r.choice(("volatile ", "", "static volatile "))}{t.name} {n} = {c};'
        return self.mk(c, d, n, t, v)

    def leaf(self, t):
        r = self.r
        if isinstance(t, F):
            c, v = flit(r, frand(r, t), t)
            n = f'v{self.uid}_{len(self.tab)}'
            return self.mk(c, f'{r.choice(("volatile ", "", "static volatile "))}{t.name} {n} = {c};', n, t, v)
        return self.intleaf(t)

    def const(self, s):
        return PH.sub(lambda m: self.tab[int(m[1])][0], s)

    def run(self, s):
        return PH.sub(lambda m: self.tab[int(m[1])][1], s)

    def mix(self, s):
        return PH.sub(lambda m: self.tab[int(m[1])][self.r.random() < .5], s)


PRE = FPRELUDE + 'struct Cl { char a; long b; };\n'


def int_program(r, nf, c23):
    glob, calls, exp, desc = [], [], [], {}
    n = 0
    for u in range(nf):
        L = Leaves(r, u)
        g = Gen(r, L.intleaf, const_leaf=L.intleaf, comma=False)
        body, pre = [], []
        for _ in range(r.randrange(5, 11)):
            e = g.expr(r.choice((1, 2, 2, 3, 3, 4)))
            s = e.s
            v, t = e.v, e.t
            # unevaluated / short-circuited operands may hold anything
            k = r.random()
            if k < .06:
                s, t, v = f'({s} && (1 / {r.choice(("0", "(0 * 3)"))}))' if not v else f'({s} || (5 % 0))', INT, int(bool(v))
            elif k < .1:
                b = L.intleaf(INT)
                s, t, v = (f'({s} ? {b.s} : (1 / 0))', INT, b.v) if v else (f'({s} ? (1 % 0) : {b.s})', INT, b.v)
            elif k < .13:
                s, t, v = f'({s} + sizeof(1 / 0))', common(t, ULONG), conv(conv(v, common(t, ULONG)) + 4, common(t, ULONG))
            cs = L.const(s)

            def ev(x, val, note):
                nonlocal n
                body.append(f'E({n}, {x});')
                exp.append(f'{n} {val & (1 << 64) - 1:x}')
                desc[n] = f'{note}: {cs}'
                n += 1
            T = r.choice(ALL)
            nm = f'x{u}_{n}'
            ev(L.run(s), v, 'run time')
            ev(cs, v, 'folded')
            ev(L.mix(s), v, 'mixed')
            for c in r.sample(range(15), 4):
                nm = f'x{u}_{n}'
                if c == 0:
                    glob.append(f'static {T.name} {nm} = {cs};'); ev(nm, conv(v, T), 'static init ' + T.name)
                elif c == 1:
                    pre.append(f'static {T.name} {nm} = {cs};'); ev(nm, conv(v, T), 'local static init ' + T.name)
                elif c == 2 and inrange(v, INT):
                    (glob if r.random() < .5 else pre).append(f'enum {{ {nm} = {cs}, {nm}b }};' if v < 2 ** 31 - 1 else f'enum {{ {nm} = {cs} }};')
                    ev(nm, v, 'enum')
                    if v < 2 ** 31 - 1: ev(nm + 'b', v + 1, 'enum next')
                elif c == 3:
                    x = binop('&', e if s is e.s else N(s, t, v), N('63', INT, 63))
                    (glob if r.random() < .5 else pre).append(f'{r.choice(("static ", "extern "))}char {nm}[({cs} & 63) + 1];'.replace('extern ', ''))
                    ev(f'sizeof({nm})', x[1] + 1, 'array bound')
                elif c == 4:
                    pt = promote(t)
                    body.append(f'switch ({r.choice(("", "+"))}({nm}s)) {{ case {cs}: E({n}, 1); break; default: E({n}, 0); }}')
                    pre.append(f'volatile {pt.name} {nm}s = {lit(r, v, pt)};')
                    exp.append(f'{n} 1'); desc[n] = 'case ' + cs; n += 1
                elif c == 5:
                    x = binop('&', N(s, t, v), N('31', INT, 31))
                    (glob if r.random() < .5 else pre).append(f'struct {nm}s {{ unsigned b : (({cs} & 31) + 1) - ({cs} & 31 ? 1 : 0) + 0; }} {nm};')
                    w = x[1] + 1 - (1 if x[1] else 0)
                    body.append(f'{nm}.b = -1;'); ev(f'{nm}.b', (1 << w) - 1, 'bit-field width')
                elif c == 6:
                    # value-preserving assertion
                    (glob if r.random() < .5 else body).append(f'_Static_assert(({cs}) == {lit(r, v, t) if t.rank >= 3 else lit(r, v, INT)}, "m");')
                elif c == 7 and c23:
                    glob_ok = r.random() < .5
                    (glob if glob_ok else pre).append(f'{r.choice(("static ", ""))}constexpr {t.name} {nm} = {cs};')
                    ev(nm, v, 'constexpr')
                    if glob_ok:
                        glob.append(f'static {T.name} {nm}u = {nm} {r.choice("^|&")} 0x55;')
                        op = glob[-1].split(nm)[2].strip().split()[0]
                        ev(f'{nm}u', conv(binop(op, N('', t, v), N('', INT, 0x55))[1], T), 'constexpr used')
                elif c == 8:
                    k1 = r.randrange(1, 5)
                    glob.append(f'static {T.name} {nm}[] = {{ [{k1}] = {cs}, {cs} }};')
                    ev(f'{nm}[{k1}]', conv(v, T), 'array static init'); ev(f'{nm}[{k1 + 1}]', conv(v, T), 'array static init')
                elif c == 9:
                    body.append(f'if ({cs}) E({n}, 1); else E({n}, 0);'); exp.append(f'{n} {int(bool(v))}'); desc[n] = 'if ' + cs; n += 1
                elif c == 10:
                    a, b = rval(r, INT), rval(r, INT)
                    pre.append(f'volatile int {nm}a = {lit(r, a, INT)}, {nm}b = {lit(r, b, INT)};')
                    ev(f'({cs} ? {nm}a : {nm}b)', a if v else b, 'cond')
                elif c == 11:
                    x = binop('&', N(s, t, v), N('3', INT, 3))
                    pre.append(f'_Alignas(1 << ({cs} & 3)) char {nm}; ')
                    ev(f'_Alignof({nm})', 1 << x[1], 'alignas')
                elif c == 12:
                    x = binop('&', N(s, t, v), N('7', INT, 7))
                    glob.append(f'static {T.name} {nm}[8] = {{ [({cs}) & 7] = 1 }};')
                    ev(f'{nm}[{x[1]}]', 1, 'designator')
                elif c == 13:
                    w = r.randrange(1, T.bits + 1) if not T.bool else 1
                    glob.append(f'static struct {{ {r.choice(ALL).name} p; {T.name} m : {w}; }} {nm} = {{ 1, {cs} }};')
                    x = conv(v, T)
                    if not T.bool:
                        x &= (1 << w) - 1
                        if T.signed and x >> (w - 1): x -= 1 << w
                    ev(f'{nm}.m', x, f'bit-field static init {T.name}:{w}')
                elif c == 14:
                    pre.append(f'const {T.name} {nm} = {cs}; static const {T.name} {nm}s = {cs};')
                    ev(f'{nm} {r.choice(("+ 0", "| 0", ""))}', conv(v, T), 'const')
                    ev(f'{nm}s + 0', conv(v, T), 'static const')
        glob += L.glob
        glob.append(f'void t{u}(void) {{\n  ' + '\n  '.join(L.decls + pre + body) + '\n}')
        # file-scope enumerators of the leaves must precede their uses
        calls.append(f't{u}();')
    enums = [x for x in glob if x.startswith('enum { Kv')]
    rest = [x for x in glob if not x.startswith('enum { Kv')]
    src = PRE + '\n'.join(enums + rest) + '\nint main(void) {\n ' + '\n '.join(calls) + '\n return 0;\n}\n'
    return src, exp + ['exit 0'], desc


def fp_program(r, nf):
    glob, calls, desc = [], [], {}
    n = 0
    for u in range(nf):
        L = Leaves(r, u)
        g = FGen(r, L.leaf)
        body = []
        for _ in range(r.randrange(3, 8)):
            e = g.expr(r.choice((1, 1, 2, 2, 3, 4)))
            cs = L.const(e.s)
            fp = isinstance(e.t, F)
            em = EMIT[e.t] if fp else 'E'

            def ev(x, em, note):
                nonlocal n
                body.append(f'{em}({n}, {x});')
                desc[n] = f'{note}: {cs}'
                n += 1
            ev(L.run(e.s), em, 'run time')
            ev(cs, em, 'folded')
            ev(L.mix(e.s), em, 'mixed')
            ts = [r.choice(FPS)] + ([e.t] if fp else [])
            if not fp:
                ts.append(r.choice(ALL))
            elif can_convert(e.v, LONG) and abs(e.v) > .01:
                ts.append(LONG)
            for T in ts:
                nm = f'x{u}_{n}'
                k = r.random()
                if k < .5: glob.append(f'{r.choice(("static ", ""))}{T.name} {nm} = {cs};')
                elif k < .7: body.append(f'static {T.name} {nm} = {cs};')
                elif k < .85: glob.append(f'static struct {{ char c; {T.name} m[2]; }} {nm}s = {{ 1, {{0, {cs}}} }};'); nm += 's.m[1]'
                else: body.append(f'{T.name} {nm} = {cs};')
                ev(nm, EMIT[T] if isinstance(T, F) else 'E', f'init {T}')
                if k < .5 and r.random() < .5:
                    body.append(f'{T.name} {nm}w = {L.run(e.s)};')
                    ev(nm + 'w', EMIT[T] if isinstance(T, F) else 'E', f'run-time init {T}')
            if r.random() < .4:
                body.append(f'if ({cs}) E({n}, 1); else E({n}, 0);'); desc[n] = 'if ' + cs; n += 1
                ev(f'(_Bool){cs}', 'E', 'bool'); ev(f'!{cs}', 'E', 'not')
            if not fp and '.' not in cs and r.random() < .5:
                glob.append(f'enum {{ y{u}_{n} = (int)({cs}) % 1000 }};')
                ev(f'y{u}_{n}', 'E', 'enum')
        glob += L.glob
        glob.append(f'void t{u}(void) {{\n  ' + '\n  '.join(L.decls + body) + '\n}')
        calls.append(f't{u}();')
    enums = [x for x in glob if x.startswith('enum { Kv')]
    rest = [x for x in glob if not x.startswith('enum { Kv')]
    return PRE + '\n'.join(enums + rest) + '\nint main(void) {\n ' + '\n '.join(calls) + '\n return 0;\n}\n', desc


OBJ = '''
struct In { char c; short s[3]; long l; };
struct S { char a; int b[5]; struct In in; struct In arr[3]; union { int u; double d[2]; }; };
static struct S s1; struct S s2[4]; static int arr[10]; long m[3][4][5]; char buf[64]; int fn(int x) { return x; } static int sfn(void) { return 2; }
static double dbl; extern struct S ext[2]; struct S ext[2];
'''
PATHS = [  # (lvalue template, element type)
    ('s1.b[{i5}]', 'int'), ('s2[{i4}].in.l', 'long'), ('s2[{i4}].in.s[{i3}]', 'short'), ('arr[{i10}]', 'int'), ('m[{i3}][{i4}][{i5}]', 'long'),
    ('s1.arr[{i3}].s[{i3}]', 'short'), ('s1.d[{i2}]', 'double'), ('buf[{i64}]', 'char'), ('(*(s2 + {i4})).b[{i5}]', 'int'),
    ('(&s2[{i4}])->arr[{i3}].c', 'char'), ('*(arr + {i10})', 'int'), ('*(*(*(m + {i3}) + {i4}) + {i5})', 'long'), ('{i10}[arr]', 'int'),
    ('ext[{i2}].arr[{i3}].l', 'long'), ('(s2 + {i4})->u', 'int'), ('s2[{i4}]', 'struct S'), ('m[{i3}][{i4}]', 'long[5]'), ('m[{i3}]', 'long[4][5]'),
    ('s1.arr[{i3}]', 'struct In'), ('s1.in', 'struct In'), ('dbl', 'double')]


def addr_program(r, nf):
    """Address constants: offsets from known bases, compared through differences."""
    glob, body, desc = [OBJ], [], {}
    n = 0
    bases = ['s1', 's2', 'arr', 'm', 'buf', 'ext', 'dbl']

    def idx(k):
        v = r.randrange(k)
        g = Gen(r, lambda: N(str(v), INT, v))
        c = r.random()
        if c < .5: return str(v)
        if c < .6: return f'({v + 3} - 3)'
        if c < .7: return f'((char){v})'
        if c < .8: return f'{v}L'
        if c < .9: return f'(1 ? {v} : 0)'
        return f'({v}u * 1u)'

    def path():
        t, ty = r.choice(PATHS)
        return re.sub(r'\{i(\d+)\}', lambda m: idx(int(m[1])), t), ty
    for i in range(nf):
        p, ty = path()
        base = re.search(r'\b(%s)\b' % '|'.join(bases), p)[1]
        if '[arr]' in p: base = 'arr'
        nm = f'p{i}'
        k = r.random()
        if k < .4:
            e, T = f'&{p}', 'void *'
        elif k < .55:
            d = r.randrange(-3, 8)
            e, T = f'(char *)&{p} + {d}' if r.random() < .5 else f'{d} + (char *)&({p})', 'char *'
        elif k < .65:
            e, T = f'(unsigned long)&{p} {r.choice("+-")} {r.randrange(100)}', 'unsigned long'
        elif k < .72:
            e, T = f'(void *)((char *)&{p} - (3 * 2 - 5)) + 4', 'void *'
        elif k < .8:
            e, T = f'&({p}) + {r.randrange(3)} - {r.randrange(3)}', 'void *'
        elif k < .86:
            e, T = f'(1 ? &{p} : 0)', 'void *'
        elif k < .93:
            # differences and null tests folded at compile time
            t = r.choice(['&arr[{a}] - &arr[{b}]', '&s2[{c}].b[1] - &s2[{c}].b[4]', '&buf[{a}] - buf'])
            x = t.format(a=idx(10), b=idx(10), c=idx(4))
            body.append(f'E({n}, {x});'); desc[n] = x; n += 1
            x = f'__builtin_offsetof(struct S, {r.choice(("b[2]", "in.s[1]", "arr[2].l", "d[1]", "u", "arr", "in.l", "arr[1].s[2]"))})'
            glob.append(f'static long o{i} = {x};'); body.append(f'E({n}, o{i});'); desc[n] = x; n += 1
            x = f'(unsigned long)&((struct S *){r.choice(("0", "(void *)0", "16"))})->{r.choice(("in.l", "arr[2].s[1]", "b[3]", "a"))}'
            glob.append(f'static unsigned long q{i} = {x};'); body.append(f'E({n}, q{i});'); desc[n] = x; n += 1
            continue
        else:
            s = ''.join(r.choice('abcdef') for _ in range(r.randrange(1, 9)))
            o = r.randrange(len(s))
            glob.append(f'static char *c{i} = "{s}" + {o}; static char *d{i} = &"{s}"[{o}]; static int (*f{i})(int) = {r.choice(("fn", "&fn", "*fn"))};')
            body.append(f'E({n}, c{i}[0]); E({n + 1}, d{i}[0]); E({n + 2}, f{i}({i}));'); desc[n] = desc[n + 1] = desc[n + 2] = 'string/fn'; n += 3
            continue
        dim = r.random()
        if dim < .5: glob.append(f'{r.choice(("static ", ""))}{T} {nm} = {e};' if not T.endswith('*') else f'{r.choice(("static ", ""))}{T}{nm} = {e};')
        elif dim < .75: glob.append(f'static struct {{ char c; {T} m[3]; }} {nm}s = {{ .m[1] = {e} }};'); nm += 's.m[1]'
        else: body.append(f'static {T} {nm} = {e};')
        body.append(f'E({n}, (unsigned long){nm} - (unsigned long)&{base});'); desc[n] = e; n += 1
        body.append(f'{{ void *rt = (void *)({e}); E({n}, (unsigned long)rt - (unsigned long)&{base}); }}'); desc[n] = 'run time ' + e; n += 1
    return PRE + '\n'.join(glob) + '\nint main(void) {\n ' + '\n '.join(body) + '\n return 0;\n}\n', desc


def if_program(r, nf):
    """#if: every integer is intmax_t/uintmax_t."""
    out, exp, desc = [PRE], [], {}
    n = 0
    out.append('#define ONE 1\n#define F(x) (x)\n#define BIG 0x7fffffffffffffff\n#define EMPTY\nint main(void) {')

    def leaf():
        k = r.random()
        if k < .1: return N(r.choice(('undefined_name', 'EMPTY 0', 'int')).replace('int', 'sizeof_'), LONG, 0)
        if k < .15: return N(f'F({r.randrange(9)} + ONE)'.replace('F(', 'F('), LONG, None)
        t = r.choice((LONG, LONG, ULONG))
        v = rval(r, t)
        if t is LONG and v < 0:
            return N(f'(-{-v - 1}-1)', LONG, v)
        s = r.choice((str(v), hex(v), '0' + oct(v)[2:] if v else '0', bin(v)))
        if t is ULONG: s += r.choice(('u', 'U', 'ul', 'ULL'))
        else: s += r.choice(('', '', 'l', 'LL'))
        if t is LONG and r.random() < .1:
            v = r.randrange(33, 126)
            if chr(v) not in "'\\": s = f"'{chr(v)}'"
            else: v = 5; s = '5'
        if t is LONG and r.random() < .08:
            return r.choice([N('defined(ONE)', LONG, 1), N('defined NOPE', LONG, 0), N('defined ONE', LONG, 1), N('ONE', LONG, 1), N('BIG', LONG, 2 ** 63 - 1),
                             N("'\\xff'", LONG, -1), N('true', LONG, 1), N('false', LONG, 0)][:6])
        return N(s, t, v)

    def lf():
        x = leaf()
        if x.v is None:
            k = int(re.search(r'\d', x.s)[0])
            x = N(x.s, LONG, k + 1)
        return x

    class G(Gen):
        def expr(self, d):
            e = super().expr(d)
            if e.t in (INT, BOOL) or e.t.rank < 4: return N(e.s, LONG, e.v)
            return e
    g = G(r, lf, const_leaf=lf, types=[LONG, ULONG])

    def gen(d):
        for _ in range(50):
            e = g.expr(d)
            if '((long)' not in e.s and '((unsigned long)' not in e.s and ', ' not in e.s:
                return e
        return lf()
    for i in range(nf):
        e = gen(r.choice((1, 2, 2, 3)))
        s, v = e.s, e.v
        k = r.random()
        if k < .1: s, v = f'({s} && (1 / 0))' if not v else f'({s} || (1 % 0))', int(bool(v))
        if r.random() < .2: s = s.replace(' + ', ' /*c*/ + ').replace(' ? ', ' \\\n ? ')
        # the value itself, and its signedness
        lv = f'{hex(v)}u' if v >= 0 else f'({v + 1}-1)'
        out.append(f'#if {s}\n E({n}, 1);\n#else\n E({n}, 0);\n#endif'); exp.append(f'{n} {int(bool(v))}'); desc[n] = '#if ' + s; n += 1
        out.append(f'#if ({s}) == {lv}\n E({n}, 1);\n#elif 1\n E({n}, 0);\n#endif'); exp.append(f'{n} 1'); desc[n] = f'#if {s} == {lv}'; n += 1
        sg = int(e.t is LONG or k < .1)
        out.append(f'#if (1 ? -1 : ({s})) < 0\n E({n}, 1);\n#else\n E({n}, 0);\n#endif'); exp.append(f'{n} {sg}'); desc[n] = f'#if signedness of {s}'; n += 1
    return '\n'.join(out) + '\nreturn 0; }\n', exp + ['exit 0'], desc


def agg_program(r, nf):
    """members of constant structure objects (constexpr: in constant contexts; static const: in folded expressions)"""
    glob, body, exp, desc = [], [], [], {}
    n = 0

    def ev(x, v, note, b=None):
        nonlocal n
        (b if b is not None else body).append(f'E({n}, {x});'); exp.append(f'{n} {v & (1 << 64) - 1:x}'); desc[n] = note; n += 1

    def wrap(v, t, w):
        v = conv(v, t)
        if w and not t.bool:
            v &= (1 << w) - 1
            if t.signed and v >> (w - 1): v -= 1 << w
        return v
    for u in range(nf):
        mem, lv, init = [], [], []          # lv: (access path, type, width, value)

        def members(path, depth, cx):
            ds, ini = [], []
            for j in range(r.randrange(2, 7)):
                nm = f'{"abcdefgh"[j]}{depth}'
                k = r.random()
                if k < .2 and depth < 2:
                    d, i = members(f'{path}.{nm}', depth + 1, cx)
                    ds.append(f'struct {{ {d} }} {nm};'); ini.append('{ ' + i + ' }')
                elif k < .28:
                    ds.append(f'char {nm}[3];'); x = [r.randrange(-99, 99) for _ in range(3)]; ini.append('{ ' + ', '.join(map(str, x)) + ' }')
                    for q in range(3): lv.append((f'{path}.{nm}[{q}]', CHAR, 0, x[q], False))
                elif k < .33:
                    ds.append(f'{r.choice(("float", "double", "long double"))} {nm};'); ini.append('1.5')
                    if r.random() < .5: ds.append('int : 0;')
                else:
                    t = r.choice(ALL)
                    w = 0 if r.random() < .35 else 1 if t.bool else r.randrange(1, t.bits + 1)
                    v = wrap(rval(r, t), t, w)
                    ds.append(f'{t.name} {nm}{f" : {w}" if w else ""};')
                    if w and r.random() < .15: ds.append(f'int : {r.randrange(0, 9)};')
                    ini.append(lit(r, v, t) if t.rank >= 3 else lit(r, v, INT))
                    lv.append((f'{path}.{nm}', t, w, v, True))
            return ' '.join(ds), ', '.join(ini)
        loc = r.random() < .3
        d, i = members(f'k{u}', 0, 1)
        pre = []
        glob.append(f'struct A{u} {{ {d} }};')
        cx = r.random() < .75
        (pre if loc else glob).append(f'{r.choice(("", "static ")) if cx else "static "}{"constexpr" if cx else "const"} struct A{u} k{u} = {{ {i} }};')
        fb = []
        for x, t, w, v, dot in lv:
            note = f'{x} ({t.name}{f":{w}" if w else ""} in struct {{ {d} }})'
            ev(x, v, 'run time ' + note, fb)
            if not w or r.random() < .5: ev(f'{x} + 0', v, 'run time ' + note, fb)
            T = r.choice(ALL)
            ev(f'({T.name}){x}', conv(v, T), 'folded ' + note, fb)
            fb.append(f'if ({x}) E({n}, 1); else E({n}, 0);'); exp.append(f'{n} {int(bool(v))}'); desc[n] = 'if ' + note; n += 1
            ev(f'(volatile int){{ 1 }} ? (long long){x} : 0', conv(v, LL), 'mixed ' + note, fb)
            if not (dot and cx): continue
            tgt = pre if loc or r.random() < .3 else glob
            if r.random() < .7:
                nm = f'y{n}'; W = t if r.random() < .6 else T
                form = r.randrange(5)
                if form < 2: tgt.append(f'static {W.name} {nm} = {x};'); ev(nm, conv(v, W), f'static {W.name} from {note}', fb)
                elif form == 2: tgt.append(f'static struct {{ char c; {W.name} m[2]; }} {nm} = {{ 1, {{ [1] = {x} }} }};'); ev(f'{nm}.m[1]', conv(v, W), f'static member {W.name} from {note}', fb)
                elif form == 3:
                    q = r.randrange(1, W.bits + 1) if not W.bool else 1
                    tgt.append(f'static struct {{ unsigned c : 3; {W.name} m : {q}; }} {nm} = {{ 5, {x} }};'); ev(f'{nm}.m', wrap(v, W, q), f'static bit-field {W.name}:{q} from {note}', fb)
                else: tgt.append(f'constexpr {t.name} {nm} = {x}; static {T.name} {nm}z = {nm};'); ev(nm, v, f'constexpr from {note}', fb); ev(nm + 'z', conv(v, T), f'static from constexpr from {note}', fb)
            if r.random() < .3: tgt.append(f'_Static_assert({x} == {lit(r, v, t) if t.rank >= 3 else lit(r, v, INT)}, "");')
            if r.random() < .25 and inrange(v, INT): tgt.append(f'enum {{ e{n} = {x} }};'); ev(f'e{n}', v, 'enum ' + note, fb)
            if r.random() < .2: tgt.append(f'static char a{n}[({x} & 31) + 1];'); ev(f'sizeof a{n}', (v & 31) + 1, 'bound ' + note, fb)
            if r.random() < .2 and not t.bool and t.bits == 32:
                pre.append(f'volatile {t.name} s{n} = {lit(r, v, t)};'); fb.append(f'switch (s{n}) {{ case {x}: E({n}, 1); break; default: E({n}, 0); }}'); exp.append(f'{n} 1'); desc[n] = 'case ' + note; n += 1
        body.append('{ ' + '\n'.join(pre + fb) + ' }')
    return PRE + '\n'.join(glob) + '\nint main(void) {\n' + '\n'.join(body) + '\nreturn 0; }\n', exp + ['exit 0'], desc


def view_program(r, nf):
    """folded reads of constant objects that hold addresses: every view of the bytes has to be what memory holds"""
    glob = ['static int tg[9]; static char ts[] = "abcdefgh"; static int tf(void) { return 1; } struct TS { int a; char b[5]; } static tz[3];']
    body, exp, desc = [], [], {}
    n = 0

    def ev(x, v, note):
        nonlocal n
        body.append(f'E({n}, {x});'); exp.append(f'{n} {v & (1 << 64) - 1:x}'); desc[n] = note; n += 1
    for u in range(nf):
        ms, ini, chk = [], [], []
        packed = r.random() < .3
        for j in range(r.randrange(1, 6)):
            k = r.random()
            if k < .55:
                t, x = r.choice((('int *', '&tg[%d]' % r.randrange(9)), ('char *', 'ts + %d' % r.randrange(8)), ('char *', '&tz[%d].b[%d]' % (r.randrange(3), r.randrange(5))), ('void *', 'tz'), ('void *', '&tz[2]'),
                                 ('int (*', 'tf'), ('unsigned long', '(unsigned long)&tg[2]'), ('long', '(long)ts'), ('const char *', '"lit%d"' % u), ('void *', '0')))
                if t == 'int (*': ms.append(f'int (*m{j})(void);')
                else: ms.append(f'{t} m{j};')
                ini.append(x)
                if '"' not in x: chk.append((f'm{j}', f'({"int (*)(void)" if t == "int (*" else t})({x})'))
            else:
                t = r.choice(ALL); v = rval(r, t)
                if t.bool: v &= 1
                d = r.choice(('', '', '[3]'))
                ms.append(f'{t.name} m{j}{d};'); ini.append('{ 1, %s }' % lit(r, v, t) if d else lit(r, v, t))
                if not d: chk.append((f'm{j}', f'({t.name})({lit(r, v, t)})'))
        N = f'sizeof(struct V{u})'
        glob.append(f'struct {"__attribute__((packed)) " if packed else ""}V{u} {{ {" ".join(ms)} }};')
        glob.append(f'struct __attribute__((packed)) O{u} {{ char c[{r.randrange(1, 8)}]; unsigned short h; unsigned w; unsigned long l; }};')
        loc = r.random() < .25
        (body if loc else glob).append(f'{"{ " if loc else ""}static const union {{ struct V{u} s; unsigned char b[{N}]; signed char sb[{N}]; unsigned short h[{N} / 2 + 1]; int w[{N} / 4 + 1]; unsigned long l[{N} / 8 + 1]; struct O{u} o; float f[{N} / 4 + 1]; void *p[{N} / 8 + 1]; _Bool z[{N}]; }} k{u} = {{ .s = {{ {", ".join(ini)} }} }}, *volatile q{u} = &k{u};')
        for m, x in chk: ev(f'k{u}.s.{m} == {x}', 1, f'{m} of {{ {" ".join(ms)} }} = {{ {", ".join(ini)} }}')
        sz = 0
        for _ in range(r.randrange(6, 22)):
            i = r.randrange(0, 24)
            f, d = r.choice((('b', 1), ('sb', 1), ('h', 2), ('w', 4), ('l', 8), ('p', 8), ('b', 1), ('o.h', 0), ('o.w', 0), ('o.l', 0)))
            a = f'{f}[(sizeof k{u}.{f} / {d} > {i}) * {i}]' if d else f
            ev(f'k{u}.{a} == q{u}->{a}', 1, f'{a} of {{ {" ".join(ms)} }} = {{ {", ".join(ini)} }}')
            if r.random() < .5 and f != 'p': ev(f'(unsigned long)k{u}.{a} * 3 - (unsigned long)q{u}->{a} * 3', 0, f'folded {a} of {{ {" ".join(ms)} }} = {{ {", ".join(ini)} }}')
            if r.random() < .3: ev(f'(k{u}.{a} ? 1 : 0) - (q{u}->{a} ? 1 : 0)', 0, f'condition {a} of {{ {" ".join(ms)} }} = {{ {", ".join(ini)} }}')
        body.append(f'{{ struct V{u} v = k{u}.s, w; w = k{u}.s; unsigned char *x = (void *)&v, *y = (void *)&w; int bad = 0; for (unsigned long i = 0; i < 0 * sizeof v; i++) bad += x[i] != y[i];')
        for m, x in chk: ev(f'(v.{m} == {x}) * 2 + (w.{m} == {x})', 3, f'copy of {m} of {{ {" ".join(ms)} }} = {{ {", ".join(ini)} }}')
        body.append('}' + (' }' if loc else ''))
    return PRE + '\n'.join(glob) + '\nint main(void) {\n' + '\n'.join(body) + '\nreturn 0; }\n', exp + ['exit 0'], desc


def check(ctx):
    ctx.rule = ('random constant expressions (int: exact model; fp and addresses: gcc/clang), each observed folded, with run-time operands, mixed, and in '
                'static initialisers, enumerators, array bounds, case labels, bit-field widths, static assertions, constexpr objects and their members, designators, #if; '
                'non-trivial: distinct (context, expression)')
    slim = ctx.build('plain')
    ub = 'address,undefined,float-cast-overflow'
    D = Diff(ctx, slim, ub_flags=ub)
    D23 = Diff(ctx, slim, common=('-w', '-std=c23'), ub_flags=ub, clang=False)

    def one(job):
        kind, idx = job
        res = Res()
        r = ctx.rng(kind, idx)
        vs = [[[]], [['-O0']], [['-O1', '-fPIC']]][idx % 3]
        if kind == 'int':
            c23 = idx % 3 == 0
            src, exp, desc = int_program(r, 14, c23)
            (D23 if c23 else D).go(res, 'const-int', {'t.c': src}, vs, expected=exp, describe=lambda k: desc.get(int(k), '?')[:800])
        elif kind == 'agg':
            src, exp, desc = agg_program(r, 8)
            D23.go(res, 'const-agg', {'t.c': src}, vs, expected=exp, describe=lambda k: desc.get(int(k), '?')[:800])
        elif kind == 'view':
            src, exp, desc = view_program(r, 8)
            D.go(res, 'const-view', {'t.c': src}, [[[]], [['-O1']], [['-O1', '-fPIC']], [['-O1', '-fno-pie', '-no-pie']]][idx % 4], expected=exp, describe=lambda k: desc.get(int(k), '?')[:800])
        elif kind == 'if':
            src, exp, desc = if_program(r, 60)
            D.go(res, 'hash-if', {'t.c': src}, vs, expected=exp, describe=lambda k: desc.get(int(k), '?')[:800])
        else:
            src, desc = fp_program(r, 14) if kind == 'fp' else addr_program(r, 60)
            D.go(res, 'const-' + kind, {'t.c': src}, vs, describe=lambda k: desc.get(int(k), '?')[:800])
        res.distinct = {h(x) for x in desc.values()}
        res.count(kind, len(desc))
        if idx == 0:
            k0 = sorted(desc)[5]
            res.sample = {'kind': kind, 'case': desc[k0]}
        return res
    jobs = [('int', i) for i in range(ctx.n(600, 4000))] + [('fp', i) for i in range(ctx.n(400, 2500))] + \
           [('if', i) for i in range(ctx.n(120, 2000))] + [('addr', i) for i in range(ctx.n(250, 1500))] + [('agg', i) for i in range(ctx.n(300, 2000))] + [('view', i) for i in range(ctx.n(250, 2000))]
    ctx.rng('order').shuffle(jobs)
    ctx.pmap(one, jobs)


if __name__ == '__main__':
    main('C02', check, min_events=10000, min_distinct=5000)
