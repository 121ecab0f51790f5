"""C10: types of expressions (type-code logs through _Generic, typeof, sizeof, auto; compared with gcc and clang)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.diff import Diff

AR = ['_Bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double']
PT = ['char *', 'const char *', 'int *', 'const int *', 'volatile int *', 'const volatile int *', 'void *', 'const void *', 'struct S *', 'const struct S *', 'union U *', 'int (*)[3]', 'const int (*)[3]', 'int (*)[2][3]', 'int **',
      'const int **', 'int *const *', 'int (*)(int)', 'void (*)(void)', 'int (**)(int)', 'int *(*)(const char *, ...)', 'double *', 'unsigned char *', 'short *', 'unsigned short *', 'unsigned *', 'long *', 'unsigned long *', 'float *', 'signed char *', '_Bool *',
      'const unsigned char *', 'const unsigned short *', 'const unsigned *', 'long double *', 'const double *', 'struct T *', 'char (*)[4]', 'const char (*)[4]', 'char **', 'const char *const *', 'int *restrict *', 'void **', 'enum E1 **', 'long long *', 'unsigned long long *', 'void (**)(void)',
      'int (*(*)(int))(int)', 'const struct T *', 'struct T (*)[2]', 'struct S (*)(struct T)', 'unsigned char (*)[4]', 'unsigned short (*)[4]', 'unsigned (*)[4]', 'int (*)[4]']
AG = ['struct S', 'union U', 'struct T']

PRE = r'''
extern int printf(const char *, ...);
enum E1 { A1, A2, A3 = 100 }; enum E2 { B1 = -1, B2 = 5 }; enum E3 { C1 = 0x80000000u, C2 = 0xffffffffu }; enum E4 { D1 = -1, D2 = 0x80000000L }; enum E5 { F1 = 0x7fffffffffffffffL }; enum E6 { G1 = 0xffffffffffffffffUL };
struct T { int x, y; }; union U { int i; double d; };
struct S { int i; char c; const short cs; volatile long vl; int a[3]; const int ca[3]; int *p; const int *cp; struct T t; const struct T ct; union U u; int (*fp)(int);
  int b1:1; unsigned b5:5; unsigned b31:31; unsigned b32:32; int b32s:32; _Bool bb:1; signed char bc:3; unsigned char bu:8; short bs:12; unsigned short bus:16; enum E1 be:4; int m2[2][3]; struct { int an; const char *as; }; char *argv_[2]; long long ll; float f; double d; long double ld; };
static int vi; static const int cvi = 3; static volatile int vvi; static const volatile int cvvi; static char c; static signed char sc; static unsigned char uc; static short s; static unsigned short us; static unsigned u; static long l; static unsigned long ul;
static long long ll; static unsigned long long ull; static float f; static double d; static long double ld; static _Bool b; static const double cd_; static volatile float vf; static const char cch; static volatile unsigned short vus;
static enum E1 e1; static enum E2 e2; static enum E3 e3; static enum E4 e4; static enum E5 e5; static const enum E1 ce1;
static int *pi; static const int *pci; static int *const cpi; static const int *const cpci; static volatile int *pvi; static void *pv; static const void *pcv; static char *pc; static const char *pcc; static struct S *pS; static const struct S *pcS; static volatile struct S *pvS; static int **ppi; static const int **ppci; static int *restrict rpi;
static int ai[3]; static const int cai[3]; static int aai[2][3]; static int (*pai)[3]; static char ac[4]; static struct T at[2]; static unsigned char auc[4]; static int (*pia)[]; static const char *const apc[3]; static int *api[5];
static struct S S; static const struct S cS; static struct T T; static const struct T cT; static union U U;
static int fi(int x) { return x; } static void fv(void) { } static char fc(void) { return 0; } static const int fci(void) { return 0; } static struct S *fps(void) { return 0; } static struct T ft(void) { return (struct T){ 0 }; } static struct S fs(void) { return (struct S){ 0 }; } static float ff(void) { return 0; } static _Bool fb(void) { return 0; } static unsigned short fus(void) { return 0; } static int *fpi(void) { return 0; } static int (*ffp(void))(int) { return fi; }
static int (*pfi)(int); static int (*apf[3])(int); static enum E1 fe(void) { return 0; }
static int ffp2(const char *x, ...) { return 0; }
'''


def assoc(types):
    return ', '.join(f'{t}: "{t}"' for t in types)


class G:
    def __init__(s, r): s.r = r
    INTV = ['vi', 'cvi', 'vvi', 'cvvi', 'c', 'sc', 'uc', 's', 'us', 'u', 'l', 'ul', 'll', 'ull', 'b', 'e1', 'e2', 'e3', 'e4', 'e5', 'ce1', 'cch', 'vus', 'A1', 'B1', 'C1', 'D1', 'D2', 'F1', 'G1', 'ai[1]', '*pi', '*pci', '*pvi', 'S.i', 'S.c', 'cS.i', 'S.cs', 'S.vl', 'pS->i', 'pcS->i',
            'pcS->c', 'pvS->i', 'S.t.x', 'S.ct.y', 'pcS->t.x', 'aai[1][2]', 'cai[0]', '**ppi', 'S.an', 'pS->ll', '(*pai)[1]', 'U.i', 'ac[1]', '*ac', 'auc[1]', 'at->x', 'at[1].y', '*S.a', '*cS.a', '*S.ca', 'pcS->a[1]', 'pS->ca[2]', 'S.m2[1][1]']
    BF = ['S.b1', 'S.b5', 'S.b31', 'S.b32', 'S.b32s', 'S.bb', 'S.bc', 'S.bu', 'S.bs', 'S.bus', 'S.be', 'pS->b5', 'cS.b31', 'pcS->b5', 'cS.b32']
    FLV = ['f', 'd', 'ld', 'cd_', 'vf', 'S.f', 'S.d', 'pcS->ld', 'U.d']
    CALL = ['fi(1)', 'fc()', 'fci()', 'fb()', 'fus()', 'fe()', 'ff()', '(*fi)(1)', '(&fi)(2)', 'pfi(3)', '(*pfi)(2)', '(**pfi)(2)', 'apf[1](2)', 'S.fp(1)', 'ffp()(2)', 'ft().x', 'fs().c', 'fs().cs', 'fps()->i', 'ffp2("a", 1)', 'fs().b5', 'fs().vl']
    LIT = ['0', '1', '1u', '1l', '1ul', '1ll', '1ull', '2147483647', '2147483648', '4294967295', '4294967296', '0x7fffffff', '0x80000000', '0xffffffff', '0x100000000', '0x7fffffffffffffff', '0x8000000000000000', '9223372036854775807', '017777777777', '037777777777', '040000000000', '0b101', "'a'", "L'a'", "u'a'", "U'a'",
           '1.0', '1.0f', '1.0L', '0x1p3', '0x1p3f', '1e2', 'sizeof(int)', '_Alignof(int)', 'sizeof vi', '0xffu', '10lu', '10LLU', 'true', 'false', '__LINE__', '__func__[0]', '\'ab\'']
    PTR = ['pi', 'pci', 'cpi', 'cpci', 'pvi', 'pv', 'pcv', 'pc', 'pcc', 'pS', 'pcS', 'ppi', 'ppci', 'ai', 'cai', 'aai', 'pai', 'ac', 'at', 'auc', 'apc', 'api', 'S.a', 'cS.a', 'S.ca', 'S.p', 'cS.p', 'S.cp', 'pcS->p', 'pcS->a', 'pvS->a', 'S.as', 'S.m2', 'cS.m2', 'fi', 'fv', 'pfi', '&fi', 'apf', '*apf', 'fpi()',
           'fps()', 'fs().a', 'ft', '"abc"', 'L"abc"', 'u"abc"', 'U"abc"', '"a" "bc"', '__func__', 'aai[1]', '*pai', 'S.m2[0]', '&ai', '&ai[1]', '&aai', '&S', '&cS', '&S.t', '&cS.i', '&pcS->t', '&S.ca', '&cS.a', '&pi', '&cpi', '&vi', '&cvi', '&vvi', '&U', '&T', '&cT', '&at', '&"abc"', '&ac', '(int *)0', '(void *)0',
           '(const char *)pv', '(int (*)[3])pv', '(int (*)(int))pv', '(int [3]){1}', '(const int [3]){1}', '(char []){"abc"}', '&(int){1}', '&(const int){1}', '(struct T [2]){0}', '&(struct T){0}', '&fi', '*fi', '**fi', '&*fi', '&*pi', '&*pci', '&*ai', 'ffp()', 'ffp', '&pfi', '&S.fp', 'apc[1]', '*apc', 'api[1]', '&apc', 'S.argv_', 'cS.argv_', '&e1',
           'rpi', '&rpi', 'pS->fp', 'pcS->fp', '&pcS->fp', '&pcS->p']
    AGG = ['S', 'cS', 'T', 'cT', 'U', '*pS', '*pcS', 'ft()', 'fs()', 'S.t', 'S.ct', 'cS.t', 'pcS->u', 'at[1]', '*at', '(struct T){1}', '(const struct T){1}', 'S.u']

    def arith(s, d):
        r = s.r
        if d <= 0 or r.random() < .15:
            k = r.random()
            if k < .4: return r.choice(s.INTV)
            if k < .58: return r.choice(s.BF)
            if k < .68: return r.choice(s.FLV)
            if k < .8: return r.choice(s.CALL)
            return r.choice(s.LIT)
        k = r.random()
        if k < .16: return f'({r.choice("+-!")}{s.par(s.arith(d - 1))})'
        if k < .2: return f'(~{s.par(s.integer(d - 1))})'
        if k < .4: return f'({s.arith(d - 1)} {r.choice("+-*/")} {s.arith(d - 1)})'
        if k < .5: return f'({s.integer(d - 1)} {r.choice(("&", "|", "^", "%", "<<", ">>", "<<", ">>"))} {s.integer(d - 1)})'
        if k < .56: return f'({s.arith(d - 1)} {r.choice(("<", ">", "==", "!=", "<=", ">=", "&&", "||"))} {s.arith(d - 1)})'
        if k < .66: return f'({s.arith(1)} ? {s.arith(d - 1)} : {s.arith(d - 1)})'
        if k < .7: return f'({s.arith(0)}, {s.arith(d - 1)})'
        if k < .78: return f'(({r.choice(("", "", "const ", "volatile "))}{r.choice(AR + ["enum E1", "enum E2"])}){s.par(s.arith(d - 1))})'
        if k < .84: return f'({r.choice(s.LV)} {r.choice(("=", "+=", "-=", "*="))} {s.arith(d - 1)})'
        if k < .87: return f'({r.choice(s.LV)}{r.choice(("++", "--"))})'
        if k < .9: return f'({r.choice(("++", "--"))}{r.choice(s.LV)})'
        if k < .92: return f'({s.ptr(0)} - {s.ptr(0)})' if False else r.choice(('(pi - pi)', '(ai - pi)', '(&aai[1] - aai)', '(pcc - pc)' if 0 else '(pcc - pcc)'))
        if k < .94: return f'({{ {s.arith(d - 1)}; }})'
        if k < .96: return f'sizeof({s.arith(1)})'
        if k < .98: return f'({s.ptr(0)} {r.choice(("&&", "||"))} {s.arith(0)})'
        return f'(!{s.par(s.ptr(0))})'

    LV = ['vi', 'vvi', 'c', 'sc', 'uc', 's', 'us', 'u', 'l', 'ul', 'll', 'ull', 'b', 'f', 'd', 'ld', 'vf', 'vus', 'S.b5', 'S.b31', 'S.bb', 'S.bus', 'S.b32', 'S.vl', 'pvS->i', '*pvi', 'e1', 'e2', 'S.c']

    def par(s, x): return f'({x})'

    def integer(s, d):
        r = s.r
        if d <= 0 or r.random() < .3: return r.choice(r.choice((s.INTV, s.INTV, s.BF, [x for x in s.LIT if '.' not in x and 'e2' not in x and 'p3' not in x], ['fi(1)', 'fc()', 'fb()', 'fus()', 'fe()'])))
        k = r.random()
        if k < .2: return f'({r.choice("+-~!")}({s.integer(d - 1)}))'
        if k < .6: return f'({s.integer(d - 1)} {r.choice(("&", "|", "^", "%", "<<", ">>", "+", "-", "*"))} {s.integer(d - 1)})'
        if k < .8: return f'({s.arith(0)} ? {s.integer(d - 1)} : {s.integer(d - 1)})'
        return f'(({r.choice(AR[:12])})({s.arith(d - 1)}))'

    def ptr(s, d):
        r = s.r
        if d <= 0 or r.random() < .25: return r.choice(s.PTR)
        k = r.random()
        obj = [x for x in s.PTR if x not in ('pv', 'pcv', 'fi', 'fv', 'pfi', '&fi', '*apf', 'ft', '(void *)0', '*fi', '**fi', '&*fi', 'ffp', 'ffp()', 'S.fp', '&ffp', 'pS->fp', 'pcS->fp', '(int (*)(int))pv')]
        if k < .2: return f'({r.choice(obj)} {r.choice("+-")} {r.choice(("1", "vi", "us", "ul", "b", "S.b5"))})'
        if k < .26: return f'({r.choice(("1", "vi", "c"))} + {r.choice(obj)})'
        if k < .36: return f'(&({r.choice(obj)})[{r.choice(("0", "1", "vi"))}])'
        if k < .4: return f'(&*({r.choice([x for x in s.PTR if x not in ("pv", "pcv", "(void *)0")])}))'
        if k < .62:
            # conditional with composite types
            a, b = r.choice(s.PTR), None
            b = r.choice(('0', '(void *)0', 'pv', 'pcv', a, a, 'pv'))
            m = {'pi': ['pci', 'cpi', 'pvi', 'ai', 'cpci', 'cai'], 'pci': ['pi', 'pvi', 'cpi'], 'pvi': ['pi', 'pci', 'cpci'], 'pc': ['pcc', 'ac', '"abc"'], 'pcc': ['pc', '"abc"', 'ac'], 'pS': ['pcS', '&cS', '&S'], 'pcS': ['pS', '&S'], 'fi': ['pfi', '&fi', '*pfi'], 'pai': ['aai', 'pia', '&ai', '&*pia'], '&ai': ['pia', 'pai'],
                 'pv': ['pi', 'pci', 'pcc', 'pS', 'pcv', '&vvi'], 'pcv': ['pi', 'pS', 'pv', '&vvi'], 'cai': ['ai', 'pi'], 'S.a': ['cS.a', 'S.p']}
            if r.random() < .7:
                a = r.choice(list(m))
                b = r.choice(m[a])
            if r.random() < .3: a, b = b, a
            return f'({r.choice(("vi", "d", "pi", "1", "0", "b"))} ? {a} : {b})'
        if k < .68: return f'({s.arith(0)}, {s.ptr(d - 1)})'
        if k < .74: return f'({{ {r.choice(s.PTR)}; }})'
        if k < .8: return f'(({r.choice(PT)})({r.choice([x for x in s.PTR])}))'
        if k < .88: return r.choice(('(pi = ai)', '(pi += 2)', '(pi++)', '(--pcc)', '(pS = &S)', '(pcS = pS)', '(pv = pi)', '(ppi++)', '(pai++)', '(pfi = fi)', '(pc -= 1)', '(pcc = "a")', '(rpi = pi)', '(rpi++)'))
        if k < .94: return r.choice(('aai[vi]', '*aai', '*(aai + 1)', 'S.m2[vi]', 'pcS->m2[1]', '(*pai)', 'pai[2]', '*&ai', '*&S.ca', 'at[1].x ? pi : 0', '*ppi', 'ppi[1]', '*ppci', '*apf', '*api', '(&S)->a', '(&cS)->ca', '(*pcS).t.x ? "a" : 0', '(vi ? S : S).a', '(0, S).a', '({ S; }).a', '*&"abc"'))
        return f'(typeof({r.choice(s.PTR)} + 0))0' if False else f'({r.choice(s.PTR)})'

    def agg(s, d):
        r = s.r
        if r.random() < .6: return r.choice(s.AGG)
        return r.choice(('(vi ? T : T)', '(vi ? T : cT)', '(vi ? cT : cT)', '(T = cT)', '(0, cT)', '({ cT; })', '(vi ? ft() : T)', '(*&cT)', '(0, ft())', '({ T; })', '(U = U)'))


def program(r, n):
    g = G(r)
    g1 = assoc(AR + PT + AG)
    # exact type including qualifiers: the controlling type is a pointer to typeof(e)
    qs = []
    for t in AR + AG:
        for q in ('', 'const ', 'volatile ', 'const volatile '): qs.append((f'{q}{t} *', q + t))
    tds = []
    for j, t in enumerate(PT):
        tds.append(f'typedef typeof({t}) PT{j};')
        qs.append((f'PT{j} *', t)); qs.append((f'const PT{j} *', t + ' const')); qs.append((f'volatile PT{j} *', t + ' volatile'))
    arrs = [(t, t.replace('(*)', '')) for t in ('int (*)[3]', 'const int (*)[3]', 'char (*)[4]', 'const char (*)[4]', 'int (*)[2][3]', 'unsigned char (*)[4]', 'int (*)[4]', 'struct T (*)[2]', 'int (*)(int)', 'void (*)(void)', 'const int (*)[2][3]', 'char *(*)[2]', 'char *const (*)[2]',
            'volatile int (*)[3]', 'const volatile int (*)[3]', 'int *(*)[5]', 'const char *const (*)[3]', 'int (*(*)[3])(int)', 'struct T (*)(void)', 'wchar (*)[4]'[:0] or 'int (*(*)(void))(int)', 'unsigned short (*)[4]', 'unsigned (*)[4]', 'int *(*)(void)', 'int (*)(const char *, ...)')]
    g2 = ', '.join(f'{a}: "{b}"' for a, b in qs + arrs)
    out = [PRE, *tds, f'#define TC(e) _Generic((e), {g1}, default: "?")', f'#define QC(e) _Generic((typeof(e) *)0, {g2}, default: "?")', f'#define UQ(e) _Generic((typeof_unqual(e) *)0, {g2}, default: "?")',
           '#define AT(e) ({ auto x_ = (e); QC(x_); })', '#define COMPAT(e, t) __builtin_types_compatible_p(typeof(e), t)',
           '#define SG(e) ((typeof((e) + 0))-1 < (typeof((e) + 0))1)', '#define FN(i) static void t##i(void)']
    body, desc, calls = [], {}, []
    for i in range(n):
        k = r.random()
        if k < .6: x, kind = g.arith(r.choice((0, 1, 2, 2, 3))), 'a'
        elif k < .92: x, kind = g.ptr(r.choice((0, 1, 1, 2))), 'p'
        else: x, kind = g.agg(1), 'g'
        desc[i] = x
        st = [f'printf("{i}.t %s\\n", TC({x}));']
        bf = any(b in x for b in g.BF) and not x.startswith('(')
        if x not in g.BF and 'fs().b5' != x:
            st.append(f'printf("{i}.z %d\\n", (int)sizeof({x}));') if not (x.lstrip('*&(') in ('fi', 'fv', 'ft', 'ffp')) else None
            st.append(f'printf("{i}.q %s\\n", QC({x}));')
            if r.random() < .3: st.append(f'printf("{i}.u %s\\n", UQ({x}));')
            if r.random() < .3 and kind != 'g': st.append(f'printf("{i}.c %d %d\\n", COMPAT({x}, {r.choice(AR + PT + AG)}), COMPAT({x}, {r.choice(AR)}));')
        if r.random() < .3 and kind in 'ap' and x not in g.BF: st.append(f'printf("{i}.A %s\\n", AT({x}));') if False else None
        if kind == 'a' and r.random() < .4: st.append(f'printf("{i}.s %d\\n", SG({x}));')
        if kind == 'a' and r.random() < .3: st.append(f'printf("{i}.g %d\\n", (int)_Generic(({x}) + 0, int: 1, unsigned: 2, long: 3, default: 4) * 10 + _Generic({x}, default: 1, const int: 2, int: 3, unsigned short: 4));')
        if r.random() < .25 and x not in g.BF: st.append(f'{{ goto L{i}; auto v_ = ({x}); L{i}:; printf("{i}.A %s %d\\n", QC(v_), (int)sizeof v_); }}') if kind != 'x' else None
        body += [y for y in st if y]
    k = max(1, len(body) // 4)
    for j in range(0, len(body), k):
        calls.append(f't{j}();')
        out.append(f'static void t{j}(void) {{\n' + '\n'.join(body[j:j + k]) + '\n}')
    out.append('int main(void) { pi = ai; pci = cai; pvi = &vvi; pS = &S; pcS = &cS; pvS = (void *)&S; pai = &ai; ppi = &pi; ppci = &pci; pfi = fi; apf[0] = apf[1] = fi; S.fp = fi; pc = ac; pcc = ac; rpi = ai; if (vi) { ' + ' '.join(calls[:0]) + ' } ' + ' '.join(calls) + ' return 0; }')
    return '\n'.join(out) + '\n', desc


def check(ctx):
    ctx.rule = ('random expressions over operands of every arithmetic type, enums, bit-fields, qualified objects, pointers, arrays, functions and aggregates; for each the program logs the selected _Generic association of the value, of a pointer to typeof / typeof_unqual (exact '
                'qualifiers), sizeof, signedness, auto-deduced type and compatibility; gcc and clang must agree; non-trivial: distinct logs')
    slim = ctx.build('plain')
    D = Diff(ctx, slim, common=('-w', '-std=c23'), std_ref=('-std=gnu2x',), san=False)

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        src, desc = program(r, 60)
        D.go(res, f't{idx}', {'t.c': src}, [[], ['-O0']][idx % 2:idx % 2 + 1], describe=lambda k: desc.get(int(k.split('.')[0]), '') if k.split('.')[0].isdigit() else '')
        if idx == 0: res.sample = {'expressions': [desc[i] for i in range(6)]}
        return res
    ctx.pmap(one, range(ctx.n(200, 4000)))


if __name__ == '__main__':
    main('C10', check, min_events=10000, min_distinct=100)
