"""C14: inline assembly.  Templates read every input from wherever the compiler put it, trash every declared clobber and write every output;
each function logs its whole visible state afterwards and runs under a register monitor (callee-saved registers, x87 stack depth, MXCSR, DF)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.diff import Diff

SUF = {1: 'b', 2: 'w', 4: 'l', 8: 'q'}
T_ = [('char', 1), ('unsigned char', 1), ('short', 2), ('unsigned short', 2), ('int', 4), ('unsigned', 4), ('long', 8), ('unsigned long', 8), ('int', 4), ('long', 8)]
GP = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15']
FIX = {'a': 'rax', 'b': 'rbx', 'c': 'rcx', 'd': 'rdx', 'S': 'rsi', 'D': 'rdi'}
CC = ['z', 'nz', 'e', 'ne', 'a', 'ae', 'b', 'be', 'c', 'nc', 'g', 'ge', 'l', 'le', 's', 'ns', 'o', 'no', 'p', 'np', 'na', 'nb', 'nbe', 'ng', 'nl']


def sub(reg, sz):
    if reg[1:].isdigit(): return reg + {1: 'b', 2: 'w', 4: 'd', 8: ''}[sz]
    b = reg[1:]
    if sz == 8: return reg
    if sz == 4: return 'e' + b
    if sz == 2: return b
    return {'ax': 'al', 'bx': 'bl', 'cx': 'cl', 'dx': 'dl', 'si': 'sil', 'di': 'dil', 'bp': 'bpl'}[b]


class G:
    def __init__(s, r, k, pie):
        s.r, s.k, s.pie = r, k, pie
        s.t, s.sz = r.choice(T_)
        s.x = SUF[s.sz]
        s.nl = 0
        s.novla = r.random() < .35
        s.tags = set()

    # operand expressions
    def inp(s, const=True, depth=0):
        r, t = s.r, s.t
        c = [f'x{r.randint(0, 3)}', f'x{r.randint(0, 3)}', 's.m', f'arr[{r.randint(0, 3)}]', '*p', 'p[1]', 'sg', 'gg', 'tt', f'vla[{r.randint(0, 2)}]', '*idp(&x1)', 'ps->m', 'cx']
        if s.sz == 4: c += ['s.bf', 's.bg', 's.q1']
        if s.sz == 8: c += ['s.bl']
        if const and r.random() < .2: return f'({t}){r.randint(-100, 100)}' if s.sz > 1 else f'({t}){r.randint(0, 100)}'
        q = r.random()
        if q < .5: return r.choice(c)
        if q < .7: return f'({t})({r.choice(c)} {r.choice("+-*^")} {r.choice(c)})'
        if q < .78: return f'({t})idl({r.choice(c)} + 1L)'
        if q < .84: return f'({t})(d1 * 3)' if r.random() < .5 else f'({t}){{ x2 }}'
        if q < .92 and depth == 0:
            s.tags.add('nested')
            a = r.choice(c)
            cl = r.choice(('', ' : "rbx"', ' : "rcx", "r12"', ' : "rax", "rdx", "rsi"'))
            return f'({{ {t} n_; __asm__("mov{s.x} %1, %0" : "=&r"(n_) : "{r.choice(("r", "m", "rm"))}"({r.choice(("x0", "x1", "s.m"))}){cl}); ({t})(n_ + {a}); }})'
        return f'arr[ix++ & 3]'

    def lval(s, mem=False, nobf=False):
        r = s.r
        c = [f'x{r.randint(0, 3)}', f'x{r.randint(0, 3)}', f'x{r.randint(0, 3)}', 's.m', f'arr[{r.randint(0, 3)}]', '*p', 'p[1]', 'sg', 'gg', 'tt', f'vla[{r.randint(0, 2)}]', 'ps->m', '*idp(&x2)', 'arr[ix++ & 3]']
        if not mem and not nobf and r.random() < .15:
            if s.sz == 4: return r.choice(('s.bf', 's.bg', 's.q1'))
            if s.sz == 8: return 's.bl'
        return r.choice(c)

    def lvals(s, n, **kw):
        o = []
        for _ in range(50):
            l = s.lval(**kw)
            # distinct objects only
            if all(not s.alias(l, q) for q in o): o.append(l)
            if len(o) == n: break
        while len(o) < n: o.append(f'y{len(o)}')
        return o

    def alias(s, a, b):
        def g(z):
            if 'arr' in z or z in ('*p', 'p[1]'): return 'arr'
            if z in ('s.m', 'ps->m'): return 's.m'
            if 'x2' in z: return 'x2'
            if z.startswith(('s.b', 's.q')): return 's.b'
            return z
        return g(a) == g(b)

    def clob(s, fixed=(), n=None):
        r = s.r
        av = [g for g in GP if g not in fixed and (g != 'rbp' or s.novla)]
        n = r.choice((0, 0, 1, 2, 3, 5)) if n is None else n
        c = r.sample(av, min(n, len(av)))
        xm = r.sample(range(16), r.choice((0, 0, 1, 4)))
        tr = ''.join(f' mov $0x{r.randrange(1 << 31):x}, %%{sub(g, r.choice((4, 8)))};' for g in c) + ''.join(f' pcmpeqd %%xmm{q}, %%xmm{q};' for q in xm)
        L = [f'"{r.choice(("", "%"))}{g if r.random() < .6 else sub(g, r.choice((4, 2)) if not g[1:].isdigit() else 8)}"' for g in c] + [f'"xmm{q}"' for q in xm]
        if r.random() < .3: L.append('"cc"')
        if r.random() < .2: L.append('"memory"')
        r.shuffle(L)
        s.nc = c
        return tr, (' : ' + ', '.join(L) if L else '')

    def kw(s): return s.r.choice(('__asm__', '__asm__ volatile', '__asm__ __volatile__', '__asm'))

    def one(s):
        r, t, x = s.r, s.t, s.x
        k = r.random()
        op = r.choice(('add', 'sub', 'xor', 'and', 'or'))
        if k < .2:   # out = a op b (early clobber register)
            s.tags.add('alu')
            o, = s.lvals(1)
            fx = r.choice((None, None, None, 'a', 'b', 'c', 'd', 'S', 'D'))
            tr, cl = s.clob([FIX[fx]] if fx else [], r.choice((0, 1, 2, 4)))
            c1, c2 = r.choice(('r', 'm', 'rm', 'g', 'q', 'ri')), r.choice(('r', 'm', 'rm', 'g', 'q', 'ri', 'R'))
            a, b = (s.inp(const='i' in c or c == 'g') if c not in ('m',) else s.lval(mem=True) for c in (c1, c2))
            if 'i' in c1 and s.sz == 1: c1 = 'r'
            nm = r.random() < .4
            T0, T1, T2 = ('%[o]', '%[a]', '%[b]') if nm else ('%0', '%1', '%2')
            n0, n1, n2 = ('[o] ', '[a] ', '[b] ') if nm else ('', '', '')
            return f'{s.kw()}("mov{x} {T1}, {T0};{tr} {op}{x} {T2}, {T0}" : {n0}"=&{fx or "r"}"({o}) : {n1}"{c1}"({a}), {n2}"{c2}"({b}){cl});' if not tr else \
                   f'{s.kw()}("mov{x} {T1}, {T0}; {op}{x} {T2}, {T0};{tr}" : {n0}"=&{fx or "r"}"({o}) : {n1}"{c1}"({a}), {n2}"{c2}"({b}){cl});'
        if k < .34:  # read-write
            s.tags.add('rw')
            o, = s.lvals(1)
            c = r.choice(('+r', '+&r', '+m', '+rm', '+g', '+q', '+a', '+b', '+d', '+S'))
            if 'm' in c or 'g' in c: o, = s.lvals(1, mem=True)
            tr, cl = s.clob([FIX[c[1]]] if c[1] in FIX else [])
            ic = r.choice(('r', 'ri'))
            a = s.inp(const=ic == 'ri')
            return f'{s.kw()}("{op}{x} %1, %0;{tr}" : "{c}"({o}) : "{ic}"({a}){cl});'
        if k < .42:  # matching, plain
            s.tags.add('match')
            o, = s.lvals(1)
            fx = r.choice(('r', 'r', 'q', 'a', 'c', 'D', 'R'))
            tr, cl = s.clob([FIX[fx]] if fx in FIX else [])
            return f'{s.kw()}("{r.choice(("not", "neg", "inc", "dec"))}{x} %0;{tr}" : "={fx}"({o}) : "0"({s.inp()}){cl});'
        if k < .5:   # swap/two outputs
            s.tags.add('two')
            o1, o2 = s.lvals(2)
            tr, cl = s.clob([], r.choice((0, 1, 2)))
            if r.random() < .5: return f'{s.kw()}("xchg{x} %0, %1;{tr}" : "+r"({o1}), "+r"({o2}) :{cl and " "+cl});'
            return f'{s.kw()}("xchg{x} %0, %1; add{x} %4, %0;{tr}" : "=&r"({o1}), "=&r"({o2}) : "0"({s.inp()}), "1"({s.inp()}), "r"({s.inp()}){cl});'
        if k < .56 and s.sz >= 2:  # mul / div by fixed registers
            s.tags.add('muldiv')
            o1, o2 = s.lvals(2)
            if r.random() < .5:
                return f'{s.kw()}("mul{x} %3" : "=a"({o1}), "=d"({o2}) : "{r.choice(("0", "a"))}"({s.inp()}), "{r.choice(("r", "b", "c", "S"))}"({s.inp()}) : "cc");'
            return f'{s.kw()}("div{x} %4" : "=a"({o1}), "=d"({o2}) : "0"({s.inp()}), "1"(({t})0), "r{r.choice(("m", ""))}"(({t})(nz{s.sz})) : "cc");'.replace('"rm"((' + t + ')(nz', '"rm"((nz' if False else '"r"((' + t + ')(nz')
        if k < .66:  # flags
            s.tags.add('flags')
            n = r.choice((1, 1, 2, 3))
            fl = r.sample(CC, n)
            fo = r.sample(['fb', 'fc', 'fi', 'fl', 'fh', 'fu', 's.fm', 'fa[1]', '*fp', 'fa[ix++ & 1]'], n)
            if 'fa[1]' in fo and ('fa[ix++ & 1]' in fo or '*fp' in fo): fo = ['fb', 'fl', 'fi'][:n]
            if '*fp' in fo and 'fa[ix++ & 1]' in fo: fo = ['fb', 'fl', 'fi'][:n]
            ex, eo, ecode = '', '', ''
            if r.random() < .4:
                o, = s.lvals(1)
                eo = f'"={r.choice(("&r", "&a"))}"({o})'
                ecode = f'mov{x} %{n if r.random() < 2 else 0}, %0; '
                outs = [eo] + [f'"=@cc{f}"({v})' for f, v in zip(fl, fo)]
                return f'{s.kw()}("mov{x} %{n + 1}, %0; cmp{x} %{n + 2}, %0" : {", ".join(outs)} : "r"({s.inp()}), "{r.choice(("r", "rm"))}"({s.inp(const=False)}));'
            outs = [f'"=@cc{f}"({v})' for f, v in zip(fl, fo)]
            return f'{s.kw()}("{r.choice(("cmp", "test", "cmp"))}{x} %{n + 1}, %{n}" : {", ".join(outs)} : "{r.choice(("r", "rm"))}"({s.inp(const=False)}), "r"({s.inp()}));'
        if k < .74:  # SSE
            s.tags.add('sse')
            tr, cl = '', ''
            f = r.choice((('d1', 'd2', 'sd'), ('f1', 'f2', 'ss')))
            q = r.random()
            ex = f'({f[1]} * 2 + {f[0]})' if r.random() < .5 else f[1]
            if q < .3: return f'{s.kw()}("{r.choice(("add", "mul", "sub"))}{f[2]} %1, %0" : "+x"({f[0]}) : "x{r.choice(("", "m"))}"({f[1]}));'
            if q < .5: return f'{s.kw()}("mov{"apd"} %1, %0; add{f[2]} %2, %0" : "=&x"({r.choice((f[0], "da[1]" if f[2] == "sd" else "f3"))}) : "x"({ex}), "x"({f[0]}) : "xmm0", "xmm7");'
            if q < .65: return f'{s.kw()}("cvtsi2sd{r.choice(("l", ))} %1, %0" : "=x"(d1) : "r{r.choice(("", "m"))}"(ix + 3));'.replace('"rm"', '"r"')
            if q < .8: return f'{s.kw()}("movq %1, %0" : "=r"(ll) : "x"(d2)); {s.kw()}("movq %1, %0" : "=x"(d1) : "r"(ll));'
            if q < .9: return f'{s.kw()}("cvttsd2si %1, %0" : "=r"(ix) : "x"({r.choice(("d2", "d1", "(double)f1"))}));'
            return f'{{ register double rx __asm__("xmm{r.randint(0, 15)}") = d1; {s.kw()}("addsd %1, %0" : "+x"(rx) : "x"(d2)); d1 = rx; }}'
        if k < .8:   # x87
            s.tags.add('x87')
            q = r.random()
            v, w = r.choice((('ld1', 'ld2'), ('d1', 'd2'), ('f1', 'f2')))
            if q < .2: return f'{s.kw()}("{r.choice(("fabs", "fchs", "fsqrt; fchs"))}" : "+t"({v}));'.replace('fsqrt; ', '')
            if q < .4: return f'{s.kw()}("{r.choice(("faddp", "fmulp"))} %%st, %%st(1)" : "=t"({v}) : "0"({w}), "u"({v}) : "st(1)");'
            if q < .55: return f'{s.kw()}("fadd %%st(1), %%st" : "=t"({v}) : "0"({v}), "u"({w}));'
            if q < .7: return f'{s.kw()}("fxch %%st(1)" : "=t"({v}), "=u"({w}) : "0"({v}), "1"({w}));'
            if q < .85: return f'{s.kw()}("fld1; fadd %%st(1), %%st; fstp %%st(1)" : "+t"({v}));'
            return f'{s.kw()}("fistpl %0" : "=m"(ix) : "t"({r.choice(("d1", "ld1", "f2 + 1"))}) : "st");'
        if k < .9:   # goto
            s.tags.add('goto')
            s.nl += 1
            L, M = f'l{s.k}_{s.nl}', f'm{s.k}_{s.nl}'
            num = r.randint(0, 6)
            two = r.random() < .4
            if r.random() < .5:
                labs = f'{L}, {M}' if two else L
                tr, cl = s.clob([], r.choice((0, 1, 2)))
                pos = [f'%l[{L}]', f'%l2'][r.random() < .4]
                extra = f' cmp{x} $7, %0; jg %l[{M}];' if two else ''
                body = f'{s.kw().split()[0]} goto("cmp{x} %1, %0; {r.choice(("je", "jl", "ja", "jne"))} {pos};{extra}" : : "r"({s.inp(const=False)}), "r"({s.inp()}){cl or " :"} : {labs});'
                if not cl: body = body.replace(') : :', ') : :')
            else:
                s.tags.add('goto-out')
                o, = s.lvals(1)
                labs = f'{L}, {M}' if two else L
                extra = f' test{x} %0, %0; js %l[{M}];' if two else ''
                c = r.choice(('=&r', '=&r', '=&a'))
                skip = f' jmp {num}f; nop; {num}:' if r.random() < .5 else ''
                body = f'{s.kw().split()[0]} goto("mov{x} %1, %0; add{x} $3, %0; cmp{x} %2, %0; {r.choice(("je", "jl", "ja"))} %l[{L}];{extra}{skip}" : "{c}"({o}) : "r"({s.inp()}), "r"({s.inp()}) : "cc" : {labs});'
            post = f'io[3] += 1; goto e{s.k}_{s.nl};'
            return f'{body} {post} {L}: io[3] += 100;' + (f' goto e{s.k}_{s.nl}; {M}: io[3] += 10000;' if two else '') + f' e{s.k}_{s.nl}: ;'
        if k < .94:  # modifiers
            s.tags.add('mod')
            q = r.random()
            if q < .3: return f'{s.kw()}("movzbl %b1, %k0" : "=r"(ix) : "q"({s.inp()}));'
            if q < .5: return f'{s.kw()}("mov %h1, %b0; xchg %h1, %b1" : "=&q"(fc), "+Q"(ll));'
            if q < .7: return f'{s.kw()}("lea %c2(%q1), %q0; add %w1, %w0" : "=&r"(ll) : "r"((long)ix), "i"({r.randint(-500, 500)}));'
            if q < .85: return f'{s.kw()}("bswap %k0; bswap %q1" : "+r"(ix), "+r"(ll));'
            return f'{s.kw()}("mov %k1, %k0; rol %b2, %k0" : "=&r"(ix) : "r"({r.choice(("x0", "x1"))} + 0), "{r.choice(("ci", "c", "cJ"))}"((char){r.randint(1, 30)}));'
        if k < .97:  # register variables
            s.tags.add('regvar')
            g, g2 = r.sample(['r12', 'r8', 'rbx', 'rdi', 'r15', 'rsi', 'r9', 'r13'], 2)
            tr, cl = s.clob([g, g2], r.choice((0, 1, 2)))
            return f'{{ long t1_ = (long){s.inp()}, t2_ = (long){s.inp()}; register long ra __asm__("{g}") = t1_; register long rb __asm__("{g2}") = t2_; {s.kw()}("add %1, %0; imul %%{g}, %1;{tr}" : "+r"(ra), "+r"(rb) :{cl and " " + cl}); ll = ra - rb; }}'
        # constants with range constraints: too large a constant must go to the register alternative
        s.tags.add('immrange')
        c, hi = r.choice((('Nd', 255), ('Ic', 31), ('Jc', 63), ('Kr', 127), ('Mr', 3), ('Or', 127)))[:2]
        if c == 'er': return f'{s.kw()}("add %1, %0" : "+r"(ll) : "r{r.choice(("", "i"))}"({r.choice((5, 100000))}L));'
        v = r.choice((r.randint(0, hi), hi + r.randint(1, 300)))
        return f'{s.kw()}(".if 0; .endif; mov{x} %1, %0" : "=&r"({s.lvals(1)[0]}) : "{c}"(({t}){v}));' if s.sz > 1 else f'{s.kw()}("movl %1, %0" : "=&r"(ix) : "{c}"({v}));'

    def fn(s):
        r, t, k = s.r, s.t, s.k
        st = []
        for _ in range(r.choice((1, 1, 2, 3))):
            a = s.one()
            q = r.random()
            if q < .2 and 'goto' not in a and ' : ' in a:
                s.tags.add('inexpr')
                a = r.choice((f'll = (ll * 3 + x3) ^ (long)(({{ {a} x1; }}) + idl(x0)) * (d1 > 0 ? 2 : 3);', f'll += many(x0, ll, d2, ({{ {a} x2; }}), ld1, x3, ix, 8, 9, d1);', f'd2 = d2 * 2 + (ld1 - ({{ {a} d1; }}));', f'arr[({{ {a} 2; }})] += x3;', f'for (int q = 0; q < 2; q++) {{ {a} ll += q; }}', f'if (({{ {a} x0; }}) > 3) ll++;'))
                if '{ ' + t + ' n_' in a: pass
            st.append(a)
        al = '' if s.novla else r.choice(('', '', '_Alignas(64) '))
        na = 0 if s.novla else r.choice((0, 0, 1))
        s.st = st
        body = (f'static void f{k}(long *io) {{ {al}{t} x0 = io[0], x1 = io[1], x2 = io[2], x3 = io[1] - io[0], y0 = 0, y1 = 0; const {t} cx = 37; static {t} sg = 5; int n3 = 3, ix = 1; '
                f'struct S {{ char c; {t} m; unsigned q0:{r.choice((1, 1, 2, 3, 7, 8, 13))}, q1:{r.choice((17, 18, 19))}; int bf:19; unsigned bg:23; long bl:40; unsigned q2:{r.choice((1, 3, 9))}; unsigned char fm; }} s = {{ 1, x1, 1, 1, 7, 9, -5, 1, 0 }}, *ps = &s; {t} arr[4] = {{ x0, 2, x2, 4 }}, *p = &arr[2]; {t} vla[{3 if s.novla else 'n3'}]; vla[0] = 3; vla[1] = x1; vla[2] = x2; '
                f'double d1 = io[0] & 15, d2 = 2.5, da[2] = {{ 1, 2 }}; float f1 = 1.5f, f2 = io[1] & 7, f3 = 0; long double ld1 = 1.25L, ld2 = io[2] & 7; long ll = io[0]; unsigned char nz1 = 7; unsigned short nz2 = 300; unsigned nz4 = 1000; unsigned long nz8 = 77777; (void)nz1; (void)nz2; (void)nz4; (void)nz8; '
                f'_Bool fb = 0; char fc = 0, fa[2] = {{ 0 }}; int fi = -5; long fl = 0x123456789abcdefl; short fh = 0x1234; unsigned short fu = 0xfff0; unsigned char *fp = (unsigned char *)&fa[0]; long can[6] = {{ 11, 22, 33, 44, 55, 66 }}; sg = 5; gg = 6; tt = 8;' + ('char *av = alloca(40 + ix); av[0] = 3; ' if na else '') + '\n' + '\n'.join(st) +
                f'\nlong o[] = {{ x0, x1, x2, x3, y0, y1, cx, sg, gg_((long)gg), tt, s.c, s.m, s.bf, s.bg, s.bl, s.fm, s.q0 + s.q1 * 2 + s.q2 * 4, arr[0], arr[1], arr[2], arr[3], vla[0], vla[1], vla[2], (long)(d1 * 64), (long)(d2 * 64), (long)(da[1] * 64), (long)(f1 * 64), (long)(f2 * 64), (long)(f3 * 64), (long)(ld1 * 64), (long)(ld2 * 64), ll, fb, fc, fa[0], fa[1], fi, fl, fh, fu, ix, p - arr, can[0] + can[1] * 2 + can[2] * 3 + can[3] * 4 + can[4] * 5 + can[5] * 6{", av[0]" if na else ""} }}; out({k}, o, sizeof o / 8, io[3]); }}')
        u = s.t.replace(' ', '_')
        return re.sub(r'\b(gg|tt|idp)\b', lambda m: m.group(1) + u, body)


RUN = r'''
__asm__(".text\n.globl regchk\n.type regchk, @function\nregchk:\n push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15; sub $40, %rsp\n"
"mov %rdi, %rax; mov %rsi, %rdi; stmxcsr 16(%rsp)\n"
"mov $0x1111111122222222, %rbx; mov $0x3333333344444444, %rbp; mov $0x5555555566666666, %r12; mov $0x77777777, %r13; mov $0x99999999, %r14; mov $0xbbbbbbbb, %r15\n"
"call *%rax\n xor %eax, %eax\n"
"mov $0x1111111122222222, %rcx; cmp %rcx, %rbx; je 1f; or $1, %eax; 1: mov $0x3333333344444444, %rcx; cmp %rcx, %rbp; je 1f; or $2, %eax; 1:\n"
"mov $0x5555555566666666, %rcx; cmp %rcx, %r12; je 1f; or $4, %eax; 1: mov $0x77777777, %ecx; cmp %rcx, %r13; je 1f; or $8, %eax; 1: mov $0x99999999, %ecx; cmp %rcx, %r14; je 1f; or $16, %eax; 1: mov $0xbbbbbbbb, %ecx; cmp %rcx, %r15; je 1f; or $32, %eax; 1:\n"
"pushf; pop %rcx; test $0x400, %ecx; je 1f; or $64, %eax; cld; 1: sub $32, %rsp; fnstenv (%rsp); movzwl 8(%rsp), %ecx; add $32, %rsp; cmp $0xffff, %ecx; je 1f; or $128, %eax; fninit; 1: fninit\n"
"stmxcsr 20(%rsp); mov 16(%rsp), %ecx; xor 20(%rsp), %ecx; test $0xffc0, %ecx; je 1f; or $256, %eax; 1:\n"
"add $40, %rsp; pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx; ret\n");
'''


def program(r, n, pie=True):
    L = ['#include <stdio.h>\n#include <alloca.h>', RUN, 'extern long regchk(void (*)(long *), long *);']
    for t in sorted({x[0] for x in T_}):
        u = t.replace(' ', '_')
        L.append(f'{t} gg{u} = 6; static _Thread_local {t} tt{u} = 8; {t} *idp{u}({t} *p) {{ return p; }}')
    L.append('long idl(long x) { return x; } long gg_(long x) { return x; } static long many(long a, long b, double c, long d, long double e, long f, long g, long h, long i, double j) { return a + b * 3 + (long)c + d * 5 + (long)e * 7 + f * 11 + g * 13 + h + i + (long)j; }')
    L.append('static void out(int k, long *o, int n, long io3) { printf("f%d", k); for (int i = 0; i < n; i++) printf(" %ld", o[i]); printf(" io %ld\\n", io3); }')
    names, src, tags = [], {}, {}
    for k in range(n):
        g = G(r, k, pie)
        f = g.fn()
        L.append(f)
        src[k] = '\n'.join(g.st)
        tags[k] = g.tags
    L.append('static void (*fs[])(long *) = { ' + ', '.join(f'f{k}' for k in range(n)) + ' };')
    L.append(f'int main(void) {{ static long in[][4] = {{ {{ 1, 2, 3, 0 }}, {{ 77, -5, 9, 0 }}, {{ -1, 100, 64, 0 }}, {{ 0x12345678, 0x7fff, -300, 0 }} }}; for (int k = 0; k < {n}; k++) for (int q = 0; q < 4; q++) {{ long io[4] = {{ in[q][0], in[q][1], in[q][2], 0 }}; printf("r%d %d %lx\\n", k, q, regchk(fs[k], io)); }} return 0; }}')
    return '\n'.join(L) + '\n', src, tags


FIELDS = 'x0 x1 x2 x3 y0 y1 cx sg gg tt s.c s.m s.bf s.bg s.bl s.fm s.q arr0 arr1 arr2 arr3 vla0 vla1 vla2 d1 d2 da f1 f2 f3 ld1 ld2 ll fb fc fa0 fa1 fi fl fh fu ix p can av_or_io'.split()


def check(ctx):
    ctx.rule = ('random functions with 1-3 extended asm statements (register classes, fixed registers, memory, immediate, matching, read-write, early-clobber, flag outputs, named operands, size modifiers, asm goto with and without outputs, x87, SSE, register variables, nesting in expressions) '
                'over 8 operand types and 15 operand forms, templates trashing declared clobbers; whole frame state logged, callee-saved registers, x87 stack, MXCSR, DF monitored; non-trivial: distinct state logs')
    ctx.assumptions.append('gcc and clang agree on the meaning of each statement; statements they disagree on are dropped')
    slim = ctx.build('plain')
    D = Diff(ctx, slim, common=('-w',), ref_common=('-w', '-fomit-frame-pointer'), std_ref=('-std=gnu17',), san=False)

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        src, fs, tags = program(r, 6)
        v = [[[]], [['-O0']], [['-fPIC']], [['-fno-pie', '-no-pie']]][idx % 4]
        w = D.go(res, f'p{idx}', {'t.c': src}, v, describe=lambda k: 'statements: ' + fs.get(int(re.sub(r'\D', '', k)), '')[-1500:], fields=FIELDS)
        if w:
            for k in tags:
                for x in tags[k]: res.count(x)
            res.distinct = {h(x) for x in w if x[0] == 'f'}
            if idx == 0: res.sample = {'fn': fs[0][-900:], 'log': w[:2]}
        return res
    ctx.pmap(one, range(ctx.n(1200, 12000)))


if __name__ == '__main__':
    main('C14', check, min_events=5000, min_distinct=2000)
