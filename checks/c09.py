"""C09: cleanup-attribute functions and defer statements (event logs; GCC nested functions with cleanup as the reference for defer)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.diff import Diff

PRE = r'''
extern int printf(const char *, ...);
static unsigned rs; static int budget;
static int R(int n) { if (--budget < 0) return 0; rs = rs * 1103515245u + 12345u; return (rs >> 13) % n; }
static int L(const char *w, long long v) { printf("%s %lld\n", w, v); return (int)v; }
static int LI(int id, int v) { printf("e%d %d\n", id, v); return v; }
struct S1 { char c; }; struct S2 { long a, b; }; struct S3 { int a[20]; }; struct S4 { double d; long l; };
static void ci(int *p) { printf("ci %d\n", *p); *p += 1000; }
static void cl(long *p) { printf("cl %ld\n", *p); *p = -1; }
static void cc_(char *p) { printf("cc %d\n", *p); }
static void cd_(double *p) { printf("cd %d\n", (int)*p); *p = 0; }
static void cp_(int **p) { printf("cp %d\n", **p); **p += 7; }
static void c2(struct S2 *p) { printf("c2 %ld %ld\n", p->a, p->b); p->a = 77; }
static int v2(struct S2 s) { return (int)((s.a * 3 + s.b) % 10007); }
static int v3(struct S3 s) { return (int)((s.a[0] * 3L + s.a[19]) % 10007); }
static int v4(struct S4 s) { return (int)(((long)s.d % 10007 * 3 + s.l) % 10007); }
static void c3(struct S3 *p) { printf("c3 %d %d\n", p->a[0], p->a[19]); p->a[0] = 5; }
static void cv(void *p) { printf("cv %d\n", *(int *)p); }
static int cret(int *p) { printf("cret %d\n", *p); return 3; }
static void carr(int (*p)[3]) { printf("carr %d %d\n", (*p)[0], (*p)[2]); (*p)[1]++; }
#define C(f) __attribute__((cleanup(f)))
#ifdef SLIM
#define DEFER(n, ...) _Defer __VA_ARGS__
#define DEFER1(n, ...) _Defer __VA_ARGS__
#define BRK(l) break l
#define CNT(l) continue l
#else
#define DEFER(n, ...) auto void df##n(char *); __attribute__((cleanup(df##n))) char dv##n; void df##n(char *dp) __VA_ARGS__
#define DEFER1(n, ...) auto void df##n(char *); __attribute__((cleanup(df##n))) char dv##n; void df##n(char *dp) { __VA_ARGS__ }
#define BRK(l) goto l##_b
#define CNT(l) goto l##_c
#endif
#ifdef KW
#undef DEFER
#undef DEFER1
#define DEFER(n, ...) defer __VA_ARGS__
#define DEFER1(n, ...) defer __VA_ARGS__
#endif
'''


class Fn:
    def __init__(s, r, i, defer, P):
        s.r, s.i, s.defer, s.P = r, i, defer, P
        s.uid = 0
        s.vars = []        # int variables in scope
        s.loops = []       # (kind, label or None)
        s.fwd = []         # labels usable by goto (they follow an enclosing block)
        s.back = []        # (label, counter)
        s.nst = 0
        s.indefer = 0
        s.nojump = 0

    def n(s, p='v'):
        s.uid += 1
        return f'{p}{s.i}_{s.uid}'

    def log(s):
        s.P.ids += 1
        if s.vars and s.r.random() < .4: return f'L("s{s.P.ids}", {s.r.choice(s.vars)});'
        return f'L("s{s.P.ids}", 0);'

    def e(s):
        """int expression with observable effects"""
        s.P.ids += 1
        k = s.r.random()
        if s.vars and k < .5: return s.r.choice(s.vars)
        if s.vars and k < .65: return f'({s.r.choice(s.vars)} += {s.r.randrange(1, 9)})'
        if k < .75 and s.P.nf_done: return s.P.call(s.r)
        if k < .85 and s.nst < 60:
            s.nojump += 1
            sv = list(s.vars), s.loops, s.fwd, s.back
            s.loops, s.fwd, s.back = [], [], []
            b = s.stmts(s.r.choice((1, 2)), 1)
            x = s.e() if s.nst < 60 else '4'
            s.vars, s.loops, s.fwd, s.back = sv
            s.nojump -= 1
            return s.sx(b, x)
        return f'LI({s.P.ids}, {s.r.randrange(100)})'

    def sx(s, b, x):
        """statement expression (a value of any type, computed before the clean-ups of its scope run) as an int expression"""
        r = s.r
        k = r.randrange(22)
        z = r.randrange(1, 90)
        q = s.n('q')
        if k < 4: return f'({{ {b} {x}; }})'
        if k < 7: return f'(int)(2 * ({{ {b} (long double)({x}) + 0.5L; }}))'
        if k == 7: return f'(int)(2 * ({{ {b} {x} + 0.5; }}))'
        if k == 8: return f'(int)(2 * ({{ {b} (float)(({x}) & 1023) + 0.5f; }}))'
        if k == 9: return f'(({{ {b} (_Bool)({x}); }}) + {z})'
        if k == 10: return f'({{ {b} (unsigned char)({x}); }})'
        if k == 11: return f'({{ {b} (signed char)-(({x}) & 63); }})'
        if k == 12: return f'(int)(({{ {b} (long)({x}) + 0x300000000L; }}) - 0x2ffffffffL)'
        if k == 13: return f'({{ {b} (struct S2){{ {x}, {z} }}; }}).a'
        if k == 14: return f'({{ C(c2) struct S2 {q} = {{ {z}, 3 }}; {b} {q}.b = {x}; {q}; }}).{r.choice("ab")}'
        if k == 15: return f'({{ C(c3) struct S3 {q} = {{ {{ {z}, [19] = {z} }} }}; {b} {q}.a[19] = {x}; {q}; }}).a[{r.choice((0, 19))}]'
        if k == 16: return f'({{ C(cd_) double {q} = {z}; {b} {q} + {x}; }}) / 2 > 3'
        if k == 17: return f'*({{ {b} static int {q}; {q} = {x}; &{q}; }})'
        if k == 18: return f'(({{ {b} (void)({x}); }}), {z})'
        if k == 19: return f'({{ C(ci) int {q} = {z}; {b} {q} += {x}; }})'
        if k == 20: return f'(({{ {b} LI(0, {x}) > {z}; }}) ? ({{ C(ci) int {q} = {z}; {q} + 1; }}) : {z})'
        return f'(int)(({{ {b} (long double)({x}); }}) + ({{ C(cl) long {q} = {z}; (long double){q}; }}))'

    def reached(s):
        """declaration with a cleanup or a defer statement"""
        r = s.r
        if s.defer and r.random() < .55:
            n = s.n('d')
            s.indefer += 1
            sv = list(s.vars), s.loops, s.fwd, s.back
            s.loops, s.fwd, s.back = [], [], []
            s.nojump += 1
            if r.random() < .3:
                b = f'DEFER1({n}, {r.choice([s.log(), s.log(), (r.choice(s.vars) + "++;") if s.vars else s.log()])})'
            else:
                b = f'DEFER({n}, {{ {s.log()} {s.stmts(r.choice((0, 1, 2)), 1)} }})'
            s.nojump -= 1
            s.vars, s.loops, s.fwd, s.back = sv
            s.indefer -= 1
            return b
        v = s.n()
        k = r.randrange(13)
        x = r.randrange(1, 100)
        if k <= 3:
            f = r.choice(('ci', 'ci', 'cv', 'cret'))
            t = f'{r.choice(("int C(%s) %s = %s;", "C(%s) int %s = %s;", "int %s2 = 5, %s C(%s) = %s;" if 0 else "C(%s) int %s = %s;"))}' % (f, v, s.e())
            s.vars.append(v)
            return t
        if k == 4:
            w = s.n()
            t = f'int C(ci) {v} = {x}, C(ci) {w} = {v} + {x};' if r.random() < .3 else f'C(ci) int {v} = {s.e()}, {w} = {x};'
            s.vars += [v, w]
            return t
        if k == 5: return f'C(cl) long {v} = {s.e()};'
        if k == 6: return f'C(c2) struct S2 {v} = {{ {s.e()}, {x} }};'
        if k == 7: return f'C(c3) struct S3 {v} = {{ {{ {x}, [19] = {s.e()} }} }};'
        if k == 8 and s.vars: return f'C(cp_) int *{v} = &{r.choice(s.vars)};'
        if k == 9: return f'C(cd_) double {v} = {s.e()};'
        if k == 10: return f'C(carr) int {v}[3] = {{ {x}, 2, {s.e()} }};'
        if k == 11: return f'int z{v} = 3 + R(3); C(cv) int {v}[z{v}]; {v}[0] = {x};' if not s.nojump else f'C(cc_) char {v} = {x};'
        return f'{r.choice(("", "register ", "volatile "))}int {v} C(ci); {v} = {s.e()};' if False else f'C(ci) int {v}; {v} = {x};'

    def stmts(s, n, depth):
        out = []
        for _ in range(n):
            s.nst += 1
            if s.nst > 60: break
            out.append(s.stmt(depth))
        return '\n'.join(out)

    def block(s, n, depth):
        sv = list(s.vars)
        b = s.stmts(n, depth)
        s.vars = sv
        return '{ ' + b + ' }'

    def jump(s):
        r = s.r
        c = r.choice((2, 3, 4))
        opts = []
        if s.loops:
            opts += ['break'] * 2 + ['cont', 'lab', 'lab']
        if s.fwd: opts += ['goto'] * 2
        if s.back: opts.append('back')
        if not s.nojump: opts += ['ret', 'ret']
        if not opts: return s.log()
        o = r.choice(opts)
        pre = r.choice(('', '', s.log() + ' '))
        if o == 'break': t = 'break;'
        elif o == 'cont': t = 'continue;' if any(k == 'loop' for k, _ in s.loops) else 'break;'
        elif o == 'lab':
            k, l = r.choice(s.loops)
            t = 'break;' if not l else (f'BRK({l});' if k == 'switch' or r.random() < .5 else f'CNT({l});')
            if l: s.used.add(l)
        elif o == 'goto': t = f'goto {r.choice(s.fwd)};'
        elif o == 'back':
            l, cn = r.choice(s.back)
            return f'if ({cn}-- > 0) {{ {pre}goto {l}; }}'
        else: t = s.ret()
        return f'if (R({c}) == 0) {{ {pre}{t} }}'

    used = set()

    def ret(s):
        t = s.P.rets[s.i]
        r = s.r
        if t == 'void': return 'return;'
        sv = s.nst
        s.nst = 99 if r.random() < .5 else s.nst
        e = s.e()
        s.nst = sv
        if t == 'int': return f'return {e};'
        if t in ('double', 'long double', 'char'): return f'return {e};'
        if t != 'struct S1' and r.random() < .7:
            e2 = r.randrange(1, 9999)
            return f'return ({t}){{ {{ {e}, [19] = {e2} }} }};' if t == 'struct S3' else f'return ({t}){{ {e}, {e2} }};'
        return f'return ({t}){{ {e} }};' if t != 'struct S3' else f'return ({t}){{ {{ {e} }} }};'

    def stmt(s, depth):
        r = s.r
        k = r.random()
        if k < .3: return s.reached()
        if k < .38: return s.log()
        if k < .46: return f'L("x", {s.e()});'
        if k < .58 or depth <= 0: return s.jump()
        if k < .64: return s.block(r.choice((1, 2, 3)), depth - 1)
        if k < .7:
            if r.random() < .2 and s.defer:   # defer as the sole statement of an if: runs at once
                n = s.n('d')
                return f'if (R(2)) {{ DEFER1({n}, {s.log()}) }}'
            return f'if (R(2)) {s.block(2, depth - 1)} else {s.block(2, depth - 1)}'
        if k < .84:
            lab = s.n('N')
            i = s.n('i')
            cnt = r.choice((1, 2, 3))
            form = r.choice(('for', 'while', 'do', 'forc'))
            s.loops.append(('loop', lab))
            sv = list(s.vars)
            if form == 'forc': s.vars.append(i)
            b = s.block(r.choice((1, 2, 3)), depth - 1)
            s.vars = sv
            s.loops.pop()
            u = lab in s.used
            if u: b = '{ ' + b + f'\n{lab}_c:; }}' if True else b
            slim = f'{lab}: ' if u else ''
            # the labels of the goto spelling are unused in the labelled-jump spelling and vice versa
            end = f' {lab}_b:;' if u else ''
            if form == 'for': t = f'{slim}for (int {i} = 0; {i} < {cnt}; {i}++) {b}{end}'
            elif form == 'forc': t = f'{slim}for (C(ci) int {i} = {50 - cnt}; {i} < 50; {i}++) {b}{end}'
            elif form == 'while': t = f'int {i} = {cnt}; {slim}while ({i}-- > 0) {b}{end}'
            else: t = f'int {i} = {cnt}; {slim}do {b} while (--{i} > 0);{end}'
            return '{ ' + t + ' }'
        if k < .9:
            lab = s.n('N')
            s.loops.append(('switch', lab))
            cases = []
            for c in range(r.choice((2, 3))):
                cases.append(f'{"default" if c == 2 else f"case {c}"}: {s.block(2, depth - 1)} {r.choice(("", "break;"))}')
            s.loops.pop()
            u = lab in s.used
            return f'{{ {lab + ": " if u else ""}switch (R(3)) {{ {" ".join(cases)} }}{f" {lab}_b:;" if u else ""} }}'
        if k < .95:
            lab = s.n('F')
            s.fwd.append(lab)
            b = s.block(r.choice((2, 3)), depth - 1)
            s.fwd.pop()
            return f'{{ {b} {lab}:; {s.log()} }}'
        lab, c = s.n('B'), s.n('c')
        s.back.append((lab, c))
        sv = list(s.vars)
        b = s.stmts(r.choice((2, 3)), depth - 1)
        s.vars = sv
        s.back.pop()
        return f'{{ int {c} = {r.choice((1, 2, 3))}; {lab}:; {b} }}'


class Prog:
    def __init__(s, r, defer):
        s.r, s.ids, s.nf_done = r, 0, 0
        nf = r.choice((2, 3, 5))
        s.rets = [r.choice(('void', 'int', 'int', 'double', 'long double', 'char', 'struct S1', 'struct S2', 'struct S3', 'struct S4')) for _ in range(nf)]
        out = []
        for i in range(nf):
            f = Fn(r, i, defer, s)
            f.used = set()
            f.vars = ['p']
            b = f.stmts(r.choice((4, 6, 8)), 4)
            tail = '' if s.rets[i] == 'void' and r.random() < .5 else f.ret()
            out.append(f'static {s.rets[i]} F{i}(int p) {{\n{b}\n{tail} }}')
            s.nf_done = i + 1
        m = []
        for k in range(12):
            m.append(f'rs = {r.getrandbits(30)}; budget = 400; printf("run %d\\n", {k}); L("r", {s.call(r, nf - 1 - k % min(nf, 2))});')
        s.text = PRE + '\n'.join(out) + '\nint main(void) {\n' + '\n'.join(m) + '\nreturn 0; }\n'

    def call(s, r, j=None):
        if j is None: j = r.randrange(s.nf_done)
        t = s.rets[j]
        a = r.randrange(50)
        c = f'F{j}({a})'
        if t == 'void': return f'({c}, 1)'
        if t in ('int', 'char'): return c
        if t in ('double', 'long double'): return f'(int){c}'
        return {'struct S1': f'{c}.c', 'struct S2': f'v2({c})', 'struct S3': f'v3({c})', 'struct S4': f'v4({c})'}[t]


def check(ctx):
    ctx.rule = ('random functions mixing cleanup-attribute declarations, defer statements (also nested, in loops, in statement expressions) and every way of leaving a scope; the event log of slimcc\'s program is compared with the log of a GCC program in which '
                'defer is spelled as a cleanup calling a nested function (cleanup-only programs: also clang); events: log lines; non-trivial: distinct logs')
    slim = ctx.build('plain')
    D1 = Diff(ctx, slim, common=('-w', '-DSLIM'), san=True)
    D2 = Diff(ctx, slim, common=('-w', '-DSLIM'), san=False, clang=False)

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        defer = idx % 3 != 0
        p = Prog(r, defer)
        v = [[], ['-O0']] if idx % 2 else [['-O1', '-fPIC'], ['-fstack-reuse=none']]
        if defer: v = [v[0], v[1] + ['-fdefer-ts', '-DKW']]
        (D2 if defer else D1).go(res, f'd{idx}', {'t.c': p.text}, v)
        if idx == 1: res.sample = {'function': p.text[-1500:]}
        res.count('defer-programs' if defer else 'cleanup-programs')
        return res
    ctx.pmap(one, range(ctx.n(500, 8000)))


if __name__ == '__main__':
    main('C09', check, min_events=10000, min_distinct=100)
