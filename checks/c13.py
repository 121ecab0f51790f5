"""C13: thread-local objects.  Threads inside real programs (modules by slimcc and gcc in one image) report address, initial value and
content of every thread-local object through every module that can see it; the monitor checks privacy, initial values, alignment, agreement
between modules and non-overlap, and expression results over thread-local operands against a gcc-built twin of the same module."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *

SC = [('char', 1), ('signed char', 1), ('unsigned char', 1), ('short', 2), ('unsigned short', 2), ('int', 4), ('unsigned', 4), ('long', 8), ('unsigned long', 8), ('_Bool', 1), ('float', 4), ('double', 8), ('long double', 16), ('int *', 8), ('const char *', 8), ('fnp', 8)]
PRE = 'typedef int (*fnp)(int);\n'


def lit(r, t, m):
    if t == '_Bool': return str(r.randint(0, 1))
    if t in ('float', 'double', 'long double'): return r.choice(('1.5', '-2.25', '1e10', '0.0', '3', '-7'))
    if t == 'int *': return r.choice((f'&{m}ga[{r.randint(0, 9)}]', f'{m}ga', '0', f'{m}ga + {r.randint(1, 9)}'))
    if t == 'const char *': return r.choice((f'{m}gs + {r.randint(0, 5)}', f'&{m}gs[2]', '0'))
    if t == 'fnp': return r.choice((f'{m}f0', f'&{m}f1', '0'))
    lim = {'char': 127, 'signed char': 127, 'unsigned char': 255, 'short': 32767, 'unsigned short': 65535, 'int': 2**31 - 1, 'unsigned': 2**32 - 1}.get(t, 2**62)
    v = r.choice((0, 1, lim, r.randint(0, lim)))
    if 'unsigned' not in t and r.random() < .4: v = -v
    return f'{v}{"L" if "long" in t else "u" if t == "unsigned" else ""}'


class Var:
    def __init__(s, r, i, link, mod, m):
        s.i, s.link, s.mod = i, link, mod
        s.name = f'v{i}'
        s.leaves = []
        s.sdef = ''
        k = r.random()
        s.align = r.choice((0, 0, 0, 0, 16, 32, 64, 128))
        init = r.choice(('none', 'full', 'full', 'part'))
        z = init == 'none'

        def leaf(path, t, bw=0):
            omit = z or init == 'part' and r.random() < .5
            l = '0' if omit else lit(r, t, m)
            if bw: l = '0' if omit else str(r.randint(0, (1 << (bw - 1)) - 1))
            s.leaves.append((path, t, bw, l))
            return None if omit else l
        if k < .45:
            t = r.choice(SC)[0]
            s.decl = f'{t} %s'
            l = leaf('', t)
            s.init = l
        elif k < .65:
            t = r.choice(SC)[0]
            n = r.choice((1, 2, 3, 7, 40, 300))
            s.decl = f'{t} %s[{n}]'
            if z: s.leaves = [(f'[{j}]', t, 0, '0') for j in sorted({0, n // 2, n - 1})]; s.init = None
            else:
                js = sorted({r.randrange(n) for _ in range(4)} | {0, n - 1})
                ini = []
                for j in js:
                    l = leaf(f'[{j}]', t)
                    if l is not None: ini.append(f'[{j}] = {l}')
                s.init = '{ ' + ', '.join(ini) + ' }' if ini else None
        else:
            ms, ini = [], []
            for q in range(r.randint(1, 5)):
                kk = r.random()
                if kk < .25:
                    bw = r.randint(2, 20); ms.append(f'{r.choice(("int", "unsigned"))} m{q}:{bw};')
                    l = leaf(f'.m{q}', 'int', bw)
                    if l is not None: ini.append(f'.m{q} = {l}')
                elif kk < .45:
                    t = r.choice(SC)[0]; ms.append(f'{t} m{q}[3];')
                    l = leaf(f'.m{q}[1]', t)
                    if l is not None: ini.append(f'.m{q}[1] = {l}')
                elif kk < .6:
                    t = r.choice(SC)[0]; ms.append(f'struct {{ char c; {t} x; }} m{q};')
                    l = leaf(f'.m{q}.x', t)
                    if l is not None: ini.append(f'.m{q}.x = {l}')
                else:
                    t = r.choice(SC)[0]; ms.append(f'{t} m{q};')
                    l = leaf(f'.m{q}', t)
                    if l is not None: ini.append(f'.m{q} = {l}')
            s.sdef = f'struct S{i} {{ {" ".join(ms)} }};'
            s.decl = f'struct S{i} %s'
            s.init = '{ ' + ', '.join(ini) + ' }' if ini else None

    def al(s): return f'_Alignas({s.align}) ' if s.align else ''

    def definition(s, r, name, pre=''):
        tl = r.choice(('_Thread_local', '__thread')) if not s.align else '_Thread_local'
        return f'{pre}{tl} {s.al()}{s.decl % name}{" = " + s.init if s.init else ""};'

    def set(s, nm): return ' '.join(f'{nm}{p} = {s.val(t, bw, j)};' for j, (p, t, bw, l) in enumerate(s.leaves))

    def get(s, nm): return ' && '.join(f'{nm}{p} == {s.val(t, bw, j)}' for j, (p, t, bw, l) in enumerate(s.leaves))

    def val(s, t, bw, j):
        if bw: return f'((k * 3 + {j + s.i}) & {(1 << (bw - 1)) - 1})'
        if t == '_Bool': return f'((k + {j}) & 1)'
        if '*' in t or t == 'fnp': return f'({t})(long)((k * 5 + {j + s.i}) * 8)'
        return f'({t})(k * 7 + {j + s.i})'

    def initok(s, nm): return ' && '.join(f'{nm}{p} == ({t}){l}' if not bw else f'{nm}{p} == {l}' for p, t, bw, l in s.leaves)


def module(r, m, vs, mods, emu):
    """source of module m: defines its variables, sees the others as extern"""
    L = [PRE]
    for q in mods: L.append(f'extern int {q}ga[10]; extern const char {q}gs[10]; int {q}f0(int), {q}f1(int);')
    L.append(f'int {m}ga[10] = {{ 1, 2, 3 }}; const char {m}gs[10] = "abcdefghi"; int {m}f0(int x) {{ return x + 1; }} int {m}f1(int x) {{ return x * 2; }}')
    body, late, seen = [], [], []
    for v in vs:
        if v.sdef: L.append(v.sdef)
    for v in vs:
        hid = ''
        if v.link in ('static', 'block') and v.mod != m: continue
        seen.append(v)
        if v.link == 'static': body.append(v.definition(r, v.name, 'static ')); continue
        if v.link == 'block':
            body.append(f'static __typeof__({v.decl % ""}) *b{v.i}(int n) {{ {v.definition(r, "z", "static ")} return &z; }}'); continue
        ext = f'extern _Thread_local {v.al() if r.random() < 0 else ""}{v.decl % v.name};'
        if v.mod == m:
            w = '__attribute__((weak)) ' if v.link in ('weak', 'weakloses') else ''
            hid = ''
            d = w + v.definition(r, v.name)
            o = r.random()
            if o < .3: body.append(ext); late.append(d)
            elif o < .5: body.append(d); late.append(ext)
            elif o < .6 and not v.init and not v.align: body += [d, d]
            else: body.append(d)
        else:
            if v.link == 'weakloses' and m == v.mod2:
                pass
            body.append(ext)
    L += body

    def nm(v): return f'(*b{v.i}(k))' if v.link == 'block' else v.name
    A, I, S, G = [], [], [], []
    for v in seen:
        n = nm(v)
        loc = f'extern _Thread_local {v.decl % v.name}; ' if v.link == 'extern' and r.random() < .2 else ''
        A.append(f'case {v.i}: {{ {loc}return (void *)&{n}; }}')
        I.append(f'case {v.i}: return {v.initok(n)};')
        S.append(f'case {v.i}: {loc and ""}{v.set(n)} break;')
        G.append(f'case {v.i}: return {v.get(n)};')
    fn = [f'static void *adr(int i) {{ int k = 0; switch (i) {{ {" ".join(A)} }} return 0; }}', f'static int ini(int i) {{ int k = 0; switch (i) {{ {" ".join(I)} }} return -1; }}',
          f'static void set(int i, int k) {{ switch (i) {{ {" ".join(S)} }} }}', f'static int get(int i, int k) {{ switch (i) {{ {" ".join(G)} }} return -1; }}']
    r.shuffle(fn)
    L += fn
    L.append(f'struct mod {{ void *(*adr)(int); int (*ini)(int); void (*set)(int, int); int (*get)(int, int); }} {m}mod = {{ adr, ini, set, get }};')
    return '\n'.join(L + late) + '\n'


def twin(r):
    """expressions over thread-local operands; compiled twice (slimcc, gcc) under different prefixes"""
    L = ['#define Q_(a, b) a##b\n#define Q(a, b) Q_(a, b)\n#define N(x) Q(PFX, x)\n#include <stdarg.h>\n']
    iv = []
    for i in range(10):
        t = r.choice([x[0] for x in SC[:9]])
        iv.append((f'i{i}', t))
        L.append(f'{r.choice(("static ", "", "extern "))}_Thread_local {t} N(i{i});'.replace('extern ', 'extern ', 1))
        if 'extern' in L[-1]: L.append(f'_Thread_local {t} N(i{i}) = {r.randint(0, 99)};')
    L.append('struct B { int f:7; unsigned g:11; char c; long l; double d; int a[4]; }; static _Thread_local struct B N(s) = { 3, 5, 7, 9, 1.5, { 1, 2, 3, 4 } }; _Thread_local struct B N(s2); static _Thread_local int N(arr)[8] = { 1, 2, 3 }; static _Thread_local double N(d0) = 2.5; _Thread_local float N(e0) = 1.25; static _Thread_local long double N(ld) = 3.5L; static _Thread_local struct B *N(ps);')
    L.append('static unsigned long N(many)(int a, long b, double c, unsigned char d, int e, long f, float g, int h, long i, double j, struct B s, int l, long double m) { return a + b * 3 + (long)c * 5 + d * 7 + e * 11 + f * 13 + (long)g * 17 + h * 19 + i * 23 + (long)j * 29 + s.f * 31 + s.g * 37 + s.a[2] + l * 41 + (long)m * 43; }')
    L.append('static unsigned long N(va)(int n, ...) { va_list ap; va_start(ap, n); unsigned long x = 0; for (int i = 0; i < n; i++) x = x * 3 + va_arg(ap, int); va_end(ap); return x; }')
    L.append('static struct B N(rets)(int x) { struct B b = N(s); b.a[1] += x; return b; }')

    def ref(n): return f'N({n})'

    def e(dep):
        k = r.random()
        if dep <= 0 or k < .1:
            return r.choice([ref(x) for x, _ in iv] + [f'N(s).f', f'N(s).g', 'N(s).c', 'N(s).l', f'N(arr)[{r.randint(0, 7)}]', f'N(arr)[{ref(r.choice(iv)[0])} & 7]', 'N(ps)->l', 'N(ps)->a[x & 3]', 'x', 'y', f'{r.randint(-9, 99)}', '(long)(N(d0))', '(int)N(ld)'])
        a, b = e(dep - 1), e(dep - 1)
        if k < .55: return f'({a} {r.choice(("+", "-", "*", "&", "|", "^", "<", "==", ">=", "&&", "||"))} {b})'
        if k < .62: return f'({a} ? {b} : {e(dep - 1)})'
        if k < .68: return f'({a} / ((({b}) & 15) + 3))'
        if k < .74: return f'N(va)(5, (int){a}, (int){b}, (int){ref(iv[0][0])}, (int)N(arr)[1], 4)'
        if k < .8: return f'N(many)({a}, {b}, N(d0), {ref(iv[1][0])}, 1, N(s).l, N(e0), x, {e(dep - 1)}, N(d0), N(s), (int)N(arr)[2], N(ld))'
        if k < .84: return f'N(rets)((int){a}).a[1]'
        if k < .88: return f'(*(&N(arr)[0] + (({a}) & 7)))'
        if k < .92: return f'(int)(N(d0) * 2 + N(e0) + N(ld))'
        if k < .96: return f'({{ long q = {a}; q ^ {b}; }})'
        return f'(unsigned char)({a})'
    ops = []
    for _ in range(22):
        k = r.random()
        n = ref(r.choice(iv)[0])
        if k < .35: ops.append(f'{n} {r.choice(("=", "+=", "-=", "^=", "|="))} {e(3)};')
        elif k < .42: ops.append(f'{r.choice(("++", "--"))}{n};')
        elif k < .48: ops.append(f'h = h * 31 + {n}{r.choice(("++", "--"))};')
        elif k < .56: ops.append(f'N(s).{r.choice(("f", "g", "c", "l"))} {r.choice(("=", "+=", "^="))} {e(2)};'.replace('N(s).f = ', 'N(s).f = 63 & ').replace('N(s).f += ', 'N(s).f ^= 31 & ').replace('N(s).f ^= (', 'N(s).f ^= 31 & ('))
        elif k < .62: ops.append(r.choice(('N(s2) = N(s); h += N(s2).l;', 'N(s) = N(rets)(x);', 'N(ps) = x & 1 ? &N(s) : &N(s2);', 'N(s2).a[x & 3] = N(arr)[y & 7];')))
        elif k < .7: ops.append(f'N(arr)[{e(1)} & 7] {r.choice(("=", "+=", "^="))} {e(2)};')
        elif k < .75: ops.append(f'N(d0) = (short)({e(1)}) / 4.0; N(e0) = (signed char)({e(1)}); N(ld) = N(d0) + (short)x;')
        elif k < .8: ops.append(f'for (int j = 0; j < 3; j++) {{ int z[j + 1]; z[j] = {ref(iv[2][0])} & 255; h += z[j] + {e(1)}; }}')
        elif k < .85: ops.append(f'switch ({e(1)} & 3) {{ case 0: {n}++; break; case 1: h ^= {e(1)}; case 2: h += 3; break; default: N(arr)[0]++; }}')
        elif k < .9: ops.append(f'if ({e(2)}) {n} = x; else h += {e(1)};')
        else: ops.append(f'h = h * 31 + (unsigned long)({e(4)});')
    L.append('unsigned long N(ops)(int x, int y) { unsigned long h = 1; if (!N(ps)) N(ps) = &N(s);\n' + '\n'.join(ops) + '\nfor (int j = 0; j < 8; j++) h = h * 131 + N(arr)[j]; h = h * 31 + N(s).l + N(s).f + N(s).g; return h; }')
    return '\n'.join(L) + '\n'


HAR = r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <dlfcn.h>
struct mod { void *(*adr)(int); int (*ini)(int); void (*set)(int, int); int (*get)(int, int); };
#ifdef DL
static struct mod *mods[NM]; static unsigned long (*s_ops)(int, int), (*g_ops)(int, int);
#else
DECLS
unsigned long s_ops(int, int), g_ops(int, int);
static struct mod *mods[] = { MODS };
#endif
static struct { int sz, al; } V[] = { VARS };
#define NV ((int)(sizeof V / sizeof *V))
#define NT 5
static void *ad[NT][NV]; static pthread_barrier_t bar; static long bad, ev; static int wave;
#define BAD(...) do { if (__atomic_fetch_add(&bad, 1, __ATOMIC_SEQ_CST) < 4) { printf("BAD "); printf(__VA_ARGS__); printf("\n"); } } while (0)
static void *thr(void *p) {
  long t = (long)p; int k; long n = 0;
  for (int r = 0; r < 2; r++) { unsigned long a = s_ops(t + r, 3 * r), b = g_ops(t + r, 3 * r); n++; if (a != b) BAD("wave %d thread %ld: expression results over thread-local operands differ: slimcc %lx gcc %lx", wave, t, a, b); }
  for (int m = 0; m < NM; m++) for (int i = 0; i < NV; i++) { k = mods[(m + t) % NM]->ini(i); n++; if (!k) BAD("wave %d thread %ld variable v%d read in module %ld: initial value wrong", wave, t, i, (m + t) % NM); }
  for (int i = 0; i < NV; i++) for (int m = 0; m < NM; m++) { void *a = mods[m]->adr(i); if (!a) continue; n++; if (!ad[t][i]) ad[t][i] = a; else if (ad[t][i] != a) BAD("thread %ld: v%d has address %p in module %d, %p elsewhere", t, i, a, m, ad[t][i]); if ((unsigned long)a % V[i].al) BAD("thread %ld: v%d at %p not aligned to %d", t, i, a, V[i].al); }
  pthread_barrier_wait(&bar);
  for (int r = 0; r < 3; r++) {
    for (int i = 0; i < NV; i++) { int m = (i + r) % NM; while (!mods[m]->adr(i)) m = (m + 1) % NM; mods[m]->set(i, t * 13 + r); }
    pthread_barrier_wait(&bar);
    for (int m = 0; m < NM; m++) for (int i = 0; i < NV; i++) { k = mods[m]->get(i, t * 13 + r); n++; if (!k) BAD("wave %d thread %ld round %d: v%d seen in module %d lost the value this thread stored", wave, t, r, i, m); }
    for (int i = 0; i < NV; i++) for (int m = 0; m < NM; m++) { void *a = mods[m]->adr(i); if (a && a != ad[t][i]) BAD("thread %ld: v%d moved", t, i); }
    pthread_barrier_wait(&bar);
  }
  for (int r = 0; r < 6; r++) { unsigned long a = s_ops(t + r, 5 * r), b = g_ops(t + r, 5 * r); n++; if (a != b) BAD("wave %d thread %ld step %d: expression results over thread-local operands differ: slimcc %lx gcc %lx", wave, t, r, a, b); }
  __atomic_fetch_add(&ev, n, __ATOMIC_SEQ_CST);
  return 0;
}
int main(void) {
  setvbuf(stdout, 0, _IOLBF, 0);
  pthread_barrier_init(&bar, 0, NT);
  static pthread_t th[NT]; 
#ifdef DL
  void *h = dlopen("./lib.so", RTLD_NOW); if (!h) { printf("dlopen: %s\n", dlerror()); return 3; }
  static char *nm[] = { NAMES }; for (int i = 0; i < NM; i++) mods[i] = dlsym(h, nm[i]); s_ops = (void *)dlsym(h, "s_ops"); g_ops = (void *)dlsym(h, "g_ops");
#endif
  for (wave = 0; wave < 3; wave++) {
    memset(ad, 0, sizeof ad);
    if (wave == 2) { for (long t = 1; t < NT; t++) pthread_create(&th[t], 0, thr, (void *)t); thr((void *)0); for (int t = 1; t < NT; t++) pthread_join(th[t], 0); }
    else { for (long t = 0; t < NT; t++) pthread_create(&th[t], 0, thr, (void *)t); for (int t = 0; t < NT; t++) pthread_join(th[t], 0); }
    for (int t = 0; t < NT; t++) for (int i = 0; i < NV; i++) for (int t2 = 0; t2 < NT; t2++) for (int j = 0; j < NV; j++) if (t != t2 || i != j) { char *a = ad[t][i], *b = ad[t2][j]; if (a < b + V[j].sz && b < a + V[i].sz) BAD("thread %d v%d and thread %d v%d overlap", t, i, t2, j); }
  }
  printf("ev %ld bad %ld\n", ev, bad); return bad != 0;
}
'''
MODES = ('pie', 'nopie', 'picexe', 'static', 'shared', 'dlopen', 'emu', 'shared-slimld', 'static-pie-objs')


def check(ctx):
    ctx.rule = ('programs of 3 modules (slimcc and gcc mixed) plus an expression twin, 12-20 thread-local objects of all linkages, types, alignments and initialisers, 3 waves of 5 threads, link modes ' + ', '.join(MODES) + '; non-trivial: distinct module sources')
    slim = ctx.build('plain')

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        w = os.path.join(ctx.work, f'w{os.getpid()}')
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        mode = MODES[idx % len(MODES)]
        emu = mode == 'emu'
        mods = ['A', 'B', 'C']
        cc = {'A': 'slim', 'B': 'gcc', 'C': r.choice(('slim', 'gcc', 'slim'))}
        vs = []
        for i in range(r.randint(12, 20)):
            m = r.choice(mods)
            vs.append(Var(r, i, r.choice(('extern', 'extern', 'extern', 'static', 'block') + (() if emu else ('weak',))), m, m))
        files = {f'{m}.c': module(r, m, vs, mods, emu) for m in mods}
        files['t.c'] = twin(r)
        files['h.c'] = HAR
        # a weak definition that a strong one in another module overrides
        if not emu and mode not in ('shared', 'shared-slimld'):
            files['A.c'] += '__attribute__((weak)) _Thread_local int wk0 = 11; _Thread_local int wk1 = 12; int *Aw0(void) { return &wk0; } int *Aw1(void) { return &wk1; }\n'
            files['B.c'] += '_Thread_local int wk0 = 21; __attribute__((weak)) _Thread_local int wk1 = 22; int *Bw0(void) { return &wk0; } int *Bw1(void) { return &wk1; }\n'
            files['h.c'] = files['h.c'].replace('  printf("ev', '#ifndef DL\n  int *Aw0(void), *Aw1(void), *Bw0(void), *Bw1(void); if (Aw0() != Bw0() || Aw1() != Bw1() || *Aw0() != 21 || *Bw1() != 12) BAD("weak/strong thread-local definitions not merged: %d %d", *Aw0(), *Bw1());\n#endif\n  printf("ev')
        for f, t in files.items(): open(os.path.join(w, f), 'w').write(t)
        pic = {'pie': ['-fPIE'], 'nopie': ['-fno-pie'], 'picexe': ['-fPIC'], 'static': ['-fno-pie'], 'shared': ['-fPIC'], 'dlopen': ['-fPIC'], 'emu': [r.choice(('-fPIE', '-fPIC'))], 'shared-slimld': ['-fPIC'], 'static-pie-objs': []}[mode]
        opt = r.choice(([], ['-O0'], ['-O1']))
        if emu: pic = pic + ['-femulated-tls']
        inlib = ['A', 'ts'] + (['B'] if r.random() < .5 else [])
        exepic = r.choice((['-fPIC'], ['-fPIE'], [], ['-fno-pie']))
        objs = {}
        cmds = []
        gcc = 'clang' if emu else 'gcc'
        for m in mods + ['ts', 'tg']:
            by = cc.get(m, 'slim' if m == 'ts' else 'gcc')
            src = f'{m}.c' if m in mods else 't.c'
            pf = [] if m in mods else ['-DPFX=' + ('s_' if m == 'ts' else 'g_')]
            cmd = [slim if by == 'slim' else gcc, *(exepic if mode.startswith('shared') and m not in inlib else pic), *opt, *pf, '-w', *([] if by == 'slim' else ['-fno-strict-aliasing', '-fwrapv', '-ffp-contract=off']), '-c', '-o', f'{m}.o', src]
            x = run(cmd, cwd=w, timeout=60)
            cmds.append(' '.join(cmd).replace(slim, 'slimcc'))
            if x.rc:
                if by == 'gcc': res.genfail += 1; res.genfail_msgs.append(x.err[:500]); return res
                y = run([gcc, *pic, *pf, '-w', '-c', '-o', 'x.o', src], cwd=w)
                if y.rc: res.genfail += 1; res.genfail_msgs.append(y.err[:500]); return res
                res.evals += 1
                res.violation(f'reject:{h(files[src])}', f'slimcc fails on a module with thread-local objects (rc={x.rc}): {x.err[:400]}', {src: files[src]}, cmds[-1])
                return res
        hm = ['gcc', '-w', '-O1', f'-DNM={len(mods)}', '-DDECLS=' + ' '.join(f'extern struct mod {m}mod;' for m in mods), '-DMODS=' + ', '.join(f'&{m}mod' for m in mods), '-DNAMES=' + ', '.join(f'"{m}mod"' for m in mods)]
        # sizes and alignments from gcc (layout itself is C05)
        ty = PRE + '\n'.join(v.sdef for v in vs) + '\n' + '\n'.join(f'__typeof__({v.decl % ""}) q{v.i}; int z{v.i} = sizeof q{v.i};' for v in vs)
        hm.append('-DVARS=' + ', '.join(f'{{ sizeof(__typeof__({v.decl % ""})), {max(v.align, 1)} > _Alignof(__typeof__({v.decl % ""})) ? {max(v.align, 1)} : _Alignof(__typeof__({v.decl % ""})) }}' for v in vs))
        open(os.path.join(w, 'ty.h'), 'w').write(PRE + '\n'.join(v.sdef for v in vs))
        hm += ['-include', 'ty.h']
        O = [f'{m}.o' for m in mods + ['ts', 'tg']]
        ld = []
        slimld = r.random() < .5
        if mode == 'nopie': hm.append('-fno-pie')
        if mode == 'dlopen':
            hm.append('-DDL')
            ld.append([slim if slimld else 'gcc', '-shared', '-fPIC', '-o', 'lib.so', *O])
            ld.append(['gcc', '-o', 'p', 'h.o', '-ldl', '-pthread'])
        elif mode.startswith('shared'):
            inlib = [f'{m}.o' for m in inlib]
            if exepic == ['-fno-pie']: hm.append('-fno-pie')
            ld.append([slim if mode == 'shared-slimld' else 'gcc', '-shared', '-o', 'lib.so', *inlib])
            ld.append([slim if mode == 'shared-slimld' else 'gcc', *(['-no-pie'] if exepic == ['-fno-pie'] else []), '-rdynamic', '-o', 'p', 'h.o', *[o for o in O if o not in inlib], './lib.so', '-pthread'])
        else:
            ld.append([slim if slimld else 'gcc', *{'nopie': ['-no-pie'], 'static': ['-static']}.get(mode, ['-pie'] if not slimld else []), '-o', 'p', 'h.o', *O, '-pthread'])
        ld.insert(0, [*hm, '-c', '-o', 'h.o', 'h.c'])
        res.evals += 1
        res.distinct.add(h(files['A.c'] + files['t.c']))
        for c in ld:
            x = run(c, cwd=w, timeout=60)
            cmds.append(' '.join(c).replace(slim, 'slimcc'))
            if x.rc:
                if 'h.c' in c: raise HarnessError(x.err[:1500])
                # reference: everything by gcc links?
                for m in mods + ['ts']:
                    run([gcc, *pic, *([] if m != 'ts' else ['-DPFX=s_']), '-w', '-c', '-o', f'{m}.o', f'{m}.c' if m in mods else 't.c'], cwd=w)
                y = [run([a.replace(slim, 'gcc') for a in cc_], cwd=w).rc for cc_ in ld]
                if any(y): res.genfail += 1; res.genfail_msgs.append(f'{mode} gcc link fails {x.err[:300]}'); return res
                res.violation(f'link:{h(files["A.c"] + mode)}', f'mode {mode}: link fails with slimcc objects: {x.err[:400]}', files, '; '.join(cmds))
                return res
        k = run(['./p'], cwd=w, timeout=60)
        res.count(mode)
        m = re.search(r'ev (\d+) bad', k.out)
        if m: res.events += int(m.group(1))
        if k.rc or k.to:
            # the same harness with every module built by gcc must be clean
            for m in mods + ['ts']:
                run([gcc, *pic, *([] if m != 'ts' else ['-DPFX=s_']), '-w', '-fno-strict-aliasing', '-fwrapv', '-ffp-contract=off', '-c', '-o', f'{m}.o', f'{m}.c' if m in mods else 't.c'], cwd=w)
            for c in ld: run([a.replace(slim, 'gcc') for a in c], cwd=w)
            k2 = run(['./p'], cwd=w, timeout=60)
            if k2.rc or k2.to: res.inconclusive += 1; res.genfail_msgs.append(f'{mode}: gcc-only run fails too: {k2.out[:300]}'); return res
            bad = [x for x in k.out.split('\n') if x.startswith('BAD')]
            res.violation(f'tls:{mode}:{h(files["A.c"] + files["t.c"])}', f'mode {mode} modules {cc}: ' + (bad[0] if bad else f'program died rc={k.rc} to={k.to} {k.out[-200:]}'), files, '; '.join(cmds) + '; ./p')
        if idx == 0: res.sample = {'mode': mode, 'modules': cc, 'log': k.out[-200:], 'decls': [v.definition(r, v.name) for v in vs][:5]}
        return res
    ctx.pmap(one, range(ctx.n(450, 3000)))


if __name__ == '__main__':
    main('C13', check, min_events=5000, min_distinct=20)
