"""C18: assignments, updates, copies and pointer arithmetic (byte-change logs of every object, side-effect counters, values; reference compilers)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.diff import Diff

PRE = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <sys/mman.h>
enum E { E0, E1, E2, E9 = 9 };
static struct { unsigned char *p; int n, ld; const char *nm; int so; } RG[96];
static int nrg, nso; static unsigned char SH[1 << 17];
static unsigned char cn[64], calls; static int stop;
static void reg(const char *nm, void *p, long n, int ld) { RG[nrg].p = p; RG[nrg].n = n; RG[nrg].ld = ld; RG[nrg].nm = nm; RG[nrg].so = nso; memcpy(SH + nso, p, n); nso += n; nrg++; }
static void rst(void) { nrg = nso = 0; memset(cn, 0, 64); calls = 0; reg("cn", cn, 64, 0); reg("calls", &calls, 1, 0); }
static void ch(int id) {
  int any = 0;
  for (int i = 0; i < nrg; i++) for (int j = 0; j < RG[i].n; j++) {
    if (RG[i].ld && j % 16 >= 10) continue;
    if (RG[i].p[j] != SH[RG[i].so + j]) { if (!any++) printf("c%d", id); printf(" %s+%d=%02x", RG[i].nm, j, RG[i].p[j]); SH[RG[i].so + j] = RG[i].p[j]; }
  }
  if (any) printf("\n");
}
static void vI(int id, long long v) { printf("v%d %lld\n", id, v); ch(id); }
static void vF(int id, double v) { printf("v%d %a\n", id, v); ch(id); }
static void vL(int id, long double v) { printf("v%d %La\n", id, v); ch(id); }
static void vB(int id, const void *p, int n) { unsigned long h = 5381; for (int i = 0; i < n; i++) h = h * 33 + ((unsigned char *)p)[i]; printf("v%d h%lx\n", id, h); ch(id); }
static int kf(int v) { calls++; return v; }
static double cl(double x) { return x < 0 ? 0 : x > 60 ? 60 : x; }
static unsigned char *pend, *pbeg;
static void pages(void) {
  pend = mmap(0, 4096 * 3, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(pend + 4096, 4096, PROT_READ | PROT_WRITE); pbeg = pend + 4096; pend += 8192;
}
static void fill(void *p, int n, int s) { for (int i = 0; i < n; i++) ((unsigned char *)p)[i] = s + i * 7 + i / 5; }
'''

TY = {'b': ('_Bool', 1, 0), 'c': ('char', 8, 1), 'sc': ('signed char', 8, 1), 'uc': ('unsigned char', 8, 0), 's': ('short', 16, 1), 'us': ('unsigned short', 16, 0),
      'i': ('int', 32, 1), 'u': ('unsigned', 32, 0), 'l': ('long', 64, 1), 'ul': ('unsigned long', 64, 0), 'll': ('long long', 64, 1), 'e': ('enum E', 32, 0),
      'f': ('float', 0, 0), 'd': ('double', 0, 0), 'ld': ('long double', 0, 0)}
FL = ('f', 'd', 'ld')


class F:
    """One function: a set of objects of several types, then statements updating them."""
    def __init__(s, r, k):
        s.r, s.k = r, k
        s.id = k * 1000
        s.ts = r.sample(list(TY), 4)
        if r.random() < .5: s.ts[0] = r.choice(('b', 'uc', 'sc', 's'))
        if r.random() < .5 and not set(FL) & set(s.ts): s.ts[1] = r.choice(FL)
        s.ts = list(dict.fromkeys(s.ts))
        s.nc = 0
        s.busy = set()
        s.nbf = 0
        s.gl, s.lo, s.ini, s.body = [], [], [], []
        s.bfs = {}
        s.setup()

    def cnt(s):
        return 'cn[@]'

    def setup(s):
        r, k = s.r, s.k
        s.regs = {}
        for t in s.ts:
            T = TY[t][0]
            q = r.choice(('', '', '', 'volatile '))
            s.gl.append(f'static {T} g{k}_{t}[6]; struct S{k}_{t} {{ {T} a; {T} b[3]; }}; static struct S{k}_{t} gs{k}_{t}, hs{k}_{t}; static {T} h{k}_{t}[9]; static {T} *n{k}_{t};\n'
                        f'static {T} *next{k}_{t}(int i) {{ calls++; return n{k}_{t} + i; }}\nstatic struct S{k}_{t} *nexts{k}_{t}(void) {{ calls++; return &hs{k}_{t}; }}')
            s.lo.append(f'{q}{T} l_{t}[6]; struct S{k}_{t} ls_{t}, *ps_{t} = &gs{k}_{t}; {T} *p_{t} = h{k}_{t} + 4, **pp_{t} = &p_{t}; {T} v_{t}[n3 * 2], m_{t}[n3][n3 + i1]; {T} (*mp_{t})[n3 + 1] = m_{t}; {T} x_{t} = {r.randrange(2, 9)}, y_{t} = {r.randrange(2, 9)};'
                        + r.choice(('', f' static {T} z_{t}[2];')) )
            n = 1
            for nm, a, c in (('g', f'g{k}_{t}', 6), ('h', f'h{k}_{t}', 9), ('l', f'l_{t}', 6), ('v', f'v_{t}', 6)):
                s.ini.append(f'for (int i = 0; i < {c}; i++) {a}[i] = ({T}){r.choice(("i + 3", "i * 2", "7 - i" if TY[t][2] else "19 - i", "i * i"))}; reg("{nm}_{t}", (void *){a}, sizeof {a}, {int(t == "ld")});')
            s.ini.append(f'for (int i = 0; i < 12; i++) m_{t}[i / 4][i % 4] = ({T})(i + 1); reg("m_{t}", m_{t}, sizeof m_{t}, {int(t == "ld")});')
            for nm, a in (('gs', f'gs{k}_{t}'), ('hs', f'hs{k}_{t}'), ('ls', f'ls_{t}')):
                s.ini.append(f'{a}.a = 1; {a}.b[0] = 4; {a}.b[1] = 5; {a}.b[2] = 6; reg("{nm}_{t}", &{a}, sizeof {a}, {int(t == "ld")});')
            s.ini.append(f'n{k}_{t} = {r.choice((f"h{k}_{t}", f"g{k}_{t}"))} + 1;')
        # bit-field structs without padding bits
        s.bfd = []
        for j in range(2):
            fs, left, i = [], 64, 0
            unit = r.choice((('int', 32), ('long', 64), ('short', 16), ('char', 8)))
            u, ub = unit
            left = 64
            inunit = ub
            while left:
                if inunit == 0: inunit = ub
                w = min(r.choice((1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 31, 32, 33, 48, 64)), inunit)
                if r.random() < .3: w = inunit
                sg = r.random() < .5
                T = ('signed ' if sg else 'unsigned ') + u
                if w == 1 and r.random() < .5 and ub == 8: T, sg = '_Bool', False
                full = w == ub and r.random() < .5
                fs.append((f'f{i}', T, w, sg))
                i += 1
                inunit -= w; left -= w
            s.bfd.append(fs)
            s.gl.append(f'struct B{k}_{j} {{ {" ".join(f"{T} {n} : {w};" for n, T, w, sg in fs)} }}; static struct B{k}_{j} gb{k}_{j}[3]; static struct B{k}_{j} *nextb{k}_{j}(int i) {{ calls++; return gb{k}_{j} + i; }}')
            s.lo.append(f'struct B{k}_{j} lb_{j}, *pb_{j} = gb{k}_{j} + 1, vb_{j}[n3];')
            for nm, a in (('gb', f'gb{k}_{j}'), ('lb', f'lb_{j}'), ('vb', f'vb_{j}')):
                s.ini.append(f'fill(&{a}, sizeof {a}, {r.randrange(256)}); reg("{nm}_{j}", &{a}, sizeof {a}, 0);')
        # aggregates without padding, of many sizes
        s.sz = []
        for j in range(3):
            n = r.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 31, 32, 33, 40, 47, 48, 63, 64, 65, 80, 100, 127, 128, 129, 144, 200, 255, 256, 257, 300)) if r.random() < .8 else r.randrange(1, 400)
            form = r.choice(('b', 'b', 'h', 'w', 'q', 'n', 'u', 'a'))
            el = {'b': ('unsigned char', 1), 'h': ('short', 2), 'w': ('int', 4), 'q': ('long', 8), 'n': ('unsigned char', 1), 'u': ('unsigned char', 1), 'a': ('int', 4)}[form]
            cntn = max(1, n // el[1])
            n = cntn * el[1]
            if form == 'n' and n >= 3:
                d = f'struct Z{k}_{j} {{ unsigned char h; struct {{ unsigned char b[{n - 2}]; }} m; unsigned char t; }};'
                mem = 'm.b[0]'
            elif form == 'u':
                d = f'struct Z{k}_{j} {{ union {{ unsigned char b[{n}]; signed char c; }}; }};'; mem = f'b[{n - 1}]'
            elif form == 'a':
                al = r.choice((8, 16, 32)); n = (n + al - 1) // al * al
                d = f'struct Z{k}_{j} {{ _Alignas({al}) int b[{n // 4}]; }};'; mem = f'b[{r.randrange(n // 4)}]'
            else:
                d = f'struct Z{k}_{j} {{ {el[0]} b[{cntn}]; }};'; mem = f'b[{r.randrange(cntn)}]'
            s.sz.append((n, mem, form))
            Z = f'struct Z{k}_{j}'
            wr = f'struct W{k}_{j} {{ {Z} a, z, b; }};'
            s.gl.append(f'{d} {wr} static {Z} gz{k}_{j}[3]; static struct W{k}_{j} gw{k}_{j}; static {Z} mk{k}_{j}(int v) {{ {Z} z; calls++; fill(&z, sizeof z, v); return z; }} static {Z} *nz{k}_{j}(int i) {{ calls++; return gz{k}_{j} + i; }}\n'
                        f'static {Z} id{k}_{j}({Z} a) {{ return a; }} static int by{k}_{j}({Z} a, int i) {{ return ((unsigned char *)&a)[i]; }}')
            s.lo.append(f'{Z} lz_{j}, kz_{j}, *ez_{j} = ({Z} *)pend - 1, *bz_{j} = ({Z} *)pbeg; struct W{k}_{j} lw_{j}; {Z} vz_{j}[n3];')
            for nm, a in (('gz', f'gz{k}_{j}'), ('gw', f'gw{k}_{j}'), ('lz', f'lz_{j}'), ('kz', f'kz_{j}'), ('lw', f'lw_{j}'), ('vz', f'vz_{j}')):
                s.ini.append(f'fill(&{a}, sizeof {a}, {r.randrange(256)}); reg("{nm}_{j}", &{a}, sizeof {a}, 0);')

    # ---- pieces ----
    def idx(s, hi):
        """an index in 0..hi (hi 1..5), with odd types and side effects"""
        r = s.r
        o = ['0', '1', 'i1', 'k1', 't1', f'({s.cnt()}++ & 1)', f'(++{s.cnt()} & 1)', 'kf(1)', 'n1 + 1', 'i1 - k1', 'c1', 'e1', '(unsigned char)257', '~0u + 1u', 'l3 - i2', '(s1 == 1)', "'\\1'", 'w1[0]']
        if hi >= 2: o += ['2', 'i2', 'i1 + k1', 'l3 - 1', 'e1 + 1', 'kf(2)', '(i2 ? 2 : 1)', f'({s.cnt()}++ & 2)', 'i2 & 3u']
        if hi >= 3: o += ['3', 'l3', 'kf(i1 + 2)', 'i2 + c1', 'l3 * t1']
        x = r.choice(o)
        return f'({x})' if ' ' in x and x[0] != '(' else x

    def lval(s, t, write=False, pure=False):
        """lvalue of type t; (text, region)"""
        r, k = s.r, s.k
        ix = (lambda h: str(r.randrange(h + 1))) if pure else s.idx
        forms = [
            (f'g{k}_{t}[{ix(3)}]', 'g'), (f'g{k}_{t}[{ix(3)}]', 'g'), (f'l_{t}[{ix(3)}]', 'l'), (f'l_{t}[{ix(3)}]', 'l'), (f'gs{k}_{t}.a', 'gs'), (f'gs{k}_{t}.b[{ix(2)}]', 'gs'), (f'ps_{t}->b[{ix(2)}]', 'gs'), (f'ps_{t}->a', 'gs'),
            (f'ls_{t}.a', 'ls'), (f'ls_{t}.b[{ix(2)}]', 'ls'), (f'(&ls_{t})->b[{ix(2)}]', 'ls'),
            (f'*p_{t}', 'p'), (f'p_{t}[{ix(3)}]', 'p'), (f'*(p_{t} + {ix(3)})', 'p'), (f'p_{t}[n1]', 'p'), (f'*(p_{t} - k1)', 'p'), (f'(n1 + p_{t})[0]', 'p'), (f'({ix(2)})[p_{t}]', 'p'),
            (f'**pp_{t}', 'p'), (f'(*pp_{t})[{ix(2)}]', 'p'), (f'v_{t}[{ix(3)}]', 'v'), (f'*(v_{t} + {ix(3)})', 'v'), (f'm_{t}[{ix(2)}][{ix(3)}]', 'm'), (f'mp_{t}[{ix(2)}][{ix(3)}]', 'm'), (f'(*(mp_{t} + {ix(2)}))[{ix(3)}]', 'm'), (f'*m_{t}[{ix(2)}]', 'm'),
            (f'x_{t}', 'x'), (f'x_{t}', 'x'), (f'y_{t}', 'y'),
            (f'*&g{k}_{t}[{ix(3)}]', 'g'), (f'*(i1 ? &ls_{t}.a : &ls_{t}.b[1])', 'ls'), (f'*(i1 == 2 ? ls_{t}.b : ls_{t}.b + 1)', 'ls'),
        ]
        if not pure:
            forms += [(f'*next{k}_{t}({ix(3)})', 'n'), (f'next{k}_{t}({ix(1)})[{ix(2)}]', 'n'), (f'nexts{k}_{t}()->a', 'hs'), (f'nexts{k}_{t}()->b[{ix(2)}]', 'hs'), (f'*(calls++, &l_{t}[{ix(3)}])', 'l'), (f'*({{ calls++; &ls_{t}.b[{ix(1)}]; }})', 'ls'),
                      (f'(({TY[t][0]}[4]){{ 1, 2, 3, 4 }})[{ix(3)}]', 'lit'), (f'(struct S{k}_{t}){{ .b = {{ 3, 2, 1 }}, .a = 9 }}.b[{ix(2)}]', 'lit2'), (f'((struct S{k}_{t} *)&(struct S{k}_{t}){{ 4, {{ 3, 2, 1 }} }})->a', 'lit2')]
        for _ in range(30):
            f, rg = r.choice(forms)
            # p, g and n may alias
            key = (t, {'p': 'gn', 'g': 'gn', 'n': 'gn'}.get(rg, rg))
            if key not in s.busy: return f, key
        return f'x_{t}', (t, 'x')

    def bf(s):
        r, k = s.r, s.k
        j = r.randrange(2)
        n, T, w, sg = r.choice(s.bfd[j])
        f, key = r.choice(((f'gb{k}_{j}[{s.idx(2)}].{n}', 'gb'), (f'pb_{j}->{n}', 'gb'), (f'lb_{j}.{n}', 'lb'), (f'lb_{j}.{n}', 'lb'), (f'vb_{j}[{s.idx(2)}].{n}', 'vb'), (f'nextb{k}_{j}({s.idx(2)})->{n}', 'gb'), (f'(*(pb_{j} + {s.idx(1)})).{n}', 'gb'), (f'(&lb_{j})->{n}', 'lb')))
        return f, (j, key), T, w, sg

    def rd(s, t=None):
        """readable rvalue of integer or floating type without hazards; may contain side effects on counters"""
        r = s.r
        if t is None: t = r.choice(s.ts)
        f, key = s.lval(t)
        return f, t

    def irhs(s, small=False):
        """integer right-hand side"""
        r = s.r
        c = r.random()
        if c < .25: return str(r.choice((0, 1, 2, 3, 5, 7, 100, 127, 128, 255, 256, 300, 1000, 65535, 65536, 70000, 2147483647, 4294967295, '-1', '-2', '-128', '-129', '-32769', '0x123456789abcdefL', '0x8000000000000000UL', '2147483648u')))
        if c < .65:
            ts = [t for t in s.ts if t not in FL]
            if ts: return s.lval(r.choice(ts))[0]
        if c < .75:
            f, key, T, w, sg = s.bf()
            if key not in s.busy: return f
        if c < .85: return f'kf({r.randrange(-300, 300)})'
        ts = [t for t in s.ts if t not in FL]
        if ts: return f'({s.lval(r.choice(ts))[0]} {r.choice(("+", "-", "^", "|", "&", "==", "<"))} {s.lval(r.choice(ts))[0]})'
        return 'i2'

    def frhs(s):
        r = s.r
        ts = [t for t in s.ts if t in FL]
        if ts and r.random() < .6: return f'{r.choice(("", "(float)", "(double)", "(long double)"))}cl({s.lval(r.choice(ts))[0]})'
        return r.choice(('1.5', '2.25f', '3.75L', '0.5', '42.0', 'cl(i2 / 4.0)', '7'))

    def rhs(s, t):
        """value convertible to type t without undefined behaviour"""
        r = s.r
        if t in FL: return r.choice((s.irhs, s.frhs))()
        if t == 'b': return r.choice((s.irhs, s.frhs))()
        return s.irhs() if r.random() < .8 else s.frhs()

    def assign(s, depth=0):
        """an assignment expression (text, value kind, key)"""
        r = s.r
        if r.random() < .3:
            f, key, T, w, sg = s.bf()
            if key in s.busy: return s.assign(depth)
            s.busy.add(key)
            isb = T == '_Bool'
            c = r.random()
            if c < .25: return r.choice((f'{f}++', f'{f}--', f'++{f}', f'--{f}')), 'i'
            if c < .55: return f'{f} = {s.nested(depth) or (s.rhs("b") if isb else s.irhs())}', 'i'
            op = r.choice(('+', '-', '*', '&', '|', '^', '/', '%', '<<', '>>'))
            if op in '/%': return f'{f} {op}= (({s.irhs()}) & 7) + 1', 'i'
            if op in ('<<', '>>'): return f'{f} {op}= ({s.irhs()}) & {min(w, 31) if w <= 32 else 63}', 'i'
            return f'{f} {op}= {s.irhs()}', 'i'
        t = r.choice(s.ts)
        f, key = s.lval(t)
        if key in s.busy: return f'x_{t}', ('l' if t == 'ld' else 'f' if t in FL else 'i')
        s.busy.add(key)
        kind = 'l' if t == 'ld' else 'f' if t in FL else 'i'
        c = r.random()
        if c < .3: return r.choice((f'({f})++', f'({f})--', f'++{f}', f'--{f}') if f[0] == '*' else (f'{f}++', f'{f}--', f'++{f}', f'--{f}')), kind
        if c < .55: return f'{f} = {s.nested(depth) or s.rhs(t)}', kind
        if t in FL:
            op = r.choice(('+', '-', '*', '/'))
            if op == '/': return f'{f} /= {r.choice(("2", "4.0", "3", "0.5L", "kf(3)", "1.5f"))}', kind
            if op == '*': return f'{f} *= {r.choice(("2", "1.5", "3u", "0.25L", "kf(-2)", "(char)3"))}', kind
            return f'{f} {op}= {r.choice((s.frhs, lambda: str(r.randrange(9)), lambda: "kf(3)"))()}', kind
        op = r.choice(('+', '-', '*', '&', '|', '^', '/', '%', '<<', '>>', '+', '-'))
        if op in '/%': return f'{f} {op}= {r.choice((f"(({s.irhs()}) & 7) + 1", "3", "10u", "7L", "kf(5)", "2", "8", "16ul"))}', kind
        if op in ('<<', '>>'):
            m = 63 if TY[t][1] == 64 else 31
            return f'{f} {op}= {r.choice((f"({s.irhs()}) & {m}", str(r.randrange(m + 1)), "k1", "(long)i2", "kf(3)"))}', kind
        if op in '+-*' and r.random() < .15 and t not in ('b',):
            # floating arithmetic on an integer lvalue: small fresh value first, so that the result converts
            lv, kk = s.lval(t, pure=True)
            if kk not in s.busy:
                s.busy.add(kk)
                s.pre.append(f'{lv} = {r.randrange(60, 70)};')
                return f'{lv} {op}= {r.choice(("0.5", "1.25f", "1.5L", "cl(i2)", "0.75"))}', kind
        return f'{f} {op}= {s.nested(depth) or s.irhs()}', kind

    def nested(s, depth):
        if depth < 2 and s.r.random() < .3:
            e, k = s.assign(depth + 1)
            if k == 'i': return e if s.r.random() < .5 and '=' not in e.replace('==', '') else f'({e})'
        return None

    def ptr(s):
        """pointer updates, differences, comparisons"""
        r, k = s.r, s.k
        c = r.randrange(6)
        if c == 0:
            t = r.choice(s.ts)
            st = r.choice((f'p_{t}', f'(*pp_{t})'))
            off = s.idx(2)
            e = r.choice((f'{st} += {off}', f'{st} -= {off}', f'{st}++', f'++{st}', f'--{st}', f'{st}--', f'{st} = h{k}_{t} + 3 + {off}', f'{st} = &h{k}_{t}[4]', f'{st} = {off} + (h{k}_{t} + 3)'))
            if (t, 'gn') in s.busy: return None
            rd = r.choice((lambda: f'({e}) - h{k}_{t}', lambda: f'*({e}) + 0', lambda: f'({e}) == h{k}_{t} + 5', lambda: f'({e}) > h{k}_{t} + i2', lambda: f'(char *)({e}) - (char *)h{k}_{t}'))()
            return f'{{ {rd_wrap(s, rd, t)} vI({s.id}, p_{t} - h{k}_{t}); p_{t} = h{k}_{t} + 4; }}'
        if c == 1:
            j = r.randrange(3)
            e1 = f'gz{k}_{j} + {s.idx(2)}'; e2 = f'&gz{k}_{j}[{s.idx(2)}]'
            return f'vI({s.id}, {r.choice((f"({e1}) - ({e2})", f"({e2}) - ({e1})", f"({e1}) < ({e2})", f"({e1}) <= ({e2})", f"({e1}) != ({e2})", f"(char *)({e1}) - (char *)({e2})", f"(unsigned long)((char *)({e1}) - (char *)gz{k}_{j}) / sizeof gz{k}_{j}[0]", f"(long)({e1}) - (long)gz{k}_{j}"))});'
        if c == 2:
            t = r.choice(s.ts)
            e1 = f'mp_{t} + {s.idx(2)}'; e2 = f'm_{t} + {s.idx(2)}'
            return f'vI({s.id}, {r.choice((f"({e1}) - ({e2})", f"({e1}) > ({e2})", f"*({e1}) - *({e2})", f"&m_{t}[{s.idx(2)}][{s.idx(3)}] - *mp_{t}", f"(char *)({e1}) - (char *)m_{t}"))});'
        if c == 3:
            t = r.choice(s.ts)
            return f'{{ {TY[t][0]} (*q)[n3 + 1] = mp_{t} + 1; vI({s.id}, ({r.choice(("q++", "++q", "q--", "--q", f"q += {s.idx(1)}", f"q -= {s.idx(1)}", f"q = m_{t} + {s.idx(2)}"))}) - mp_{t}); vI({s.id + 500}, q - mp_{t}); vI({s.id + 501}, (char *)q - (char *)mp_{t}); }}'
        if c == 4:
            t = r.choice(s.ts)
            return f'{{ void *q = h{k}_{t}; vI({s.id}, (char *)({r.choice((f"q + {s.idx(3)}", f"q += {s.idx(3)}", "q++", "++q", f"q = (char *)q + {s.idx(3)}", f"{s.idx(2)} + q"))}) - (char *)h{k}_{t}); vI({s.id + 500}, q - (void *)h{k}_{t}); vI({s.id + 501}, q == h{k}_{t}); vI({s.id + 502}, !q); }}'
        t = r.choice(s.ts)
        return f'{{ struct S{k}_{t} *a = &gs{k}_{t}; long d = (char *)(a + {s.idx(3)}) - (char *)a; vI({s.id}, d); vI({s.id + 500}, (a + i2) - a); vI({s.id + 501}, &a[{s.idx(3)}] >= a + c1); {TY[t][0]} *w = a->b; vI({s.id + 502}, &w[{s.idx(2)}] - &a->b[0]); vI({s.id + 503}, w - &a->a); }}'

    def zlv(s, j, busy):
        r, k = s.r, s.k
        for _ in range(20):
            f, key = r.choice(((f'gz{k}_{j}[{s.idx(2)}]', 'gz'), (f'lz_{j}', 'lz'), (f'kz_{j}', 'kz'), (f'gw{k}_{j}.z', 'gw'), (f'lw_{j}.z', 'lw'), (f'lw_{j}.b', 'lwb'), (f'*nz{k}_{j}({s.idx(2)})', 'gz'), (f'vz_{j}[{s.idx(2)}]', 'vz'), (f'*ez_{j}', 'pg'), (f'*bz_{j}', 'pg'), (f'(&lw_{j})->a', 'lwa'), (f'(*(i1 ? &lz_{j} : &kz_{j}))', 'lz'), (f'*(calls++, &kz_{j})', 'kz')))
            if key not in busy:
                busy.add(key)
                return f
        return f'lz_{j}'

    def zrv(s, j, busy, depth=0):
        r, k = s.r, s.k
        c = r.random()
        if c < .35: return s.zlv(j, busy)
        if c < .5: return f'mk{k}_{j}({r.randrange(256)})'
        if c < .56: return f'id{k}_{j}({s.zlv(j, set(busy))})'
        if depth > 2: return f'kz_{j}'
        if c < .66: return f'({s.cnt()}++ {r.choice(("|", "&"))} {r.randrange(2)} ? {s.zrv(j, set(busy), depth + 1)} : {s.zrv(j, set(busy), depth + 1)})'
        if c < .73: return f'({s.cnt()}++, {s.zrv(j, busy, depth + 1)})'
        if c < .83: return f'({s.zlv(j, busy)} = {s.zrv(j, busy, depth + 1)})'
        if c < .9: return f'({{ struct Z{k}_{j} q = {s.zrv(j, busy, depth + 1)}; q; }})'
        n, mem, form = s.sz[j]
        if form in 'bhwq': return f'(struct Z{k}_{j}){{ {{ {", ".join(str(r.randrange(120)) for _ in range(r.randrange(1, 4)) )} }} }}' if n >= 24 or form == 'b' and n >= 3 else f'(struct Z{k}_{j}){{ {{ {r.randrange(100)} }} }}'
        return f'mk{k}_{j}(kf({r.randrange(256)}))'

    def copy(s):
        r, k = s.r, s.k
        j = r.randrange(3)
        n, mem, form = s.sz[j]
        busy = set()
        c = r.random()
        if c < .1:
            x = r.choice((f'gz{k}_{j}[1]', f'lz_{j}', f'*ez_{j}', f'lw_{j}.z'))
            return f'{x} = {x}; ch({s.id});'
        d = s.zlv(j, busy)
        e = f'{d} = {s.zrv(j, busy)}'
        tail = f' vB({s.id + 500}, ez_{j}, sizeof *ez_{j}); vB({s.id + 501}, bz_{j}, sizeof *bz_{j});'
        c = r.random()
        if c < .5: return f'{e}; ch({s.id});' + tail
        if c < .7: return f'vI({s.id}, ({e}).{mem});' + tail
        if c < .85: return f'vI({s.id}, by{k}_{j}({e}, {r.randrange(n)}));' + tail
        return f'{{ struct Z{k}_{j} q = ({e}); vB({s.id}, &q, sizeof q); }}' + tail

    def stmt(s):
        parts = s.stmt1().split('@')
        assert len(parts) <= 65
        return ''.join(p + (str(i) if i < len(parts) - 1 else '') for i, p in enumerate(parts))

    def stmt1(s):
        r = s.r
        s.busy = set()
        s.nc = 0
        s.pre = []
        s.id += 1
        c = r.random()
        if c < .14:
            p = s.ptr()
            if p: return p
        if c < .36: return s.copy()
        e, kind = s.assign()
        v = {'i': 'vI', 'f': 'vF', 'l': 'vL'}[kind]
        pre = ' '.join(s.pre)
        if pre: pre += f' ch({s.id + 900});'
        c = r.random()
        i = s.id
        if c < .42: o = f'{e}; ch({i});'
        elif c < .7: o = f'{v}({i}, {e});'
        elif c < .75: o = f'if ({e}) ch({i}); else vI({i}, -1);'
        elif c < .79: o = f'vI({i}, !({e}));'
        elif c < .83: o = f'for (int q = 0; q < 1; q++, {e}); ch({i});'
        elif c < .87: o = f'(void)({e}), ch({i});'
        elif c < .91: o = f'vI({i}, {"kf(0)" if r.random() < .3 else "i1"} {r.choice(("&&", "||"))} ({e}));'
        elif c < .94:
            o = f'{v}({i}, i1 {r.choice(("==", "<"))} {r.randrange(3)} ? ({e}) : {r.choice(("3", "0", "i2"))});'
        elif c < .97: o = f'{v}({i}, ({{ {e}; }}));'
        else: o = f'{v}({i}, ({e}) + {r.choice(("1", "i2", "1u", "2L", "k1"))});'
        return pre + o

    def text(s):
        r, k = s.r, s.k
        out = []
        for _ in range(r.choice((14, 18, 24))):
            out.append(s.stmt())
            if r.random() < .3:
                out.append(' '.join(f'{"vL" if t == "ld" else "vF" if t in FL else "vI"}({s.id + 600 }, x_{t}); {"vL" if t == "ld" else "vF" if t in FL else "vI"}({s.id + 650}, y_{t});' for t in s.ts))
        s.out = out
        return '\n'.join(s.gl) + f'''
static void F{k}(int i1, int i2, int n3) {{
unsigned char k1 = 1; short s1 = 1; signed char n1 = -1; char c1 = 1; long l3 = 3; _Bool t1 = 1; enum E e1 = E1; unsigned short w1[2] = {{ 1, 2 }};
{chr(10).join(s.lo)}
rst();
memset(pbeg, {r.randrange(256)}, 4096);
{chr(10).join(s.ini)}
{chr(10).join(out)}
}}
'''


def rd_wrap(s, rd, t):
    return f'{"vL" if t == "ld" and rd.startswith("*(") else "vF" if t in FL and rd.startswith("*(") else "vI"}({s.id + 700}, {rd});'


def text(r, n):
    fs = [F(r, k) for k in range(n)]
    return PRE + ''.join(f.text() for f in fs) + 'int main(void) { pages();\n' + '\n'.join(f'F{k}(1, 2, 3);' for k in range(n)) + '\nreturn 0; }\n', fs


BIG = r'''
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
struct BF { int a : 5; unsigned b : 11; long c : 40; long double q; char t[24]; short z[3]; };
struct Z3 { char c[3]; }; struct Z16 { long a; double b; }; struct Z40 { int v[10]; };
static char *gp;
__attribute__((noinline)) static void rd(int id, char *p, long o, int n) { printf("m%d", id); for (int i = 0; i < n; i++) printf(" %02x", (unsigned char)p[o + i]); printf("\n"); }
__attribute__((noinline)) static void wr(char *p, long o, int n, int v) { for (int i = 0; i < n; i++) p[o + i] = v + i; }
static void vI(int id, long long v) { printf("v%d %lld\n", id, v); }
static void vF(int id, long double v) { printf("v%d %Lg\n", id, v); }
static int sum40(struct Z40 z, int k) { return z.v[0] + z.v[9] * 3 + k; }
'''


def big(r):
    """accesses at constant offsets of up to several GB on either side of a pointer"""
    G = 1 << 30
    ST = {'signed char': 1, 'unsigned char': 1, '_Bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned': 4, 'long': 8, 'float': 4, 'double': 8, 'long double': 16}

    def K(sz=1):
        b = r.choice((1 << 31, 1 << 31, 1 << 32, 3 * 10**9, 5 * 10**9, 7 * G, 1 << 30, 1000, 6 * G))
        return r.choice((1, -1)) * (b + r.choice((-32, -17, -16, -9, -8, -5, -4, -2, -1, 0, 1, 2, 4, 7, 8, 16, 40))) // sz * sz

    out = []
    for i in range(40):
        t = r.choice(list(ST)); z = ST[t]; fl = t in ('float', 'double', 'long double'); o = K(z); n = o // z; v = 'vF' if fl else 'vI'
        P = r.choice(('p', 'p', 'gp', 'lp', '(p + i0)', '(i0 ? gp : p)', '(gp - i0)'))
        sp = lambda x: f'{x}{r.choice(("L", "LL"))}' if x >= 0 or r.random() < .5 else f'(long){x}LL'
        y = r.randrange(-1 << 31, 1 << 31); y = y // 4 * 4 or 4; x = o - y
        addr = [f'{P} + {sp(o)}', f'{P} - {sp(-o)}', f'{P} + {sp(y)} + ({sp(x)})', f'&{P}[{sp(o)}]', f'&({P} - {sp(-y)})[{sp(x)}]', f'{sp(o)} + {P}', f'{P} + ({sp(y)} + i0) + {sp(x)}', f'{P} + {y} - {sp(-x)}', f'(char *)((long){P} + {sp(o)})']
        a = r.choice(addr)
        lv = r.choice([f'*({t} *)({a})', f'(({t} *){P})[{sp(n)}]', f'(({t} *){P} + {sp(n)})[0]', f'*(({t} *){P} - {sp(-n)})', f'(({t} *)({P} + {sp(y)}))[{sp(x // z)}]' if x % z == 0 else f'*({t} *)({a})'])
        k = r.random(); d = i + 1
        if t != '_Bool' and k < .12 and n:
            m = r.choice((100000, 10**9 // z, 1 << 29, 77777777)); q, w = divmod(n, m)
            lv = f'(({t} (*)[{m}]){P})[{q}][{w}]'
        lv = f"({lv})"
        cast = r.choice(('', '', f'({r.choice(("long", "int", "double") if t not in FLN else ("double", "long double"))})'))
        c = r.random()
        out.append(f'wr(gp, {o}L, {z}, {r.randrange(0, 100) if not fl else 0});' if t not in ('_Bool',) + FLN else f'*({t} *)(gp + vl({o}L)) = {r.choice(("0", "1"))};')
        if c < .3: out.append(f'{v}({d}, {cast}{lv});')
        elif c < .45: out.append(f'{lv} = {r.randrange(0, 100)}; rd({d}, gp, {o}L, {min(z, 10)}); {v}({d}, {lv});')
        elif c < .55: out.append(f'{v}({d}, {lv} {r.choice(("+=", "-=", "*=")) if t != "_Bool" else "="} 1); rd({d}, gp, {o}L, {min(z, 10)});')
        elif c < .62 and t != '_Bool': out.append(f'{v}({d}, {r.choice(("++", "--"))}{lv}); {v}({d}, {lv}{r.choice(("++", "--"))}); rd({d}, gp, {o}L, {min(z, 10)});')
        elif c < .7: out.append(f'vI({d}, (char *)&{lv} - gp); vI({d}, (char *)&{lv} {r.choice(("<", ">", "=="))} gp);')
        elif c < .76: out.append(f'if ({lv}) vI({d}, 1); else vI({d}, 0); vI({d}, !{lv}); vI({d}, {lv} ? 3 : 4);')
        elif c < .82: out.append(f'{v}({d}, {lv} + {lv}); {v}({d}, 3 * {lv} - x0);')
        elif c < .92:
            o = K(16); f = r.choice(('a', 'b', 'c', 'q', 't[5]', 'z[1]')); e = f'((struct BF *)({P} + {sp(o)}))->{f}'; w = r.choice(('vI', 'vI') if f != 'q' else ('vF',))
            out.append(f'{e} = {r.randrange(1, 15)}; {w}({d}, {e}); {w}({d}, {e} += 1); {w}({d}, {e}++); rd({d}, gp, {o}L, 16); rd({d}, gp, {o + 32}L, 30);')
        else:
            T = r.choice(('Z3', 'Z16', 'Z40')); n = {'Z3': 3, 'Z16': 16, 'Z40': 40}[T]; o = K(8); e = r.choice((f'*(struct {T} *)({P} + {sp(o)})', f'((struct {T} *)({P} + {sp(o % n + (o - o % n) // 2 // n * n)}))[{(o - o % n) // n - (o - o % n) // 2 // n}]'))
            out.append(f'wr(gp, {o}L, {n}, {r.randrange(100)}); {{ struct {T} z = {e}; rd({d}, (char *)&z, 0, {n}); memset(&z, 7, sizeof z); {e} = z; rd({d}, gp, {o - 1}L, {n + 2}); ' + (f'vI({d}, sum40({e}, 2)); ' if T == 'Z40' else '') + '}')
    return BIG + 'static long vl(long x) { return x; }\nint main(void) { gp = (char *)mmap(0, 16L << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (gp == MAP_FAILED) { printf("no address space\\n"); return 0; }\n' \
        'gp += 8L << 30; char *p = gp, *volatile lp = gp; int i0 = vl(0), x0 = vl(1);\n' + '\n'.join(out) + '\nreturn 0; }\n'


FLN = ('float', 'double', 'long double')


def check(ctx):
    ctx.rule = ('random updates of objects of every scalar type, bit-fields and aggregates of 1..400 bytes through every kind of lvalue with counted side effects; after each statement the program logs the expression value and every byte that changed in any object '
                '(globals, locals, VLAs, heap, bytes next to protected pages); the log is compared with gcc -O0, and a difference counts if clang -O0 and gcc -O2 agree with gcc -O0 and a sanitizer build is silent. events: log lines; non-trivial: distinct logs')
    slim = ctx.build('plain')
    D = Diff(ctx, slim, ref_common=('-w', '-fwrapv', '-ffp-contract=off'), ub_flags='address,bounds,integer-divide-by-zero,float-cast-overflow,null,shift-exponent,vla-bound', san=True)

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        if idx % 6 == 5:
            D.go(res, f'b{idx}', {'t.c': big(r)}, [[[], ['-O0']], [['-fPIC']]][idx // 6 % 2], key=lambda k: 'big')
            res.count('large-offset-programs'); return res
        src, fs = text(r, 3)
        v = [[[]], [['-O1']], [['-fPIC']], [['-O0']]][idx % 4]
        if 'C18_ONLY' in os.environ: open(f'/tmp/y/s{idx}.c', 'w').write(src)
        D.go(res, f's{idx}', {'t.c': src}, v, key=lambda k: 'value')
        if idx == 1: res.sample = {'statements': fs[0].out[:12]}
        return res
    ctx.pmap(one, [int(x) for x in os.environ['C18_ONLY'].split(',')] if 'C18_ONLY' in os.environ else range(ctx.n(1000, 16000)))


if __name__ == '__main__':
    main('C18', check, min_events=20000, min_distinct=200)
