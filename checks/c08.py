"""C08: storage of simultaneously live automatic objects (interval, alignment, canary and stack-extent monitor)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.diff import Diff

MON = r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
typedef struct { unsigned char *p; unsigned long n; unsigned seed; int id, kind; } Ob;
static Ob st[200000]; static int top; static long nadd, nchk, nbad, lim; static unsigned ser, rs = 12345;
static uintptr_t base; static unsigned long live; static int depth; static int sites[4096]; static unsigned long maxext;
int mon_nolimit;
static unsigned char pat(unsigned s, unsigned long i) { return (unsigned char)(s * 31 + i * 7 + (i >> 8) * 13 + 1); }
static void bad(const char *w, int id, int id2) { if (nbad++ < 20) printf("%d bad %s with %d\n", id, w, id2); }
int mon_h(void) { return top; }
unsigned R(unsigned n) { if (nadd > lim) return 0; rs = rs * 1103515245u + 12345u; return (rs >> 12) % n; }
void mon_seed(unsigned s) { rs = s; lim = nadd + 1500; }
static void verify(Ob *o) { nchk++; for (unsigned long i = 0; i < o->n; i++) if (o->p[i] != pat(o->seed, i)) { bad("changed", o->id, (int)i); return; } }
static void fill(Ob *o) { for (unsigned long i = 0; i < o->n; i++) o->p[i] = pat(o->seed, i); }
void mon_fill(void *p, unsigned long n, unsigned seed) { Ob o = { p, n, seed, 0, 0 }; fill(&o); }
int mon_eq(int id, const void *p, unsigned long n, unsigned seed) { nchk++; for (unsigned long i = 0; i < n; i++) if (((unsigned char *)p)[i] != pat(seed, i)) { bad("value", id, (int)i); return 0; } return 1; }
/* kind 0: automatic; 1: already holds a pattern with this seed (temporaries, parameters) */
static void add(int id, void *p, unsigned long n, unsigned long al, int kind, unsigned seed) {
  nadd++; sites[id & 4095]++;
  Ob o = { p, n, kind ? seed : ++ser, id, kind };
  if ((uintptr_t)p % al) bad("misaligned", id, (int)al);
  for (int i = top - 1; i >= 0 && i > top - 600; i--) if (o.p < st[i].p + st[i].n && st[i].p < o.p + o.n) { bad("overlaps", id, st[i].id); break; }
  unsigned char here; uintptr_t sp = (uintptr_t)&here;
  if ((uintptr_t)p > base || (uintptr_t)p + n <= sp) bad("outside-stack", id, 0);
  if (!mon_nolimit) { unsigned long ext = base - (uintptr_t)p; if (ext > maxext) maxext = ext; if (ext > live + n + 40000ul * (depth + 1) + 64ul * top) bad("stack-grows", id, depth); }
  if (kind) verify(&o); else fill(&o);
  live += n; st[top++] = o;
}
void mon_add(int id, void *p, unsigned long n, unsigned long al) { add(id, p, n, al, 0, 0); }
void mon_addv(int id, void *p, unsigned long n, unsigned long al, unsigned seed) { add(id, p, n, al, 1, seed); }
void mon_chk(void) { int lo = top > 24 ? top - 24 : 0; for (int i = lo; i < top; i++) verify(&st[i]); if (lo) { int i = (nchk * 7) % lo; verify(&st[i]); } }
void mon_pop(int h) { if (h > top) { bad("height", h, top); return; } while (top > h) { Ob *o = &st[--top]; verify(o); memset(o->p, 0xdb, o->n); live -= o->n; } }
void mon_enter(void) { depth++; }
void mon_base(void *p) { base = (uintptr_t)p + 8192; }
void mon_leave(int h) { mon_pop(h); depth--; }
void mon_use(void *a, void *b, unsigned long n, unsigned sa, unsigned sb, int id) { int h = top; add(id, a, n, 1, 1, sa); add(id, b, n, 1, 1, sb); memset(a, 0x5c, n); if (!mon_eq(id, b, n, sb)) ; mon_fill(a, n, sa); mon_pop(h); }
void mon_int(int id, long long got, long long want) { nchk++; if (got != want) bad("scalar", id, 0); }
long long mon_id(long long x) { volatile unsigned char junk[256]; for (int i = 0; i < 256; i++) junk[i] = 0xa5; return x + 0 * junk[3]; }
void mon_end(void) { int n = 0; for (int i = 0; i < 4096; i++) n += sites[i] != 0; printf("total objects %ld sites %d bad %ld left %d\n", nadd, n, nbad, top); fprintf(stderr, "STAT %ld %ld %d %lu\n", nadd, nchk, n, maxext); }
void mon_reset(void) { top = 0; live = 0; depth = 0; }
'''
DECL = r'''
int mon_h(void); unsigned R(unsigned); void mon_seed(unsigned); void mon_fill(void *, unsigned long, unsigned); int mon_eq(int, const void *, unsigned long, unsigned);
void mon_add(int, void *, unsigned long, unsigned long); void mon_addv(int, void *, unsigned long, unsigned long, unsigned); void mon_chk(void); void mon_pop(int); void mon_enter(void); void mon_base(void *); void mon_leave(int);
void mon_use(void *, void *, unsigned long, unsigned, unsigned, int); void mon_int(int, long long, long long); long long mon_id(long long); void mon_end(void); void mon_reset(void);
extern int mon_nolimit;
#ifndef alloca
extern void *alloca(unsigned long);
#endif
#define ALLOCA(n) __builtin_alloca(n)
typedef long long ll;
static void cln(int *p) { *p = ~*p; }
static void clnv(int *p) { unsigned n = 20 + R(9); char b[n]; for (unsigned i = 0; i < n; i++) b[i] = i; *p += b[n - 1]; }
'''
# struct sizes returned in registers, in memory, x87, mixed
STRUCTS = [('SA', 'char b[1];', 1, 1), ('SB', 'char b[3];', 3, 1), ('SC', 'int b[2];', 8, 4), ('SD', 'long b[2];', 16, 8), ('SE', 'long b[3];', 24, 8), ('SF', 'char b[65];', 65, 1), ('SG', 'short b[100];', 200, 2),
           ('SH', 'double b[2];', 16, 8), ('SI', 'float b[3];', 12, 4), ('SJ', 'char b[12];', 12, 1), ('SK', '_Alignas(16) char b[32];', 32, 16), ('SL', 'long a[1]; double b[1];', 16, 8), ('SM', '_Alignas(64) char b[64];', 64, 64)]


class Fn:
    def __init__(s, r, i, nf, P):
        s.r, s.i, s.nf, s.P = r, i, nf, P
        s.uid = 0
        s.mode = P.mode     # 'vla' | 'alloca' | 'both' | 'none'
        s.scopes = []       # names of height variables, innermost last
        s.loops = []        # (kind, scope depth outside, label or None)
        s.labels = []
        s.vla_live = []     # per scope flag
        s.scal = []         # live scalar names with values (name, value)
        s.nst = 0
        s.sx = set()      # scopes of statement expressions (GCC loses the value when one declares a VLA)
        s.tail = []

    def n(s, p='v'):
        s.uid += 1
        return f'{p}{s.i}_{s.uid}'

    def idn(s):
        return s.P.newid()

    def ptrtype(s):
        return s.r.choice(('char', 'short', 'int', 'long', 'double', 'long double', 'float', '_Bool', 'void *', 'char'))

    SZ = {'char': 1, 'short': 2, 'int': 4, 'long': 8, 'double': 8, 'long double': 16, 'float': 4, '_Bool': 1, 'void *': 8}

    def decl(s):
        """one declaration statement + registration"""
        r = s.r
        v = s.n()
        if r.random() < .08:
            # exit actions between the storage releases of one scope
            val = r.randrange(-2**31, 2**31)
            s.scal.append((v, val))
            return f'int {v} __attribute__((cleanup({r.choice(("cln", "clnv"))}))) = {val};'
        k = r.random()
        if k < .14:
            t = s.ptrtype()
            return f'{t} {v}; mon_add({s.idn()}, &{v}, sizeof {v}, {s.SZ[t]});'
        if k < .3:
            t = s.ptrtype()
            n = r.choice((1, 2, 3, 5, 7, 9, 16, 17, 33, 100, 257))
            al = max(16 if s.SZ[t] * n >= 16 else 1, s.SZ[t])
            return f'{t} {v}[{n}]; mon_add({s.idn()}, {v}, sizeof {v}, {al});'
        if k < .42:
            nm, _, sz, al = r.choice(STRUCTS)
            if r.random() < .3: return f'struct {nm} {v}[{r.choice((1, 2, 3, 5))}]; mon_add({s.idn()}, {v}, sizeof {v}, {al});'
            return f'struct {nm} {v}; mon_add({s.idn()}, &{v}, sizeof {v}, {al});'
        if k < .54:
            al = r.choice((8, 16, 16, 32, 32, 64, 128, 256, 1024))
            t = s.ptrtype()
            if al < s.SZ[t]: al = s.SZ[t]
            form = r.choice((f'_Alignas({al}) {t} {v}', f'__attribute__((aligned({al}))) {t} {v}', f'{t} {v} __attribute__((aligned({al})))'))
            suf = ''
            if r.random() < .5 and not form.endswith('))'): suf = f'[{r.choice((1, 3, 9, 40))}]'
            return f'{form}{suf}; mon_add({s.idn()}, &{v}, sizeof {v}, {al});'
        if k < .62:
            nm, _, sz, al = r.choice(STRUCTS)
            # compound literal: lives to the end of the block
            if r.random() < .5: return f'struct {nm} *{v} = &(struct {nm}){{0}}; mon_add({s.idn()}, {v}, sizeof *{v}, {al});'
            t = s.ptrtype()
            n = r.choice((1, 3, 8, 20))
            return f'{t} *{v} = ({t}[{n}]){{0}}; mon_add({s.idn()}, {v}, {n} * sizeof *{v}, {s.SZ[t]});'
        # both: alloca only in the outermost block, so that no array's scope takes it along when it ends
        if k < .7 and s.mode == 'both' and len(s.scopes) == 1: k = .7 if r.random() < .5 else k
        if (k < .8 and s.mode == 'vla' or k < .72 and s.mode == 'both' and len(s.scopes) > 1) and s.scopes[-1] not in s.sx: return s.vla(v)
        if k < .72 and (s.mode == 'alloca' or s.mode == 'both' and len(s.scopes) == 1):
            n = f'{r.choice((1, 7, 16, 100, 700))} + R(50)'
            z = s.n('z')
            return f'unsigned {z} = {n}; char *{v} = {r.choice(("ALLOCA", "ALLOCA", "alloca"))}({z}); mon_add({s.idn()}, {v}, {z}, 16);'
        if k < .9:
            val = r.randrange(-2**31, 2**31)
            s.scal.append((v, val))
            t = r.choice(('ll', 'long', 'int', 'const ll', 'volatile int', 'register ll', 'double', 'long double'))
            return f'{t} {v} = {val};'
        nm, _, sz, al = r.choice(STRUCTS)
        sd = r.randrange(1, 9999)
        return f'struct {nm} {v} = mk{nm}({sd}); mon_addv({s.idn()}, &{v}, sizeof {v}, {al}, {sd});'

    def vla(s, v):
        r = s.r
        s.vla_live[-1] = True
        z = s.n('z')
        k = r.random()
        big = r.choice((1, 30, 300, 2000))
        if k < .5:
            t = s.ptrtype()
            al = r.choice((0, 0, 0, 16, 32, 64, 128))
            # GCC keeps VLAs on 16-byte boundaries
            pre = f'_Alignas({max(al, s.SZ[t])}) ' if al else ''
            return f'unsigned {z} = {big} + R(40); {pre}{t} {v}[{z}]; mon_add({s.idn()}, {v}, sizeof {v}, {max(al, s.SZ[t])});'
        if k < .65:
            nm, _, sz, al = r.choice(STRUCTS)
            return f'unsigned {z} = 1 + R(9); struct {nm} {v}[{z}]; mon_add({s.idn()}, {v}, {z} * sizeof(struct {nm}), {al});'
        if k < .8: return f'int {z} = 1 + R(7); short {v}[3][{z}][{r.choice((1, 5))} + {z}]; mon_add({s.idn()}, {v}, sizeof {v}, 2);'
        if k < .9: return f'int {z} = 1 + R({big}); typedef char T{v}[{z}]; {z} = 0; T{v} {v}, *p{v} = &{v}; mon_add({s.idn()}, p{v}, sizeof *p{v}, 1);'
        return f'int {z} = 5 + R(9); char (*p{v})[{z}], {v}[2][{z}]; p{v} = {v}; mon_add({s.idn()}, p{v}, 2 * sizeof *p{v}, 1); mon_int({s.idn()}, (char *)(p{v} + 1) - (char *)p{v}, {z});'

    def use(s):
        """expression statements with temporaries and spills"""
        r = s.r
        k = r.random()
        nm, _, sz, al = r.choice(STRUCTS)
        a, b = r.randrange(1, 9999), r.randrange(1, 9999)
        f = 'b'
        if k < .2: return 'mon_chk();'
        if k < .36:
            c = s.idn()
            x = f'mk{nm}({a}).b'
            y = r.choice((f'mk{nm}({b}).b', f'(R(2) ? mk{nm}({b}) : mk{nm}({b})).b', f'(0, mk{nm}({b})).b'))
            if nm == 'SL': return 'mon_chk();'
            # both temporaries live until the end of the full expression
            return f'mon_use({x}, {y}, sizeof(struct {nm}), {a}, {b}, {c});'
        if k < .5:
            c = s.idn()
            args = [r.randrange(1, 9999) for _ in range(3)]
            nms = [r.choice(STRUCTS)[0] for _ in range(2)]
            return f'mon_int({c}, chk{nm}(mk{nm}({args[0]}), {args[0]}, {c}) + 2 * chk{nms[0]}(mk{nms[0]}({args[1]}), {args[1]}, {c}) * mon_id(chk{nms[1]}(mk{nms[1]}({args[2]}), {args[2]}, {c})), 3);'
        if k < .62 and s.scal:
            v, val = r.choice(s.scal)
            return f'mon_int({s.idn()}, {v}, {val}LL);'
        if k < .72:
            v = s.n('x')
            return f'{{ struct {nm} {v}; {v} = mk{nm}({a}); struct {nm} {v}b = {v}; mon_chk(); mon_eq({s.idn()}, &{v}b, sizeof {v}, {a}); {v}b = ({v} = mk{nm}({b})); mon_eq({s.idn()}, &{v}b, sizeof {v}, {b}); }}'
        if k < .9:
            # deep spills around calls
            def e(d):
                if d == 0:
                    x = r.randrange(-9, 10)
                    return (f'mon_id({x})', x) if r.random() < .7 else (str(x) if x >= 0 else f'({x})', x)
                (p, pv), (q, qv) = e(d - 1), e(d - 1)
                o = r.choice('+-*')
                if r.random() < .1: return f'({{ ll t_ = {p}; char q_[{r.choice((9, 40))}]; mon_fill(q_, sizeof q_, 5); mon_eq(0, q_, sizeof q_, 5); t_ {o} {q}; }})', eval(f'{pv} {o} ({qv})')
                return f'({p} {o} {q})', eval(f'{pv} {o} ({qv})')
            t, v = e(r.choice((2, 3, 4)))
            if r.random() < .3: return f'mon_int({s.idn()}, (ll)((double){t} + (long double)mon_id(1)), {v + 1}LL);'
            return f'mon_int({s.idn()}, {t}, {v}LL);'
        return f'mon_int({s.idn()}, ({{ struct {nm} q_ = mk{nm}({a}), w_ = ({{ struct {nm} e_ = mk{nm}({b}); e_; }}); mon_eq(1, &q_, sizeof q_, {a}) + mon_eq(2, &w_, sizeof w_, {b}); }}), 2);'

    def call(s):
        r = s.r
        if s.nf <= 0: return 'mon_chk();'
        j = r.randrange(s.nf)
        return s.P.call(j, r, s)

    # ---- scopes
    def open(s):
        hv = s.n('h')
        s.scopes.append(hv)
        s.vla_live.append(False)
        return f'{{ int {hv} = mon_h(); '

    def close(s):
        hv = s.scopes.pop()
        s.vla_live.pop()
        return f'mon_pop({hv}); }}'

    def body(s, n, depth):
        """statements of an open scope"""
        r = s.r
        out = []
        ns = len(s.scal)
        for _ in range(n):
            s.nst += 1
            if s.nst > 70: break
            k = r.random()
            if k < .38: out.append(s.decl())
            elif k < .6: out.append(s.use())
            elif k < .68: out.append(s.call())
            elif depth > 0: out.append(s.compound(depth))
            if r.random() < .12: out.append(s.jump())
        out.append('mon_chk();' if r.random() < .6 else '')
        del s.scal[ns:]
        return '\n'.join(x for x in out if x)

    def block(s, n, depth):
        o = s.open()
        b = s.body(n, depth)
        return o + b + s.close()

    def pop_to(s, d):
        """registry pops when leaving all scopes deeper than d"""
        return f'mon_pop({s.scopes[d]}); ' if d < len(s.scopes) else ''

    def jump(s):
        r = s.r
        k = r.random()
        if s.loops and k < .5:
            kind, d, lab, dc = s.loops[-1]
            if kind == 'loop' and r.random() < .5: return f'if (!R(3)) {{ {s.pop_to(dc)}continue; }}'
            return f'if (!R(4)) {{ {s.pop_to(d)}break; }}'
        if s.loops and k < .6:
            # out of several loops
            kind, d, lab, dc = r.choice(s.loops)
            if lab: return f'if (!R(4)) {{ {s.pop_to(d)}goto {lab}; }}'
        if k < .75: return f'if (!R(6)) {{ mon_leave({s.scopes[0]}); return {s.ret()}; }}'
        if s.labels and k < .95:
            lab, d = r.choice(s.labels)
            return f'if (!R(4)) {{ {s.pop_to(d)}goto {lab}; }}'
        return ''

    def ret(s):
        return 'a0_' if not s.P.rets[s.i] else f'mk{s.P.rets[s.i]}(a0_)'

    def compound(s, depth):
        r = s.r
        k = r.random()
        n = r.choice((1, 2, 3, 4))
        d = len(s.scopes)
        if k < .2: return s.block(n, depth - 1)
        if k < .35: return f'if (R(2)) {s.block(n, depth - 1)} else {s.block(n, depth - 1)}'
        if k < .6:
            lab = s.n('L')
            it = s.n('i')
            cnt = r.choice((1, 2, 3, 3, 8))
            form = r.choice(('for', 'while', 'do', 'fordecl'))
            if form == 'fordecl':
                # the objects of the for declaration end with the loop: continue leaves them alone, break and goto end them
                hv = s.n('h')
                s.scopes.append(hv); s.vla_live.append(False)
            s.loops.append(('loop', d, lab, d + (form == 'fordecl')))
            b = s.block(n, depth - 1)
            s.loops.pop()
            if form == 'fordecl': s.scopes.pop(); s.vla_live.pop()
            if form == 'for': t = f'for (int {it} = 0; {it} < {cnt}; {it}++) {b}'
            elif form == 'fordecl':
                t = f'{{ int {hv} = mon_h(); for (struct SE {it}_ = mkSE(77), *{it}p = (mon_addv({s.idn()}, &{it}_, sizeof {it}_, 8, 77), &{it}_ + {cnt}); {it}p-- > &{it}_ || (mon_pop({hv}), 0); ) {b} }}'
            elif form == 'while': t = f'{{ int {it} = {cnt}; while ({it}-- > 0) {b} }}'
            else: t = f'{{ int {it} = {cnt}; do {b} while (--{it} > 0); }}'
            return t + f' {lab}:;'
        if k < .75:
            # switch into a block: objects of the block are alive although their declaration is jumped over
            s.loops.append(('switch', d, None, d))
            hv = s.n('h')
            s.scopes.append(hv); s.vla_live.append(False)
            v, w = s.n(), s.n()
            o = f'{{ int {hv} = mon_h(); switch (R(3)) {{ char {v}[{r.choice((5, 20))}]; int {w}; case 0: mon_add({s.idn()}, {v}, sizeof {v}, 1); {s.block(1, depth - 1)} {r.choice(("", f"mon_pop({hv}); break;"))} case 1: mon_pop({hv}); mon_add({s.idn()}, &{w}, sizeof {w}, 4); '
            o += s.block(n, depth - 1) + f' default: ; {s.block(1, depth - 1)} mon_pop({hv}); }} }}'
            s.scopes.pop(); s.vla_live.pop(); s.loops.pop()
            return o
        if k < .86:
            # backward goto
            lab, c = s.n('B'), s.n('c')
            hv = s.n('h')
            o = f'{{ int {c} = 0; int {hv} = mon_h(); {lab}: {{ mon_pop({hv}); }} '
            s.scopes.append(hv); s.vla_live.append(False)
            b = s.body(n, depth - 1)
            s.scopes.pop(); s.vla_live.pop()
            return o + b + f' if ({c}++ < {r.choice((1, 2, 12))}) {{ mon_pop({hv}); goto {lab}; }} mon_pop({hv}); }}'
        if k < .93:
            # forward label usable by nested statements
            lab = s.n('F')
            s.labels.append((lab, d))
            b = s.block(n, depth - 1)
            s.labels.pop()
            return f'{b} {lab}:;'
        x = s.n('q')
        sc = list(s.loops), list(s.labels)
        s.loops, s.labels = [], []
        hv = s.n('h')
        s.sx.add(hv)
        s.scopes.append(hv); s.vla_live.append(False)
        save, s.noret = getattr(s, 'noret', False), True
        b = s.body(n, depth - 1)
        s.scopes.pop(); s.vla_live.pop()
        s.loops, s.labels = sc
        return f'mon_int({s.idn()}, mon_id(3) + ({{ int {hv} = mon_h(); {b} mon_pop({hv}); mon_id(4); }}) * mon_id(2), 11);'


class Prog:
    def __init__(s, r, nf):
        s.r = r
        s.ids = 0
        s.mode = r.choice(('vla', 'vla', 'alloca', 'none', 'vla', 'both'))
        s.rets = [r.choice((None, None, r.choice(STRUCTS)[0])) for _ in range(nf)]
        s.params = []
        for i in range(nf):
            ps = []
            for j in range(r.choice((0, 1, 2, 3, 7))):
                k = r.random()
                if k < .35: ps.append(('struct', r.choice(STRUCTS)))
                elif k < .5: ps.append(('char', None))
                elif k < .65: ps.append(('double', None))
                elif k < .75: ps.append(('long double', None))
                else: ps.append(('ll', None))
            s.params.append(ps)
        protos, fns = [], []
        for i in range(nf):
            f = Fn(r, i, i, s)
            pl, pre = ['int a0_'], []
            for j, (t, st) in enumerate(s.params[i]):
                if st:
                    pl.append(f'struct {st[0]} p{j}')
                    pre.append(f'mon_addv({s.newid()}, &p{j}, sizeof p{j}, {st[3]}, a0_ + {j});')
                else:
                    pl.append(f'{t} p{j}')
                    pre.append(f'mon_int({s.newid()}, p{j}, (a0_ + {j}) & 63);')
                    if r.random() < .5: pre.append(f'mon_add({s.newid()}, &p{j}, sizeof p{j}, sizeof p{j});')
            rt = f'struct {s.rets[i]}' if s.rets[i] else 'int'
            o = f.open()
            hv = f.scopes[0]
            b = f.body(r.choice((4, 6, 9)), 4)
            loop = ''
            if s.mode == 'vla' and r.random() < .5:
                # whole body repeated: stack must stay bounded
                f2 = f.n('i')
                inner = f.block(3, 2)
                loop = f'for (int {f2} = 0; {f2} < 60; {f2}++) {inner}'
            fns.append(f'static {rt} F{i}({", ".join(pl)}) {{ mon_enter(); {o[2:]}\n{" ".join(pre)}\n{b}\n{loop}\nmon_leave({hv}); return {f.ret()}; }}')
        s.text = DECL + ''.join(f'struct {n} {{ {d} }};\nstatic struct {n} mk{n}(unsigned s) {{ struct {n} x; mon_fill(&x, sizeof x, s); return x; }}\nstatic ll chk{n}(struct {n} x, unsigned s, int id) {{ return mon_eq(id, &x, sizeof x, s); }}\n' for n, d, _, _ in STRUCTS)
        s.text += '\n'.join(fns) + '\nint main(void) {\nchar base_; mon_base(&base_);\n' + ('mon_nolimit = 1;\n' if s.mode in ('alloca', 'both') else '#ifdef NOLIMIT\nmon_nolimit = 1;\n#endif\n') + ''.join(f'for (int i = 0; i < 6; i++) {{ mon_seed({r.randrange(1 << 30)} + i); mon_reset(); {s.call(nf - 1 - j, r, None, True)} }}\n' for j in range(min(nf, 3))) + 'mon_end(); return 0; }\n'

    def newid(s):
        s.ids += 1
        return s.ids

    def call(s, j, r, fn, top=False):
        a = r.randrange(1, 500)
        args = [str(a)]
        for i, (t, st) in enumerate(s.params[j]):
            args.append(f'mk{st[0]}({a + i})' if st else str((a + i) & 63))
        c = f'F{j}({", ".join(args)})'
        if s.rets[j]: return f'{{ struct {s.rets[j]} r_ = {c}; mon_eq({s.newid()}, &r_, sizeof r_, {a}); }}'
        return f'mon_int({s.newid()}, {c}, {a});'


def check(ctx):
    ctx.rule = ('random functions with nested scopes, jumps, recursion-free call chains and every kind of automatic object; a separately compiled monitor keeps the set of live objects and checks each registration for alignment and overlap, each value at every '
                'check point and at scope exit, and the stack extent against the live bytes; events: objects registered and verified; non-trivial: programs with distinct shapes')
    slim = ctx.build('plain')
    md = ctx.dir('mon')
    open(os.path.join(md, 'mon.c'), 'w').write(MON)
    r0 = run(['gcc', '-O1', '-w', '-c', '-o', 'mon.o', 'mon.c'], cwd=md)
    if r0.rc: raise HarnessError(r0.err)
    mon = os.path.join(md, 'mon.o')
    D = Diff(ctx, slim, common=('-w',), ref_common=('-w', '-Wno-psabi', '-Dalloca=__builtin_alloca'), libs=(mon,), san=False)
    VAR = [[[], ['-fstack-reuse=none', '-DNOLIMIT']], [['-O0']], [['-fPIC'], ['-O2']], [['-O1', '-g']]]

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        p = Prog(r, r.choice((3, 5, 7)))
        D.last = None
        D.go(res, f's{idx}', {'t.c': p.text}, VAR[idx % 4])
        # what the monitor saw in slimcc's program
        x = D.last
        if x is None: return res
        for l in x.err.splitlines():
            if l.startswith('STAT'):
                q = l.split()
                res.count('objects', int(q[1])); res.count('verifications', int(q[2])); res.count('sites', int(q[3]))
                res.events += int(q[2])
        res.distinct.add(h(p.text))
        if idx == 0: res.sample = {'program_bytes': len(p.text), 'function': p.text[-800:]}
        return res
    ctx.pmap(one, range(ctx.n(260, 4000)))


if __name__ == '__main__':
    main('C08', check, min_events=20000, min_distinct=50)
