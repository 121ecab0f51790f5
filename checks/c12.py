"""C12: atomics.  Real threads run operations compiled by slimcc; a gcc-built harness records the histories and checks them online:
small concurrent histories against a sequential model (linearizability, Wing-Gong search), bulk runs by conservation laws."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.diff import Diff

TYPES = [('_Bool', 'i', 1, 0), ('char', 'i', 1, 1), ('signed char', 'i', 1, 1), ('unsigned char', 'i', 1, 0), ('short', 'i', 2, 1), ('unsigned short', 'i', 2, 0), ('int', 'i', 4, 1), ('unsigned', 'i', 4, 0), ('long', 'i', 8, 1), ('unsigned long', 'i', 8, 0), ('long long', 'i', 8, 1),
         ('unsigned long long', 'i', 8, 0), ('float', 'f', 4, 1), ('double', 'd', 8, 1), ('int *', 'p', 8, 0), ('struct P3 *', 'p', 8, 0), ('enum E', 'i', 4, 0)]
TD = {'_Bool': 'atomic_bool', 'char': 'atomic_char', 'signed char': 'atomic_schar', 'unsigned char': 'atomic_uchar', 'short': 'atomic_short', 'unsigned short': 'atomic_ushort', 'int': 'atomic_int', 'unsigned': 'atomic_uint', 'long': 'atomic_long', 'unsigned long': 'atomic_ulong', 'long long': 'atomic_llong', 'unsigned long long': 'atomic_ullong'}
OPS = ['load', 'store', 'exch', 'fadd', 'fsub', 'for', 'fxor', 'fand', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '++x', '--x', 'x++', 'x--', 'cas']


def decl(r, t):
    if t in TD and r.random() < .3: return TD[t] + ' %s'
    if t.endswith('*'): return r.choice((t + ' _Atomic %s', '_Atomic(' + t + ') %s'))
    return r.choice(('_Atomic ' + t + ' %s', '_Atomic(' + t + ') %s', t + ' _Atomic %s', 'volatile _Atomic(' + t + ') %s'))


def opbody(r, t, op, X, cls):
    A = '(T)(long)a' if cls == 'p' and op in ('store', 'exch') else 'a'
    if cls == 'i' and op not in ('/=', '%=', '>>=', '<<=') and r.random() < .3: A = f'(long)({A})'
    elif cls == 'i' and r.random() < .2 and op in ('store', 'exch', '+='): A = f'(double)({A})' if op == 'store' else A
    ex = r.random() < .4
    mo = r.choice(('memory_order_seq_cst', 'memory_order_acq_rel', 'memory_order_relaxed') if op not in ('load', 'store') else ('memory_order_seq_cst', 'memory_order_relaxed'))
    if op == 'load': return f'T v = {r.choice((X, f"atomic_load(&{X})", f"atomic_load_explicit(&{X}, {mo})", f"({X})", f"*&{X}"))};'
    if op == 'store':
        if r.random() < .4: return f'atomic_store(&{X}, {A}); T v = {A};'
        if r.random() < .3: return f'atomic_store_explicit(&{X}, {A}, {mo}); T v = {A};'
        return f'T v = ({X} = {A});'
    if op == 'exch': return f'T v = atomic_exchange(&{X}, {A});' if not ex else f'T v = atomic_exchange_explicit(&{X}, {A}, {mo});'
    if op[0] == 'f': return f'T v = atomic_fetch_{op[1:]}(&{X}, {A});' if not ex else f'T v = atomic_fetch_{op[1:]}_explicit(&{X}, {A}, {mo});'
    if op == 'cas':
        f = r.choice(('atomic_compare_exchange_strong', 'atomic_compare_exchange_weak'))
        des = '(T)(long)b' if cls == 'p' else 'b'
        return f'T e = (T)(long)a; _Bool ok = {f}{"_explicit" if ex else ""}(&{X}, &e, {des}{", memory_order_seq_cst, memory_order_relaxed" if ex else ""}); *(int *)o2 = ok; T v = e;' if cls != 'f' and cls != 'd' else \
               f'T e = (T)a; int ok = {f}(&{X}, &e, b); *(int *)o2 = ok; T v = e;'
    if op == '++x': return f'T v = ++{X};'
    if op == '--x': return f'T v = --{X};'
    if op == 'x++': return f'T v = ({X})++;'
    if op == 'x--': return f'T v = ({X})--;'
    if r.random() < .2: return f'{X} {op} {A}; T v = 0; *(int *)o2 = 77;' if False else f'T v = (0, {X} {op} {A});'
    return f'T v = ({X} {op} {A});'


def ops_for(cls, t):
    out = []
    for k, o in enumerate(OPS):
        if cls in 'fd' and o in ('fadd', 'fsub', 'for', 'fxor', 'fand', '%=', '&=', '|=', '^=', '<<=', '>>='): continue
        if cls == 'p' and o not in ('load', 'store', 'exch', 'fadd', 'fsub', '+=', '-=', '++x', '--x', 'x++', 'x--', 'cas'): continue
        if t == '_Bool' and o in ('fadd', 'fsub', 'for', 'fxor', 'fand', '<<='): continue
        out.append(k)
    return out


def slim_src(r):
    out = ['#include <stdatomic.h>', 'struct P3 { char c[3]; }; enum E { E0, E1 }; int wbad;', 'struct ent { const char *name; int cls, size, sgn, isbool, scale; void *obj; void *canary; void (*op[23])(int, int, void *, void *); };']
    ents = []
    for i, (t, cls, size, sgn) in enumerate(TYPES):
        d = decl(r, t)
        form = r.choice(('g', 'sm', 'ae', 'ptr', 'sp', 'sl', 'fn', 'nest'))
        out.append(f'typedef {t} T{i};')
        a = d % f'x{i}'
        can = '0'
        if form == 'g': out.append(f'static {a};'); X = f'x{i}'; obj = f'(void *)&x{i}'
        elif form == 'sm': out.append(f'static struct {{ char c0[{r.randint(1, 9)}]; {d % "m"}; char c1; }} s{i};'); X = f's{i}.m'; obj = f'(void *)&s{i}.m'
        elif form == 'ae': out.append(f'static {d % f"x{i}[5]"}; static volatile int k{i} = 2;'); X = f'x{i}[k{i}]'; obj = f'(void *)&x{i}[2]'
        elif form == 'ptr': out.append(f'static {a}; static {d % f"*p{i}"} = &x{i};' if '(' in d or not t.endswith('*') else f'static {a}; static __typeof__(x{i}) *p{i} = &x{i};'); X = f'*p{i}'; obj = f'(void *)&x{i}'
        elif form == 'sp': out.append(f'static struct S{i} {{ int h; {d % "m"}; char c1; }} s{i}; static struct S{i} *p{i} = &s{i};'); X = f'p{i}->m'; obj = f'(void *)&s{i}.m'
        elif form == 'sl': out.append(f'static __typeof__(&*({t} _Atomic *)0) l{i}(void) {{ static {t} _Atomic z; return &z; }}'); X = f'(*l{i}())'; obj = None
        elif form == 'fn': out.append(f'static struct S{i} {{ long h; {d % "m"}; }} s{i}; static struct S{i} *l{i}(void) {{ return &s{i}; }}'); X = f'l{i}()->m'; obj = f'(void *)&s{i}.m'
        else: out.append(f'static struct {{ char h; struct {{ short q; {d % "m[2]"}; }} in[2]; }} s{i};'); X = f's{i}.in[1].m[1]'; obj = f'(void *)&s{i}.in[1].m[1]'
        fs = ['0'] * 23
        for k in ops_for(cls, t):
            fs[k] = f'o{i}_{k}'
            body = opbody(r, t, OPS[k], X, cls)
            if cls == 'i' and OPS[k] != 'cas' and 'atomic_store' not in body and r.random() < .6:   # the value used at another type first
                W = r.choice(('long', 'long', 'unsigned long', 'long double', 'double' if size < 8 else 'long'))
                body = body.replace('T v = ', W + ' w = ') + f' T v = (T)w; if (w != ({W})v) wbad = {i * 100 + k + 1};'
            out.append(f'static void o{i}_{k}(int a, int b, void *o, void *o2) {{ typedef T{i} T; {body} *(T *)o = v; }}')
        out.append(f'static void *ob{i}(void) {{ return (void *)&{X}; }}')
        ents.append(f'{{ "{t} {form} [{d % "x"}]", {dict(i=0, f=1, d=2, p=3)[cls]}, {size}, {sgn}, {int(t == "_Bool")}, {3 if "P3" in t else 4}, (void *)ob{i}, 0, {{ {", ".join(fs)} }} }}')
    out.append(f'struct ent ents[] = {{ {", ".join(ents)} }}; int nents = {len(ents)};')
    # neighbours: every thread updates its own element
    for j, (t, sz) in enumerate((('char', 1), ('unsigned short', 2), ('int', 4), ('_Bool', 1))):
        out.append(f'static struct {{ char pre; _Atomic {t} a[24]; char post; }} nb{j} = {{ 90, {{ 0 }}, 91 }}; void nbf{j}(int t, int n) {{ for (int i = 0; i < n; i++) {{ nb{j}.a[t * 3 + 1]{" ^= 1" if t == "_Bool" else r.choice(("++", " += 1"))}; }} }} int nbg{j}(int t) {{ return nb{j}.a[t]; }} int nbc{j}(void) {{ return nb{j}.pre == 90 && nb{j}.post == 91; }}')
    # spin lock from each primitive guarding plain data
    out.append('static atomic_flag fl = ATOMIC_FLAG_INIT; static long plain0; void lk0(int n) { for (int i = 0; i < n; i++) { while (atomic_flag_test_and_set(&fl)) ; plain0++; atomic_flag_clear(&fl); } } long lkg0(void) { return plain0; }')
    out.append('static atomic_int lk; static long plain1, plain1b; void lk1(int n) { for (int i = 0; i < n; i++) { int z = 0; while (!atomic_compare_exchange_weak(&lk, &z, 1)) z = 0; plain1++; plain1b += plain1 & 1; lk = 0; } } long lkg1(void) { return plain1; }')
    out.append('static atomic_uchar lk2v; static long plain2; void lk2(int n) { for (int i = 0; i < n; i++) { while (atomic_exchange_explicit(&lk2v, 1, memory_order_acquire)) ; plain2++; atomic_store_explicit(&lk2v, 0, memory_order_release); } } long lkg2(void) { return plain2; }')
    out.append('static atomic_uint tk, srv; static long plain3; void lk3(int n) { for (int i = 0; i < n; i++) { unsigned t = atomic_fetch_add(&tk, 1); int sp = 0; while (atomic_load(&srv) != t) if (++sp > 200) { sp = 0; yield_(); } plain3++; srv++; } } long lkg3(void) { return plain3; }')
    # message passing: data published through an atomic pointer / flag
    out.append('struct msg { long a, b; }; static struct msg pool[64]; static struct msg *_Atomic mbox; long mp_send(int n) { for (int i = 1; i <= n; i++) { struct msg *m = &pool[i & 63]; m->a = i; m->b = -i; struct msg *e = 0; int sp = 0; while (!atomic_compare_exchange_strong(&mbox, &e, m)) { e = 0; if (++sp > 200) { sp = 0; yield_(); } } } return 0; } '
               'long mp_recv(int n) { long bad = 0, last = 0; for (int i = 1; i <= n; i++) { struct msg *m; int sp = 0; while (!(m = atomic_exchange(&mbox, 0))) if (++sp > 200) { sp = 0; yield_(); } if (m->a + m->b != 0 || m->a != last + 1) bad++; last = m->a; } return bad; }')
    # Treiber stack of unique nodes; Dekker-style store/load ordering
    t = r.choice(('int', 'int', 'long', 'short', 'char', '_Bool', 'unsigned', 'float', 'double', 'int *'))
    one = '(int *)8' if t == 'int *' else '1'
    out.append(f'struct DK {{ char c; _Atomic({t}) m; }}; static _Atomic({t}) dx, dy, dp[2]; static struct DK ds[2]; int dkn; void dkr(void) {{ dx = 0; dy = 0; for (int i = 0; i < 2; i++) {{ dp[i] = 0; ds[i].m = 0; }} }}')
    forms = []
    for st in ('{X} = %s;', 'r = !({X} = %s);', 'if (!({X} = %s)) r = 9;', 'atomic_store(&{X}, %s);', '(void)atomic_exchange(&{X}, %s);', '*p = %s;', 'r = (*p = %s) ? 0 : 5;', '(0, {X} = %s);', 'for ({X} = %s; r < 0; ) ;', 'n = a[({X} = %s) ? 0 : 1];', 'r ? 0 : ({X} = %s);', 'atomic_init(&{X}, 0); {X} = %s;',
               *(('{X} += %s;', 'r = !++{X};', '{X}++;') if t not in ('int *', '_Bool') else ()), *(('{X} |= %s;',) if t in ('int', 'long', 'short', 'char', 'unsigned', '_Bool') else ())):
        for X, Y in (('dx', 'dy'), ('dp[0]', 'dp[1]'), ('ds[0].m', 'ds[1].m'), ('(*(q + i))', '(*(q + 1 - i))')):
            for ld in ('!!{Y}', 'atomic_load(&{Y}) != 0', '({Y} ? 1 : 0)'):
                forms.append((st.replace('%s', one), X, Y, ld))
    forms = r.sample(forms, 6) + [('dx = %s;' % one, 'dx', 'dy', '!!{Y}'), ('r = !(dx = %s);' % one, 'dx', 'dy', '!!{Y}')]
    for v, (st, X, Y, ld) in enumerate(forms):
        for th in (0, 1):
            f = lambda z: z.replace('{X}', X if '(q' in X or not th else Y).replace('{Y}', Y if '(q' in X or not th else X)
            if v >= 6 and th: st = st.replace('dx', 'dy')
            out.append(f'int dk{v}_{th}(int i) {{ int r = 0, n = 0, a[2] = {{ 0, 3 }}; _Atomic({t}) *q = dp, *p = &{f("{X}")}; {f(st)} return ({f(ld)}) + 2 * (r + n != 0); }}')
    out.append(f'int (*dkf[])(int) = {{ {", ".join(f"dk{v}_0, dk{v}_1" for v in range(len(forms)))} }}; int dkn = {len(forms)};')
    src = '\n'.join(out) + '\n'
    return src.replace('struct P3 {', 'void yield_(void); struct P3 {', 1)


HARNESS = r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>
#include <sched.h>
struct ent { const char *name; int cls, size, sgn, isbool, scale; void *obj; void *canary; void (*op[23])(int, int, void *, void *); };
extern struct ent ents[]; extern int nents; extern int wbad;
static const char *opn[] = { "load", "store", "exch", "fadd", "fsub", "for", "fxor", "fand", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "++x", "--x", "x++", "x--", "cas" };
void yield_(void) { sched_yield(); }
typedef unsigned long long u64; typedef long long i64;
static u64 trunc_(struct ent *e, u64 v) { if (e->isbool) return v != 0; if (e->size == 8) return v; return v & ((1ull << (8 * e->size)) - 1); }
static i64 ext(struct ent *e, u64 s) { if (e->size == 8) return (i64)s; if (!e->sgn) return (i64)s; int sh = 64 - 8 * e->size; return (i64)(s << sh) >> sh; }
static u64 fb(struct ent *e, double d) { if (e->cls == 1) { float f = d; uint32_t b; memcpy(&b, &f, 4); return b; } u64 b; memcpy(&b, &d, 8); return b; }
static double bf(struct ent *e, u64 s) { if (e->cls == 1) { float f; uint32_t b = s; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &s, 8); return d; }
/* sequential model: returns new state, *ret = value delivered, *ok for cas */
static u64 model(struct ent *e, int op, int a, int b, u64 s, u64 *ret, int *ok) {
  *ok = -1; u64 n = s; int old = 0;
  if (e->cls == 1 || e->cls == 2) {
    double d = bf(e, s); double r = d;
    switch (op) {
    case 0: *ret = s; return s;
    case 1: n = fb(e, a); *ret = n; return n;
    case 2: *ret = s; return fb(e, a);
    case 8: r = e->cls == 1 ? (float)d + (float)a : d + a; break; case 9: r = e->cls == 1 ? (float)d - (float)a : d - a; break;
    case 10: r = e->cls == 1 ? (float)d * (float)a : d * a; break; case 11: r = e->cls == 1 ? (float)d / (float)a : d / a; break;
    case 18: r = d + 1; break; case 19: r = d - 1; break; case 20: r = d + 1; old = 1; break; case 21: r = d - 1; old = 1; break;
    case 22: if (s == fb(e, a)) { *ok = 1; *ret = fb(e, a); return fb(e, b); } *ok = 0; *ret = s; return s;
    }
    n = fb(e, r); *ret = old ? s : n; return n;
  }
  i64 v = ext(e, s), r = v; int sc = e->cls == 3 ? e->scale : 1;
  switch (op) {
  case 0: *ret = s; return s;
  case 1: n = trunc_(e, a); *ret = n; return n;
  case 2: *ret = s; return trunc_(e, a);
  case 3: r = v + (i64)a * sc; old = 1; break; case 4: r = v - (i64)a * sc; old = 1; break; case 5: r = v | a; old = 1; break; case 6: r = v ^ a; old = 1; break; case 7: r = v & a; old = 1; break;
  case 8: r = v + (i64)a * sc; break; case 9: r = v - (i64)a * sc; break; case 10: r = v * a; break;
  case 11: r = e->sgn || e->size < 4 || e->isbool ? v / a : (i64)(e->size == 4 ? (uint32_t)v / (uint32_t)a : (u64)v / (u64)(i64)a); break;
  case 12: r = e->sgn || e->size < 4 || e->isbool ? v % a : (i64)(e->size == 4 ? (uint32_t)v % (uint32_t)a : (u64)v % (u64)(i64)a); break;
  case 13: r = v & a; break; case 14: r = v | a; break; case 15: r = v ^ a; break; case 16: r = v << a; break;
  case 17: r = e->size == 8 && !e->sgn ? (i64)((u64)v >> a) : v >> a; break;
  case 18: r = v + sc; break; case 19: r = v - sc; break; case 20: r = v + sc; old = 1; break; case 21: r = v - sc; old = 1; break;
  case 22: if (s == trunc_(e, a)) { *ok = 1; *ret = s; return trunc_(e, b); } *ok = 0; *ret = s; return s;
  }
  if (e->isbool && (op == 18)) r = 1;
  if (e->isbool && (op == 20)) r = 1;
  n = trunc_(e, r); *ret = old ? s : n; return n;
}
typedef struct { int op, a, b; u64 ret; int ok; unsigned inv, res; } H;
#define MAXO 12
static unsigned rs; static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 17; rs ^= rs << 5; return rs; }
static int nth; static volatile unsigned gate; static unsigned ticket; static struct ent *ce; static H hist[4][MAXO]; static int per; static volatile int quit; static unsigned done;
static void *worker(void *p) {
  long t = (long)p; unsigned seen = 0;
  for (;;) {
    unsigned spin = 0; while (__atomic_load_n(&gate, __ATOMIC_ACQUIRE) == seen) if (++spin > 20000) { spin = 0; sched_yield(); }
    seen++; if (quit) return 0;
    for (int i = 0; i < per; i++) {
      H *h = &hist[t][i]; u64 o = 0; int ok = -1; volatile int dl = h->inv; while (dl > 0) dl--;
      h->inv = __atomic_fetch_add(&ticket, 1, __ATOMIC_SEQ_CST);
      ce->op[h->op](h->a, h->b, &o, &ok);
      h->res = __atomic_fetch_add(&ticket, 1, __ATOMIC_SEQ_CST);
      h->ret = o; h->ok = ok;
    }
    __atomic_fetch_add(&done, 1, __ATOMIC_SEQ_CST);
  }
}
static int n_, used[4]; static int found_;
static int search(u64 s, u64 fin, int left) {
  if (!left) return s == fin;
  unsigned minres = ~0u;
  for (int t = 0; t < nth; t++) if (used[t] < per && hist[t][used[t]].res < minres) minres = hist[t][used[t]].res;
  for (int t = 0; t < nth; t++) if (used[t] < per) {
    H *h = &hist[t][used[t]]; if (h->inv > minres) continue;
    u64 r; int ok; u64 n = model(ce, h->op, h->a, h->b, s, &r, &ok);
    if (r != h->ret) continue; if (h->op == 22 && ok != h->ok) continue;
    used[t]++; if (search(n, fin, left - 1)) { used[t]--; return 1; } used[t]--;
  }
  return 0;
}
static u64 getv(struct ent *e) { u64 v = 0; memcpy(&v, ((void *(*)(void))e->obj)(), e->size); return v; }
static void setv(struct ent *e, u64 v) { memcpy(((void *(*)(void))e->obj)(), &v, e->size); }
/* bulk */
static int bop, bn; static void *bulk(void *p) { u64 o; int ok; for (int i = 0; i < bn; i++) { ce->op[bop](1 + (((long)p + i) % 3) * (bop != 10 && !ce->isbool), 0, &o, &ok); if (p == (void *)0 && 0) yield_(); } return 0; }
static u64 *rec[8]; static void *uniq(void *p) { long t = (long)p; int ok; for (int i = 0; i < bn; i++) { u64 o = 0; ce->op[bop](1, 0, &o, &ok); rec[t][i] = o; } return 0; }
static int cmpu(const void *a, const void *b) { u64 x = *(u64 *)a, y = *(u64 *)b; return x < y ? -1 : x > y; }
static void *exw(void *p) { long t = (long)p; int ok; for (int i = 0; i < bn; i++) { u64 o = 0; ce->op[2](1 + t * bn + i, 0, &o, &ok); rec[t][i] = o; } return 0; }
void nbf0(int, int), nbf1(int, int), nbf2(int, int), nbf3(int, int); int nbg0(int), nbg1(int), nbg2(int), nbg3(int), nbc0(void), nbc1(void), nbc2(void), nbc3(void);
void lk0(int), lk1(int), lk2(int), lk3(int); long lkg0(void), lkg1(void), lkg2(void), lkg3(void); long mp_send(int), mp_recv(int); extern int (*dkf[])(int); extern int dkn; void dkr(void);
static void *nbw(void *p) { long t = (long)p; nbf0(t, bn); nbf1(t, bn); nbf2(t, bn); nbf3(t, bn | 1); return 0; }
static int which; static void *lkw(void *p) { switch (which) { case 0: lk0(bn); break; case 1: lk1(bn); break; case 2: lk2(bn); break; case 3: lk3(bn); } return 0; }
static void *mps(void *p) { mp_send(bn); return 0; }
static volatile int dres[2]; static int dkv; static void *dkw(void *p) { long t = (long)p; unsigned seen = 0; for (;;) { while (__atomic_load_n(&gate, __ATOMIC_ACQUIRE) == seen) ; seen++; if (quit) return 0; volatile int dl = hist[t][0].inv; while (dl > 0) dl--; dres[t] = dkf[dkv * 2 + t](t); __atomic_fetch_add(&done, 1, __ATOMIC_SEQ_CST); } }
static pthread_t th[8];
static void par(int n, void *(*f)(void *)) { for (long i = 0; i < n; i++) pthread_create(&th[i], 0, f, (void *)i); for (int i = 0; i < n; i++) pthread_join(th[i], 0); }
static long bad; 
#define BAD(...) do { if (bad++ < 5) { printf("BAD "); printf(__VA_ARGS__); printf("\n"); } } while (0)
int main(int argc, char **argv) {
  setvbuf(stdout, 0, _IOLBF, 0);
  rs = atoi(argv[1]) * 2654435761u + 12345; int rounds = atoi(argv[2]); bn = atoi(argv[3]); long overl = 0, casf = 0, ops = 0, fails = 0; u64 sig = 0;
  /* sequential: every op against the model, many values */
  for (int i = 0; i < nents; i++) { ce = &ents[i]; for (int k = 0; k < rounds / 2; k++) { int op; do op = rnd() % 23; while (!ce->op[op]); int a = (int)(rnd() % 11) - 5, b = (int)(rnd() % 11) - 5; if ((op == 11 || op == 12) && !a) a = 3; if (op == 16 || op == 17) a = (a + 5) % 4;
      u64 s0 = ce->cls == 0 ? trunc_(ce, (i64)(int)(rnd() % 401) - 200) : ce->cls == 3 ? rnd() % 1000 : fb(ce, (int)(rnd() % 33) - 16); if (op == 22 && rnd() % 2) s0 = ce->cls == 0 || ce->cls == 3 ? trunc_(ce, a) : fb(ce, a);
      if (ce->cls == 0 && !ce->isbool && ce->size <= 2 && rnd() % 4 == 0) s0 = trunc_(ce, rnd());
      setv(ce, s0); u64 o = 0, r; int ok = -1, mok; u64 n = model(ce, op, a, b, s0, &r, &mok); ce->op[op](a, b, &o, &ok); u64 g = getv(ce); ops++;
      if (g != n || o != r || (op == 22 && ok != mok)) BAD("sequential %s: %s(%d,%d) on %llx: object %llx (want %llx), value %llx (want %llx), ok %d (want %d)", ce->name, opn[op], a, b, s0, g, n, o, r, ok, mok);
      if (wbad) { BAD("sequential %s: %s(%d,%d) on %llx: the value of the expression is not a value of the type", ce->name, opn[op], a, b, s0); wbad = 0; } } }
  if (bad) return 1;
  /* concurrent histories */
  for (nth = 2; nth <= 4; nth++) {
    per = nth == 2 ? 5 : nth == 3 ? 3 : 2; gate = 0; quit = 0; for (long i = 0; i < nth; i++) pthread_create(&th[i], 0, worker, (void *)i);
    for (int k = 0; k < rounds; k++) { ce = &ents[rnd() % nents]; u64 s0 = ce->cls == 0 || ce->cls == 3 ? trunc_(ce, rnd() % 8) : fb(ce, (int)(rnd() % 5)); setv(ce, s0); int focus = rnd() % 3;
      int fo; do fo = rnd() % 23; while (!ce->op[fo]);
      for (int t = 0; t < nth; t++) for (int i = 0; i < per; i++) { H *h = &hist[t][i]; do h->op = rnd() % 23; while (!ce->op[h->op]); if (focus == 0) h->op = fo; if (focus == 1 && rnd() % 2) h->op = 22; h->a = (int)(rnd() % 6) - 1; h->b = (int)(rnd() % 6) - 1; if ((h->op == 11 || h->op == 12) && !h->a) h->a = 2; if (h->op == 16 || h->op == 17) h->a &= 1; h->inv = rnd() % 8 == 0 ? rnd() % 400 : rnd() % 12; }
      ticket = 0; done = 0; __atomic_fetch_add(&gate, 1, __ATOMIC_SEQ_CST); unsigned spin = 0; while (__atomic_load_n(&done, __ATOMIC_SEQ_CST) != nth) if (++spin > 20000) { spin = 0; sched_yield(); }
      for (int t = 0; t < nth; t++) for (int i = 0; i < per; i++) { ops++; if (hist[t][i].op == 22 && !hist[t][i].ok) casf++; for (int t2 = t + 1; t2 < nth; t2++) for (int j = 0; j < per; j++) if (hist[t][i].inv < hist[t2][j].res && hist[t2][j].inv < hist[t][i].res) overl++; sig = sig * 1099511628211ull + hist[t][i].inv * 31 + hist[t][i].ret; }
      memset(used, 0, sizeof used);
      if (!search(s0, getv(ce), nth * per)) { fails++; if (bad++ < 3) { printf("BAD history of %s not linearizable: initial %llx final %llx:", ce->name, s0, getv(ce)); for (int t = 0; t < nth; t++) for (int i = 0; i < per; i++) { H *h = &hist[t][i]; printf(" T%d[%u-%u] %s(%d,%d)=%llx/%d", t, h->inv, h->res, opn[h->op], h->a, h->b, h->ret, h->ok); } printf("\n"); } }
    }
    quit = 1; __atomic_fetch_add(&gate, 1, __ATOMIC_SEQ_CST); for (int i = 0; i < nth; i++) pthread_join(th[i], 0);
  }
  printf("histories %d overlapping-pairs %ld cas-failures %ld sig %llx\n", rounds * 3, overl, casf, sig);
  if (bad) return 1;
  /* bulk conservation */
  static const int bops[] = { 3, 4, 6, 8, 9, 10, 15, 18, 19, 20, 21 };
  for (int i = 0; i < nents; i++) { ce = &ents[i]; for (int q = 0; q < 11; q++) { bop = bops[q]; if (!ce->op[bop] || ce->isbool && bop != 15) continue; if (ce->cls && (bop == 10)) continue; if (ce->cls == 0 && ce->sgn && ce->size >= 4 && bop == 10) continue;
      if (ce->cls == 1 && bn > 20000) bn = 20000; u64 s0 = ce->cls == 1 || ce->cls == 2 ? fb(ce, 0) : 1; setv(ce, s0); u64 s = s0, r; int ok; ops += 8L * bn;
      for (long t = 0; t < 8; t++) for (int k = 0; k < bn; k++) s = model(ce, bop, 1 + ((t + k) % 3) * (bop != 10 && !ce->isbool), 0, s, &r, &ok);
      par(8, bulk); if (getv(ce) != s) BAD("lost or duplicated updates: %s %s: 8 threads x %d: final %llx want %llx", ce->name, opn[bop], bn, getv(ce), s); }
    if (ce->size >= 4 && ce->cls == 0) { static const int uo[] = { 3, 8, 18, 20 }; for (int q = 0; q < 4; q++) { bop = uo[q]; for (int t = 0; t < 8; t++) rec[t] = realloc(rec[t], 8 * 8 * bn); setv(ce, 0); par(8, uniq); u64 *all = malloc(64L * bn); for (int t = 0; t < 8; t++) memcpy(all + (long)t * bn, rec[t], 8L * bn); qsort(all, 8L * bn, 8, cmpu); for (long k = 0; k < 8L * bn; k++) if (all[k] != k + (bop == 8 || bop == 18)) { BAD("values returned by concurrent %s on %s are not distinct: %lld appears in place of %ld", opn[bop], ce->name, all[k], k); break; } free(all); ops += 8L * bn; }
      setv(ce, 0); par(8, exw); { u64 *all = malloc(64L * bn + 8); for (int t = 0; t < 8; t++) memcpy(all + (long)t * bn, rec[t], 8L * bn); all[8L * bn] = getv(ce); qsort(all, 8L * bn + 1, 8, cmpu); for (long k = 0; k <= 8L * bn; k++) if (all[k] != k) { BAD("exchange on %s: value %ld lost or returned twice", ce->name, k); break; } free(all); ops += 8L * bn; } } }
  par(8, nbw); for (int t = 0; t < 24; t++) { int on = t % 3 == 1; if (nbg0(t) != (on ? (signed char)bn : 0) || nbg1(t) != (on ? (unsigned short)bn : 0) || nbg2(t) != (on ? bn : 0) || nbg3(t) != on) { BAD("neighbouring atomics interfere at %d: %d %d %d %d", t, nbg0(t), nbg1(t), nbg2(t), nbg3(t)); break; } }
  if (!nbc0() || !nbc1() || !nbc2() || !nbc3()) BAD("canary next to atomic array changed");
  long (*gs[])(void) = { lkg0, lkg1, lkg2, lkg3 }; int sv = bn; for (which = 0; which < 4; which++) { bn = sv / 4; par(4, lkw); ops += 4L * bn; if (gs[which]() != 4L * bn) BAD("lock %d did not exclude: %ld of %ld", which, gs[which](), 4L * bn); } 
  { pthread_t s; pthread_create(&s, 0, mps, 0); long b = mp_recv(bn); pthread_join(s, 0); ops += bn; if (b) BAD("message passing: %ld bad messages", b); }
  long both[2] = { 0, 0 };
  for (dkv = 0; dkv < dkn; dkv++) { gate = 0; quit = 0; done = 0; for (long i = 0; i < 2; i++) pthread_create(&th[i], 0, dkw, (void *)i); for (int k = 0; k < sv / 4; k++) { dkr(); done = 0; hist[0][0].inv = rnd() % 30; hist[1][0].inv = rnd() % 30; __atomic_fetch_add(&gate, 1, __ATOMIC_SEQ_CST); while (__atomic_load_n(&done, __ATOMIC_SEQ_CST) != 2) ; both[0] += dres[0] && dres[1]; ops += 4; if (dres[0] > 1 || dres[1] > 1) { BAD("value of an atomic store (variant %d)", dkv); break; } if (!dres[0] && !dres[1]) { BAD("store/load reordering: both threads read 0 (variant %d)", dkv); break; } } quit = 1; __atomic_fetch_add(&gate, 1, __ATOMIC_SEQ_CST); pthread_join(th[0], 0); pthread_join(th[1], 0); }
  printf("ops %ld bad %ld\n", ops, bad); return bad != 0;
}
'''


def seq_src(r, n):
    """single-threaded: side effects of operands happen once, conversions of odd operand types; compared with clang and gcc"""
    L = ['#include <stdatomic.h>', 'extern int printf(const char *, ...);', 'static int cnt; static int ev(int x) { cnt++; return x; } static double evd(double x) { cnt += 100; return x; }', 'struct B { int f:5; unsigned g:7; };']
    body = []
    for i in range(n):
        t, cls, size, sgn = r.choice([x for x in TYPES if x[1] in 'ifd' and 'enum' not in x[0]])
        form = r.choice(('l', 'a', 'p'))
        L.append(f'static _Atomic {t} g{i}[4];')
        X = f'g{i}[ev({r.randint(0, 3)})]' if form == 'a' else f'*(g{i} + ev(1))' if form == 'p' else f'g{i}[2]'
        init = r.randint(-9, 30)
        body.append(f'for (int k = 0; k < 4; k++) g{i}[k] = {init}; cnt = 0; struct B bf = {{ {r.randint(-16, 15)}, {r.randint(0, 100)} }}; short sh = {r.randint(-99, 99)}; unsigned char ub = {r.randint(0, 255)}; (void)sh; (void)ub; (void)bf;')
        for j in range(3):
            op = r.choice([o for o in ('=', '+=', '-=', '*=', '/=', '&=', '|=', '^=', '%=', '<<=', '>>=', '++x', '--x', 'x++', 'x--')])
            isf = cls in 'fd'
            if isf and op in ('&=', '|=', '^=', '%=', '<<=', '>>='): op = '+='
            intop = op in ('&=', '|=', '^=', '%=', '<<=', '>>=')
            if op in ('<<=', '>>='): rhs = f'ev({r.randint(0, 2)})'
            elif op in ('/=', '%='): rhs = r.choice((f'ev({r.randint(1, 9)})', f'({r.randint(1, 9)}L + ev(0))'))
            else:
                rhs = r.choice((f'ev({r.randint(-9, 9)})', f'(short)ev({r.randint(-9, 9)})', f'(ev(1), {r.randint(0, 9)}L)', 'bf.f', 'bf.g', 'sh', 'ub', f"'a' + ev(0)", f'(bf.g = ev(5))', '(sh += 1)', f'({r.randint(0, 3)} ? ev(2) : ev(3))') + (() if intop else (f'evd({r.choice((1.5, 2.75, -0.5, 3.0))})', '2.5f', '3.25L')))
            if t == '_Bool' and op in ('--x', 'x--', '<<=', '-='): op = '|='; rhs = 'ev(1)'
            if isf and op == '/=': rhs = 'ev(2)'
            conv = '(double)' if isf else '(long long)'
            fmt = '%.9g' if isf else '%lld'
            ex = f'++{X}' if op == '++x' else f'--{X}' if op == '--x' else f'({X})++' if op == 'x++' else f'({X})--' if op == 'x--' else f'{X} {op} {rhs}'
            body.append(f'{{ {"double" if isf else "long long"} v = ({ex}); printf("{i}.{j} {fmt} %d {" ".join([fmt] * 4)} %d\\n", v, cnt, {", ".join(f"{conv}g{i}[{q}]" for q in range(4))}, (int)sizeof({ex})); }}')
        body[-4] = '{ ' + body[-4]
        body[-1] += ' }'
    return '\n'.join(L) + '\nint main(void) {\n' + '\n'.join(body) + '\nreturn 0; }\n'


HEADER = r"""
#include <stdio.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>
#include <uchar.h>
static int n;
#define P(v) printf("%d %lld\n", n++, (long long)(v))
#define T(a, t) do { static _Atomic(t) *p; static a *q; P(_Generic(p, a *: 1, default: 0)); P(sizeof(a) == sizeof(t)); P(_Alignof(a)); a x = ATOMIC_VAR_INIT(7); P(x); atomic_init(&x, (t)-1); P(atomic_load(&x) < 0); P(atomic_is_lock_free(&x)); (void)q; } while (0)
static atomic_flag f0 = ATOMIC_FLAG_INIT, fa[2] = { ATOMIC_FLAG_INIT, ATOMIC_FLAG_INIT }; static struct { int a; atomic_flag f; atomic_int i; } fs = { 1, ATOMIC_FLAG_INIT, ATOMIC_VAR_INIT(4) };
int main(void) {
  atomic_flag l = ATOMIC_FLAG_INIT;
  for (int i = 0; i < 2; i++) { P(atomic_flag_test_and_set(&f0)); P(atomic_flag_test_and_set_explicit(&fa[1], memory_order_acquire)); P(atomic_flag_test_and_set(&fs.f)); P(atomic_flag_test_and_set(&l)); P(fs.a + fs.i); }
  atomic_flag_clear(&fa[1]); atomic_flag_clear_explicit(&l, memory_order_release); P(atomic_flag_test_and_set(&fa[1])); P(atomic_flag_test_and_set(&l)); P(atomic_flag_test_and_set(fa));
  int c = 0; memory_order o[2] = { memory_order_acquire, memory_order_seq_cst };
  c ? atomic_thread_fence(memory_order_seq_cst) : (void)(c = 5); P(c);
  atomic_thread_fence(o[(c++, 1)]), atomic_signal_fence(o[(c++, 0)]); P(c);
  if (c) atomic_signal_fence(memory_order_relaxed); else c = 9;
  P(kill_dependency(c) + 1); P(memory_order_relaxed); P(memory_order_consume); P(memory_order_acquire); P(memory_order_release); P(memory_order_acq_rel); P(memory_order_seq_cst);
  P(ATOMIC_BOOL_LOCK_FREE > 0); P(ATOMIC_CHAR_LOCK_FREE > 0); P(ATOMIC_CHAR16_T_LOCK_FREE > 0); P(ATOMIC_CHAR32_T_LOCK_FREE > 0); P(ATOMIC_WCHAR_T_LOCK_FREE > 0); P(ATOMIC_SHORT_LOCK_FREE > 0); P(ATOMIC_INT_LOCK_FREE > 0); P(ATOMIC_LONG_LOCK_FREE > 0); P(ATOMIC_LLONG_LOCK_FREE > 0); P(ATOMIC_POINTER_LOCK_FREE > 0);
  T(atomic_bool, _Bool); T(atomic_char, char); T(atomic_schar, signed char); T(atomic_uchar, unsigned char); T(atomic_short, short); T(atomic_ushort, unsigned short); T(atomic_int, int); T(atomic_uint, unsigned); T(atomic_long, long); T(atomic_ulong, unsigned long); T(atomic_llong, long long); T(atomic_ullong, unsigned long long);
  T(atomic_char16_t, char16_t); T(atomic_char32_t, char32_t); T(atomic_wchar_t, wchar_t); T(atomic_intptr_t, intptr_t); T(atomic_uintptr_t, uintptr_t); T(atomic_size_t, size_t); T(atomic_ptrdiff_t, ptrdiff_t); T(atomic_intmax_t, intmax_t); T(atomic_uintmax_t, uintmax_t);
#define W(w) T(atomic_int_least##w##_t, int_least##w##_t); T(atomic_uint_least##w##_t, uint_least##w##_t); T(atomic_int_fast##w##_t, int_fast##w##_t); T(atomic_uint_fast##w##_t, uint_fast##w##_t);
  W(8) W(16) W(32) W(64)
  return 0;
}
"""


def check(ctx):
    ctx.rule = ('2-4 real threads run random mixes of load, store, exchange, compare-exchange, fetch-op and compound updates compiled by slimcc on every atomic type and access form; each recorded history must have a sequential explanation (real-time order by tickets); '
                'bulk 8-thread runs by conservation, distinctness of returned values, exactly-once exchange, mutual exclusion of locks, message passing, Dekker ordering, non-interference of neighbours; non-trivial: distinct history signatures')
    ctx.assumptions.append('x86-64 hardware with several cores executes the threads; schedules are those the machine produced')
    slim = ctx.build('plain')
    d = ctx.dir('h')
    open(os.path.join(d, 'h.c'), 'w').write(HARNESS)
    x = run(['gcc', '-O2', '-w', '-c', 'h.c'], cwd=d)
    if x.rc: raise HarnessError(x.err)

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        w = os.path.join(d, f'c{idx}')
        os.makedirs(w)
        src = slim_src(r)
        open(os.path.join(w, 'a.c'), 'w').write(src)
        opt = r.choice(([], ['-O0'], ['-fPIC']))
        c = run([slim, *opt, '-c', '-o', 'a.o', 'a.c'], cwd=w, timeout=60)
        if c.rc:
            g = run(['gcc', '-w', '-c', '-o', 'g.o', 'a.c'], cwd=w)
            if g.rc: res.genfail += 1; res.genfail_msgs.append(g.err[:600]); return res
            res.evals += 1
            res.violation(f'compile:{idx}:{h(src)}', f'slimcc fails on a valid program using atomics (rc={c.rc}): {c.err[:500]}', {'a.c': src}, 'slimcc -c a.c')
            return res
        l = run(['gcc', '-o', 'p', 'a.o', '../h.o', '-pthread'], cwd=w)
        if l.rc: raise HarnessError(l.err)
        k = run(['./p', str(ctx.seed * 1000 + idx + 1), str(ctx.n(6000, 60000)), str(ctx.n(4000, 30000))], cwd=w, timeout=ctx.n(60, 300))
        res.evals += 1
        m = re.search(r'ops (\d+) bad', k.out)
        if m: res.events += int(m.group(1))
        m = re.search(r'histories (\d+) overlapping-pairs (\d+) cas-failures (\d+) sig (\w+)', k.out)
        if m:
            res.count('histories', int(m.group(1))); res.count('overlapping-operation-pairs', int(m.group(2))); res.count('failed-compare-exchanges', int(m.group(3))); res.distinct.add(m.group(4))
        if k.to:
            # progress can depend on the machine: only a repeated hang counts
            k2 = run(['./p', '7', '1500', '1500'], cwd=w, timeout=ctx.n(60, 120))
            if k2.to: res.violation(f'hang:{idx}:{h(src)}', f'threads do not finish (lost wake-up or lost update in a lock): {k.out[-300:]}', {'a.c': src, 'h.c': HARNESS}, 'run ./p')
            else: res.inconclusive += 1
        elif k.rc:
            bad = [x for x in k.out.split('\n') if x.startswith('BAD')]
            res.violation(f'atomic:{idx}:{h(src)}', (bad[0] if bad else f'program died rc={k.rc} {k.out[-200:]}')[:1200], {'a.c': src, 'h.c': HARNESS}, f'slimcc {" ".join(opt)} -c a.c; gcc -O2 -o p a.o h.c -pthread; ./p {ctx.seed * 1000 + idx + 1} 6000 4000')
        if idx == 0: res.sample = {'log': k.out.strip().split('\n')[-2:], 'ops': [x for x in src.split('\n') if x.startswith('static void o')][:4]}
        shutil.rmtree(w, ignore_errors=True)
        return res
    ctx.pmap(one, range(ctx.n(6, 60)), procs=2)
    if ctx.viol: return
    D = Diff(ctx, slim, common=('-w',), libs=['-latomic'], std_ref=('-std=gnu17',), san=False)

    def two(idx):
        res = Res()
        if idx < 0: D.go(res, 'header', {'t.c': HEADER}, [[], ['-O0']][idx % 2:idx % 2 + 1]); return res
        r = ctx.rng('s', idx)
        D.go(res, f's{idx}', {'t.c': seq_src(r, 30)}, [[], ['-O0']][idx % 2:idx % 2 + 1])
        return res
    ctx.pmap(two, [-1, -2] + list(range(ctx.n(60, 800))))


if __name__ == '__main__':
    main('C12', check, min_events=100000, min_distinct=3)
