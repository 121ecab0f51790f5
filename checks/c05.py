"""C05: struct/union/bit-field layout and the exact bits accesses touch (byte images vs gcc/clang)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.cint import *
from vlib.cfp import FPRELUDE, EMIT, F
from vlib.agg import *
from vlib.diff import Diff

PRE = FPRELUDE + AGG_PRE + r'''
extern void *memset(void *, int, unsigned long);
static void D(int id, const void *p_, int n) { const unsigned char *p = p_; printf("%d ", id); for (int i = 0; i < n; i++) printf("%02x", p[i]); printf("\n"); }
static void L(int id, long a, long b, long c) { printf("%d L %ld %ld %ld\n", id, a, b, c); }
static int one = 1;
'''


def program(r, nt):
    parts, calls, desc = [PRE], [], {}
    n = 0
    for u in range(nt):
        g = AggGen(r, f'S{u}_', packed=r.choice((0, .1, .3)), aligned=r.choice((0, .1, .2)), bitf=r.choice((.1, .35, .7)), flex=.08)
        a = g.agg(r.choice((0, 1, 1, 2, 3)))
        # flexible arrays of incomplete element type are fine; nothing else to avoid
        parts += g.defs
        TN = a.c
        body = []

        def add(s, d=''):
            nonlocal n
            body.append(s.replace('@', str(n))); desc[n] = (d or s) + '   // ' + g.defs[-1]; n += 1
        add(f'L(@, sizeof({TN}), _Alignof({TN}), sizeof(({TN}[3]){{}}));')
        subs = subobjects(a)
        for p, t in subs if len(subs) < 25 else r.sample(subs, 25):
            q = p[1:]
            sz = '0' if isinstance(t, Arr) and t.n < 0 else f'sizeof((({TN} *)0)->{q})'
            al = f'_Alignof((({TN} *)0)->{q})' if r.random() < .3 and False else '0'
            add(f'L(@, __builtin_offsetof({TN}, {q}), {sz}, (long)&(({TN} *)64)->{q} - 64);')
        add(f'{{ struct {{ char c; {TN} m; char d; }} q; L(@, (char *)&q.m - (char *)&q, &q.d - (char *)&q, sizeof q); }}' if not a.flex else f'L(@, 0, 0, 0);')
        lv = leaves(a)
        if len(lv) > 14: lv = r.sample(lv, 14)
        parts.append(f'static {TN} g{u}[3]; struct W{u} {{ char c1[16]; {TN} m{"" if a.flex else "[1]"}; char c2[{16 if not a.flex else 64}]; }};' if not a.flex else
                     f'static union {{ char b[sizeof({TN}) + 128]; {TN} s; }} g{u};')
        for p, t, w in lv:
            for _ in range(2):
                pat = r.choice((0, 0xff, 0xa5, 0x5a))
                k = r.randrange(6)
                decl = ''
                if a.flex:
                    obj, ref, img = f'g{u}', r.choice((f'g{u}.s{p}', f'(&g{u}.s)->{p[1:]}')), f'&g{u}, sizeof g{u}'
                    decl = f'{TN} *q = &g{u}.s;'
                    if r.random() < .4: ref = f'q->{p[1:]}'
                elif k == 0: ref, img = f'g{u}[1]{p}', f'g{u}, sizeof g{u}'
                elif k == 1: ref, img, decl = f'g{u}[i]{p}', f'g{u}, sizeof g{u}', 'int i = one;'
                elif k == 2: ref, img, decl = f'q->{p[1:]}', f'g{u}, sizeof g{u}', f'{TN} *q = g{u} + 1;'
                elif k == 3: ref, img, decl = f'w.m[0]{p}', '&w, sizeof w', f'struct W{u} w;'
                elif k == 4: ref, img, decl = f'l[1]{p}', 'l, sizeof l', f'{TN} l[3];'
                else: ref, img, decl = f'q[i]{p}', 'l, sizeof l', f'{TN} l[3], *q = l + 2; long i = -1;'
                if img.startswith('&g') or img.startswith('g'): fill = f'memset({"&" if a.flex else ""}g{u}, {pat}, sizeof g{u});'
                else: fill = f'memset({img.split(",")[0]}, {pat}, {img.split(",")[1]});'
                em = EMIT[t.k] if isinstance(t.k, F) else 'E'
                cast = '(u64)' if t.k == 'ptr' else ''
                v = value(r, t, w)
                ops = [f'{ref} = {v};']
                simple = isinstance(t.k, T)
                ek = r.random()
                if ek < .35:
                    add(f'{{ {decl} {fill} {em}(@, {cast}({ref} = {v})); D(@, {img}); {em}(@, {cast}{ref}); }}')
                elif ek < .55 or not simple or t.enum:
                    x = {'ptr': f'{ref} = {v};'}.get(t.k, None) or f'{ref} = {v};'
                    add(f'{{ {decl} {fill} {x} D(@, {img}); {em}(@, {cast}{ref}); }}')
                elif ek < .8:
                    op = r.choice(('+=', '-=', '|=', '&=', '^='))
                    rv = r.choice(('1', '3', '0x55', '-1', '(char)7', '2u', '5ll'))
                    init = f'{ref} = {r.choice(("0", "1", v if not (t.k.signed and t.k.bits >= 32) else "0"))};'
                    add(f'{{ {decl} {fill} {init} E(@, {ref} {op} {rv}); D(@, {img}); E(@, {ref}); }}')
                else:
                    init = f'{ref} = {r.choice(("0", "1", v if not (t.k.signed and t.k.bits >= 32) else "0"))};'
                    x = r.choice((f'++{ref}', f'{ref}++', f'--{ref}', f'{ref}--'))
                    add(f'{{ {decl} {fill} {init} E(@, {x}); D(@, {img}); E(@, {ref}); }}')
                if r.random() < .25 and simple and not a.flex:
                    # read in expression context and truth value, after whole-object copy
                    add(f'{{ {decl} {fill} {ref} = {v}; E(@, {ref} ? 1 : 2); E(@, {ref} + 1ll < 5); E(@, !{ref}); if ({ref}) E(@, 7); E(@, ({ref}) << 1 >> 1 & 0xff); }}' if not (t.k.signed) else
                        f'{{ {decl} {fill} {ref} = {v}; E(@, {ref} ? 1 : 2); if (!{ref}) E(@, 7); E(@, {ref} > 0); E(@, {ref} & 0x7ff); }}')
        # two adjacent stores and static initialisation by position
        if not a.flex:
            inits = []
            for p, t, w in (lv if len(lv) < 6 else r.sample(lv, 6)):
                inits.append(f'l{p} = {value(r, t, w)};')
            r.shuffle(inits)
            if a.kind == 'struct' or True:
                add(f'{{ {TN} l; memset(&l, {r.choice((0, 255))}, sizeof l); {" ".join(inits)} D(@, &l, sizeof l); {TN} c = l, *q = &c; D(@, q, sizeof *q); }}' if not any(t.c == 'long double' for p, t, w in lv) else 'E(@, 0);')
        parts.append(f'static void t{u}(void) {{\n  ' + '\n  '.join(body) + '\n}')
        calls.append(f't{u}();')
    return '\n'.join(parts) + '\nint main(void) {\n ' + '\n '.join(calls) + '\nreturn 0; }\n', desc


def check(ctx):
    ctx.rule = ('random struct/union trees (bit-fields of every type/width incl. zero-width and unnamed, nested, anonymous, inline, packed, aligned, _Alignas, flexible); sizeof/alignof/offsetof and '
                'the full byte image of object and surroundings after every store over 4 fill patterns; non-trivial: distinct (type, access) pairs')
    slim = ctx.build('plain')
    D = Diff(ctx, slim)

    P = 'extern int printf(const char *, ...);\n'
    probe(ctx, slim, 'packed-bitfield-page-end', '#include <sys/mman.h>\n#include <stdio.h>\nstruct __attribute__((packed)) A { int a:3, b:5, c:9; };\n'
          'int main() { char *m = mmap(0, 8192, 3, MAP_ANON|MAP_PRIVATE, -1, 0); mprotect(m + 4096, 4096, 0); struct A *p = (struct A *)(m + 4096 - sizeof *p); p->c = 2; p->a = 1; printf("%d\\n", p->c + p->a); }\n',
          msg='bit-field access outside the packed struct')
    probe(ctx, slim, 'packed-straddle', P + """struct __attribute__((packed)) S { char a; int b : 12; int c : 28; long d : 61; } s;
int main(void) { s.a = 1; s.b = -5; s.c = 123456; s.d = -77; unsigned char *p = (void *)&s; for (int i = 0; i < sizeof s; i++) printf("%02x", p[i]);
  printf(" %d %d %ld\\n", s.b, s.c, (long)s.d); }""", msg='bit-field of a packed struct straddling its declared unit')
    probe(ctx, slim, 'packed-member', P + """struct M { char c; int x __attribute__((packed)); }; int main(void) { printf("%d\\n", (int)sizeof(struct M)); }""",
          msg='packed attribute on a member')
    probe(ctx, slim, 'pragma-pack', P + """#pragma pack(push, 1)
struct M { char c; int x; };
#pragma pack(pop)
int main(void) { printf("%d\\n", (int)sizeof(struct M)); }""", msg='#pragma pack')

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        src, desc = program(r, 10)
        vs = [[[]], [['-O0']], [['-O1', '-fPIC']], [['-fno-pie', '-no-pie']]][idx % 4]
        D.go(res, 'layout', {'t.c': src}, vs, describe=lambda k: desc.get(int(k), '?')[:1200])
        res.distinct = {h(x) for x in desc.values()}
        if idx == 0: res.sample = {'case': desc[sorted(desc)[9]]}
        return res
    ctx.pmap(one, range(ctx.n(1000, 8000)))


if __name__ == '__main__':
    main('C05', check, min_events=10000, min_distinct=5000)
