"""C06: calls are ABI-compatible with other compilers (argument images, callee-saved/stack/x87 monitors, mixed objects)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.cint import *
from vlib.cfp import *
from vlib.agg import *
from vlib.diff import obs, diff_lines, dbg

HDR = r'''
#include <stdarg.h>
typedef unsigned long long u64;
''' + AGG_PRE + r'''
extern int printf(const char *, ...);
extern void *memcpy(void *, const void *, unsigned long);
extern void *memset(void *, int, unsigned long);
void E(const char *id, u64 v); void Ef(const char *id, float f); void Ed(const char *id, double f); void El(const char *id, long double f);
void mon(const char *id); void *pgend(unsigned long);
extern u64 sink; extern int one, zero;
'''
SUPPORT = r'''
#include <stdio.h>
#include <sys/mman.h>
extern void *memcpy(void *, const void *, unsigned long);
typedef unsigned long long u64;
void *pgend(unsigned long n) { unsigned long k = (n + 4095) / 4096 * 4096 + 4096; char *m = mmap(0, k + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(m, 4096, PROT_NONE); mprotect(m + k, 4096, PROT_NONE); return m + k - n; }
__attribute__((constructor)) static void lb(void) { static char b[1 << 16]; setvbuf(stdout, b, _IOLBF, sizeof b); }
void E(const char *id, u64 v) { printf("%s %llx\n", id, v); }
void Ef(const char *id, float f) { unsigned u; memcpy(&u, &f, 4); printf("%s f%x\n", id, u); }
void Ed(const char *id, double f) { u64 u; memcpy(&u, &f, 8); printf("%s d%llx\n", id, u); }
void El(const char *id, long double f) { u64 u; unsigned short s; memcpy(&u, &f, 8); memcpy(&s, (char *)&f + 8, 2); printf("%s l%x:%llx\n", id, s, u); }
u64 sink; int one = 1, zero = 0;
u64 mon_stack[4096], *mon_sp = mon_stack;
int mon_align, mon_saved, mon_rsp, mon_x87, mon_x87r, mon_df, mon_al, mon_cnt, mon_mx;
void mon(const char *id) { printf("%s.mon align=%d saved=%d rsp=%d df=%d al=%d n=%d\n", id, mon_align, mon_saved, mon_rsp, mon_df, mon_al, mon_cnt);
  mon_align = mon_saved = mon_rsp = mon_x87 = mon_x87r = mon_df = mon_al = mon_cnt = 0; }
__asm__(".text\n"
"mon_entry:\n"
" mov mon_sp(%rip), %r10\n pop (%r10)\n mov %rbx,8(%r10)\n mov %rbp,16(%r10)\n mov %r12,24(%r10)\n mov %r13,32(%r10)\n mov %r14,40(%r10)\n mov %r15,48(%r10)\n mov %rsp,56(%r10)\n"
" add $64,%r10\n mov %r10,mon_sp(%rip)\n incl mon_cnt(%rip)\n"
" test $15,%spl\n jz 1f\n incl mon_align(%rip)\n1:\n"
" fnstsw mon_sw(%rip)\n testw $0x3800,mon_sw(%rip)\n jz 1f\n incl mon_x87(%rip)\n1:\n"
" pushfq\n testl $0x400,(%rsp)\n jz 1f\n incl mon_df(%rip)\n1: popfq\n"
" movabs $0x1122334455667788,%rbx\n lea 1(%rbx),%rbp\n lea 2(%rbx),%r12\n lea 3(%rbx),%r13\n lea 4(%rbx),%r14\n lea 5(%rbx),%r15\n"
" lea mon_ret(%rip),%r10\n push %r10\n movabs $0xdeadbeefcafef00d,%r10\n jmp *%r11\n"
"mon_ret:\n"
" mov mon_sp(%rip), %r10\n sub $64,%r10\n mov %r10,mon_sp(%rip)\n"
" movabs $0x1122334455667788,%r11\n"
" cmp %rbx,%r11\n jne 2f\n inc %r11\n cmp %rbp,%r11\n jne 2f\n inc %r11\n cmp %r12,%r11\n jne 2f\n inc %r11\n cmp %r13,%r11\n jne 2f\n inc %r11\n cmp %r14,%r11\n jne 2f\n inc %r11\n cmp %r15,%r11\n je 1f\n2: incl mon_saved(%rip)\n1:\n"
" cmp %rsp,56(%r10)\n je 1f\n incl mon_rsp(%rip)\n1:\n"
" mov 56(%r10),%rsp\n mov 8(%r10),%rbx\n mov 16(%r10),%rbp\n mov 24(%r10),%r12\n mov 32(%r10),%r13\n mov 40(%r10),%r14\n mov 48(%r10),%r15\n"
" pushfq\n testl $0x400,(%rsp)\n jz 1f\n incl mon_df(%rip)\n1: popfq\n"
" movabs $0x9badbadbadbadbad,%rcx\n mov %rcx,%rsi\n mov %rcx,%rdi\n mov %rcx,%r8\n mov %rcx,%r9\n mov %rcx,%r11\n"
" movq %rcx,%xmm2\n movq %rcx,%xmm3\n movq %rcx,%xmm4\n movq %rcx,%xmm5\n movq %rcx,%xmm6\n movq %rcx,%xmm7\n movq %rcx,%xmm8\n movq %rcx,%xmm15\n"
" jmp *(%r10)\n"
"mon_short: incl mon_al(%rip)\n jmp mon_entry\n"
".local mon_sw\n.comm mon_sw,2,2\n");
'''


def stub(n, variadic_fp):
    """variadic_fp: None or number of vector registers the call must announce"""
    s = f'.globl s{n}\\ns{n}:\\n lea f{n}(%rip),%r11\\n'
    if variadic_fp is not None:
        if variadic_fp:
            s += f' cmpb ${variadic_fp},%al\\n jb mon_short\\n'
        s += ' cmpb $8,%al\\n ja mon_short\\n'
    return f'__asm__(".text\\n{s} jmp mon_entry\\n");'


def setter(r, var, t):
    """statements giving var (of type t) a value; every byte defined beforehand by memset for aggregates"""
    if isinstance(t, Sc):
        return f'{var} = {value(r, t)};'
    out = []
    lv = leaves(t)
    if t.kind == 'union' and lv:
        lv = [max(lv, key=lambda x: x[1].size)] if r.random() < .6 else [r.choice(lv)]
    for p, s, w in lv:
        out.append(f'{var}{p} = {value(r, s, w)};')
    return ' '.join(out)


def emitter(var, t, ident, chosen=None):
    if isinstance(t, Sc):
        em = EMIT[t.k] if isinstance(t.k, F) else 'E'
        return f'{em}("{ident}", {"(u64)" if t.k == "ptr" else ""}{var});'
    out = []
    for p, s, w in (chosen if chosen is not None else leaves(t)):
        em = EMIT[s.k] if isinstance(s.k, F) else 'E'
        out.append(f'{em}("{ident}{p}", {"(u64)" if s.k == "ptr" else ""}{var}{p});')
    return ' '.join(out)


class Fn:
    pass


def union_free(t):
    if isinstance(t, Arr): return union_free(t.e)
    if isinstance(t, Ag): return t.kind == 'struct' and all(union_free(m.ty) for m in t.mems)
    return True


def program(r, nf, overalign):
    hdr, A, B, C = [HDR], [], [], []
    desc = {}
    g = AggGen(r, 'S', packed=.06, aligned=.1 if overalign else 0, bitf=.15, flex=0, unions=.15, maxmem=4, anon=.1)
    pool = []
    for _ in range(8):
        g.maxmem = r.choice((1, 2, 2, 3, 4, 6))
        a = g.agg(r.choice((0, 0, 0, 1, 2)))
        pool.append(a)
    # eightbyte-focused small structs
    for _ in range(6):
        a = Ag('struct', f'X{len(pool)}')
        tot = 0
        lim = r.choice((4, 8, 12, 16, 16, 16, 17, 24))
        while tot < lim and len(a.mems) < 6:
            t = r.choice([FLS[0], FLS[0], FLS[1], INTS[1], INTS[4], INTS[6], INTS[8], PTR, FLS[2] if r.random() < .1 else FLS[1]])
            if r.random() < .2: t2 = Arr(t, r.choice((1, 2, 3)))
            else: t2 = t
            a.mems.append(Mem(g.nm(), t2)); tot += t2.size
        g.emit(a)
        pool.append(a)
    hdr += g.defs
    hdr.append('struct Empty { };') 
    main = []

    def ptype(k=.45):
        if r.random() < k: return r.choice(pool)
        q = r.random()
        if q < .5: return r.choice(INTS)
        if q < .8: return r.choice(FLS[:2])
        if q < .88: return FLS[2]
        if q < .95: return PTR
        return r.choice((EU, ES, FPTR))
    fns = []
    for n in range(nf):
        f = Fn()
        f.n = n
        f.variadic = r.random() < .35
        f.ret = None if r.random() < .12 else ptype(.5)
        f.params = [ptype() for _ in range(r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16)))]
        if r.random() < .12: f.params = [r.choice(INTS) for _ in range(r.randrange(4, 12))]
        if r.random() < .12: f.params = [r.choice(FLS[:2]) for _ in range(r.randrange(4, 14))]
        if f.variadic and not f.params: f.params = [INTS[6]]
        f.extra = [ptype(.35) for _ in range(r.choice((0, 1, 2, 3, 5, 8, 14)))] if f.variadic else []
        f.rt = f.ret.c if f.ret else 'void'
        ps = ', '.join(f'{t.c} a{i}' for i, t in enumerate(f.params)) or 'void'
        f.proto = f'{f.rt} @({ps}{", ..." if f.variadic else ""})'
        fns.append(f)
        okold = all(isinstance(t, Ag) or t.k == 'ptr' or (isinstance(t.k, T) and t.k.rank >= 3) or t.k in (DBL, LDB) for t in f.params)
        f.old = not f.variadic and okold and r.random() < .4
        hdr.append(f.proto.replace('@', f'f{n}') + '; ' + f.proto.replace('@', f's{n}') + ';')
        if f.old: hdr.append(f'extern {f.rt} u{n}(); ')
        hdr.append(f'extern {f.rt} (*volatile p{n})({ps}{", ..." if f.variadic else ""});')
    for f in fns:
        n = f.n
        # ---- callee
        body = []
        for i, t in enumerate(f.params):
            lv = None
            body.append(emitter(f'a{i}', t, f'{n}.a{i}', pick(r, t, f, i)))
        if f.variadic:
            def get(t, j, ap):
                pr = t
                if isinstance(t, Sc):
                    if t.k is FLT: pr = FLS[1]
                    elif isinstance(t.k, T) and t.k.rank < 3: pr = INTS[6]
                v = f'v{j}'
                return f'{pr.c} {v} = va_arg({ap}, {pr.c}); {emitter(v, pr, f"{n}.v{j}", pick(r, t, f, 100 + j))}'
            seq = f.extra
            k = r.random()
            body.append(f'va_list ap; va_start(ap, a{len(f.params) - 1});')
            if k < .3:
                cut = r.randrange(0, len(seq) + 1)
                for j in range(cut): body.append('{ ' + get(seq[j], j, 'ap') + ' }')
                body.append(f'va_list aq; va_copy(aq, ap); h{n}({cut}, ap); va_end(ap); printf("{n}.again\\n");')
                for j in range(cut, len(seq)): body.append('{ ' + get(seq[j], j, 'aq') + ' }')
                body.append('va_end(aq);')
                hb = ' '.join(f'if (from <= {j}) {{ {get(seq[j], j, "ap")} }}' for j in range(len(seq)))
                C.append(f'void h{n}(int from, va_list ap) {{ {hb} }}')
                hdr.append(f'void h{n}(int from, va_list ap);')
            elif k < .5:
                body.append(f'hp{n}(&ap); va_end(ap); va_start(ap, a{len(f.params) - 1}); printf("{n}.again\\n");')
                for j in range(len(seq)): body.append('{ ' + get(seq[j], j, 'ap') + ' }')
                body.append('va_end(ap);')
                hb = ' '.join(f'{{ {get(seq[j], j, "*ap")} }}' for j in range(len(seq)))
                C.append(f'void hp{n}(va_list *ap) {{ {hb} }}')
                hdr.append(f'void hp{n}(va_list *ap);')
            else:
                for j in range(len(seq)): body.append('{ ' + get(seq[j], j, 'ap') + ' }')
                body.append('va_end(ap);')
        # clobber parameters
        for i, t in enumerate(f.params):
            if r.random() < .4: body.append(f'memset(&a{i}, 0x77, sizeof a{i});')
        if f.ret:
            if isinstance(f.ret, Sc): body.append(f'return {value(r, f.ret)};')
            elif r.random() < .3: body.append(f'{f.rt} *res = pgend(sizeof *res); {setter(r, "(*res)", f.ret)} return *res;')
            else: body.append(f'{f.rt} res; memset(&res, 0, sizeof res); {setter(r, "res", f.ret)} return res;')
        loc = f'char big[{r.choice((1, 40, 300))}]; memset(big, {n & 255}, sizeof big); sink += big[0];' if r.random() < .3 else ''
        B.append(f.proto.replace('@', f'f{n}') + ' {\n  ' + loc + '\n  '.join(body) + '\n}')
        C.append(f'{f.rt} (*volatile p{n})({", ".join(t.c for t in f.params) or "void"}{", ..." if f.variadic else ""}) = s{n};')
        # ---- caller
        cb = []
        args = []

        def dyn():   # an argument that moves the stack pointer while it is evaluated
            return r.choice(('int w_ = one; (void)w_;', 'int w_ = one; (void)w_;', 'char w_[one * 21]; memset(w_, 0x5a, sizeof w_); sink += w_[one];',
                             'char *w_ = __builtin_alloca(one * 21); memset(w_, 0x5b, 21); sink += w_[one];',
                             'for (int k_ = one; k_ < 4; k_++) { long w_[k_ * 3]; memset(w_, k_, sizeof w_); sink += w_[k_]; }'))
        for i, t in enumerate(f.params + f.extra):
            v = f'x{i}'
            if isinstance(t, Ag):
                k = r.random()
                if k < .6:
                    cb.append(f'{t.c} {v}; memset(&{v}, 0, sizeof {v}); {setter(r, v, t)}'); args.append(v if r.random() < .9 else f'({{ {dyn()} {v}; }})')
                elif k < .8:
                    cb.append(f'static {t.c} {v}[2]; {setter(r, v + "[1]", t)}'); args.append(f'{v}[one]')
                else:
                    cb.append(f'{t.c} *{v} = pgend(sizeof *{v}); {setter(r, f"(*{v})", t)}'); args.append(f'*{v}')
            else:
                k = r.random()
                if k < .35 and not t.enum and not (t.k == 'ptr'):
                    args.append(value(r, t) if i >= len(f.params) or isinstance(t.k, F) else f'({t.c}){value(r, t)}')
                    if i >= len(f.params): args[-1] = f'({t.c})({args[-1]})'
                elif k < .6:
                    cb.append(f'{t.c} {v} = {value(r, t)};'); args.append(v)
                elif k < .8:
                    cb.append(f'volatile {t.c.replace("void *", "u64") if t.k == "ptr" else t.c} {v} = {"(u64)" if t.k == "ptr" else ""}{value(r, t)};')
                    args.append(f'({t.c}){v}' if t.k == 'ptr' else f'({t.c})({v} + zero)' if isinstance(t.k, T) and not t.k.bool else v)
                else:
                    cb.append(f'{t.c} {v} = {value(r, t)};'); args.append(f'(zero ? {value(r, t) if not t.enum else v} : {v})' if t.k != 'ptr' and not t.enum and (i < len(f.params)) else f'({{ {dyn()} {v}; }})')
        al = ', '.join(args)
        names = [f'f{n}', f's{n}', f's{n}', f'p{n}', f'(*p{n})', f'(one ? s{n} : f{n})']
        if f.old: names += [f'u{n}', f'u{n}']
        k = r.random()
        callee = r.choice(names)
        call = f'{callee}({al})'
        if f.ret is None: cb.append(call + ';')
        elif isinstance(f.ret, Sc):
            if isinstance(f.ret.k, T) and r.random() < .4: cb.append(f'E("{n}.r", {call} + {r.choice(("1", "2ull", "x_"))}); '.replace('x_', 'one'))
            elif isinstance(f.ret.k, F) and r.random() < .3:
                cb.append(f'{EMIT[f.ret.k]}("{n}.r", {call} * 2 + 1.5f);')
            else: cb.append(f'{f.rt} res = {call}; {emitter("res", f.ret, f"{n}.r")}')
        else:
            lv = leaves(f.ret)
            if k < .25 and lv:
                p, s, w = r.choice(lv)
                if union_free(f.ret):
                    em = EMIT[s.k] if isinstance(s.k, F) else 'E'
                    cb.append(f'{em}("{n}.r{p}", {"(u64)" if s.k == "ptr" else ""}{call}{p});')
                else: cb.append(call + ';')
            else:
                ch = lv if union_free(f.ret) else []
                if k < .5: cb.append(f'{f.rt} res = {call}; {emitter("res", f.ret, f"{n}.r", ch)}')
                elif k < .75: cb.append(f'{f.rt} arr[3]; memset(arr, 0x33, sizeof arr); arr[one] = {call}; {emitter("arr[1]", f.ret, f"{n}.r", ch)} {{ unsigned char *q = (void *)arr; int bad = 0; for (int i = 0; i < (int)sizeof arr[0]; i++) bad += q[i] != 0x33 || q[i + 2 * sizeof arr[0]] != 0x33; E("{n}.red", bad); }}')
                else:
                    cb.append(f'{f.rt} *q = &(struct {{ {f.rt} m; }}){{ {call} }}.m; {emitter("(*q)", f.ret, f"{n}.r", ch)}')
        if r.random() < .5:
            for i, t in enumerate(f.params):
                if args[i] == f'x{i}' and union_free(t): cb.append(emitter(args[i], t, f'{n}.post{i}'))
        cb.append(f'mon("{n}");')
        pre = r.choice(('', '', 'char pad[3]; sink += sizeof pad;', 'int vl = one + 2; int vla[vl]; vla[0] = 1; sink += vla[0];', 'char *al_ = __builtin_alloca(one * 13); al_[12] = 3; sink += al_[12];'))
        A.append(f'static void c{n}(void) {{\n  {pre}\n  ' + '\n  '.join(cb) + '\n}')
        main.append(f'printf("#{n}\\n"); c{n}();')
        desc[n] = f.proto + ' called as ' + call[:600]
    # nested calls: results passed straight as arguments
    C2 = []
    stubs = []
    for f in fns:
        nfp = None
        if f.variadic:
            regs = 0
            for t in f.params + f.extra:
                if isinstance(t, Sc) and t.k in (FLT, DBL): regs += 1
            nfp = min(8, regs)
        stubs.append(stub(f.n, nfp))
        if f.old: stubs.append(f'__asm__(".globl u{f.n}\\n.set u{f.n}, s{f.n}\\n");')
    A.append('int main(void) {\n  ' + '\n  '.join(main) + '\n  return 0;\n}')
    files = {'h.h': '\n'.join(hdr) + '\n', 'a.c': '#include "h.h"\n' + '\n'.join(A) + '\n', 'b.c': '#include "h.h"\n' + '\n'.join(B) + '\n',
             'c.c': '#include "h.h"\n' + '\n'.join(C) + '\n', 's.c': SUPPORT + '\n'.join(stubs) + '\n'}
    return files, desc


def pick(r, t, f, i):
    """leaves to print: for unions only bytes every writer defines -> the first leaf of maximal size is ambiguous, so print a dump-free subset"""
    if isinstance(t, Sc): return None
    return leaves(t) if union_free(t) else [x for x in leaves(t) if x[1].k is not BOOL and not isinstance(x[1].k, F) and not x[1].enum and x[2] is None]


GF = ['-w', '-std=gnu17', '-fno-strict-aliasing', '-ffp-contract=off']


def check(ctx):
    ctx.rule = ('random signatures (0-16 fixed parameters, variadic tails, all scalar types, structs/unions of every eightbyte class mix, packed, over-aligned, bit-fields, unprototyped calls) with caller and callee '
                'built by slimcc/gcc/clang in all pairings; argument/return images and a register-save/stack-alignment/x87/DF/al monitor around every stub call; non-trivial: distinct signatures')
    slim = ctx.build('plain')
    CCS = {'slim': [slim, '-w', '-std=gnu17'], 'gcc': ['gcc', *GF], 'clang': ['clang', *GF], 'gcc2': ['gcc', '-O2', *GF]}

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        files, desc = program(r, 14, idx % 3 == 0)
        d = os.path.join(ctx.work, f'w{os.getpid()}')
        os.makedirs(d, exist_ok=True)
        for k, v in files.items():
            open(os.path.join(d, k), 'w').write(v)
        so = [[], ['-O0'], ['-O1', '-fPIC'], ['-fno-pie']][idx % 4]
        pie = ['-no-pie'] if idx % 4 == 3 else []
        gp = ['-fno-pie'] if pie else []
        cache = {}

        def obj(cc, f):
            if (cc, f) in cache: return cache[cc, f]
            o = f'{f}-{cc}.o'
            c = run(CCS[cc] + (so if cc == 'slim' else gp) + ['-c', f + '.c', '-o', o], cwd=d, timeout=60)
            cache[cc, f] = (o, c)
            return cache[cc, f]

        def link(ca, cb, ccc, name):
            os_ = []
            for cc, f in ((ca, 'a'), (cb, 'b'), (ccc, 'c'), ('gcc', 's')):
                o, c = obj(cc, f)
                if c.rc: return cc, c, None
                os_.append(o)
            c = run(['gcc', *pie, '-o', name, *os_], cwd=d, timeout=60)
            if c.rc: return 'link', c, None
            return None, c, run([os.path.join(d, name)], cwd=d, timeout=20)
        who, c, rr = link('gcc', 'gcc', 'gcc', 'ref')
        if rr is None or rr.sig or rr.to:
            res.genfail += 1
            res.genfail_msgs.append(f'{who} {c.err[:500]} {rr}')
            return res
        want = obs(rr)
        res.evals += 1
        res.distinct = {h(x) for x in desc.values()}
        combos = [('slim', 'gcc', 'slim'), ('gcc', 'slim', 'gcc'), ('slim', 'slim', 'gcc'), ('slim', 'clang', 'gcc'), ('clang', 'slim', 'slim'), ('gcc2', 'slim', 'slim'), ('slim', 'gcc2', 'gcc')]
        combos = [combos[0], combos[1], combos[2 + idx % 5]] if ctx.tier == 'quick' else combos
        ambiguous = None
        for cb in combos:
            who, c, rr = link(*cb, 'mix')
            if rr is None:
                if who == 'slim':
                    oc = run(CCS['clang'] + ['-c', 'a.c', '-o', 'z.o'], cwd=d).rc or run(CCS['clang'] + ['-c', 'b.c', '-o', 'z.o'], cwd=d).rc or run(CCS['clang'] + ['-c', 'c.c', '-o', 'z.o'], cwd=d).rc
                    if oc == 0:
                        res.violation('reject:' + h(files['h.h']), f'slimcc rejects: {c.err[:800]}', files)
                        return res
                res.count('ambiguous-' + str(who)); dbg('amb', who, c.err[:500])
                continue
            got = obs(rr) if not rr.to else ['timeout']
            res.events += len(got)
            res.count('-'.join(cb[:2]))
            if got == want: continue
            if ambiguous is None:
                ambiguous = set()
                for alt in (('clang', 'gcc', 'gcc'), ('gcc', 'clang', 'clang'), ('gcc2', 'gcc2', 'gcc'), ('clang', 'clang', 'clang'), ('gcc2', 'gcc', 'gcc')):
                    w2, c2, r2 = link(*alt, 'alt')
                    if r2 is None or r2.to:
                        ambiguous = None
                        break
                    ambiguous |= {k for k, _, _ in diff_lines(want, obs(r2), 10 ** 9)}
                if ambiguous is None:
                    res.inconclusive += 1
                    res.count('ambiguous-ref'); dbg('ambref', c2.err[:300])
                    return res
            # gcc and clang disagree about how something in this call is passed: what follows it in the same call is no evidence either
            fns = {k.lstrip('#').split('.')[0] for k in ambiguous}
            real = [x for x in diff_lines(want, got, 10 ** 9) if x[0] not in ambiguous and x[0].lstrip('#').split('.')[0] not in fns]
            if real:
                k, x, y = real[0]
                n = k.lstrip('#').split('.')[0]
                res.violation(f'abi:{h(files["h.h"])}', f'caller={cb[0]} callee={cb[1]} options {so}: event {k}: expected {x!r} got {y!r} ({len(real)} differing); {desc.get(int(n)) if n.isdigit() else ""}', files,
                              f'caller a.c by {cb[0]}, callee b.c by {cb[1]}, helper c.c by {cb[2]}, s.c by gcc')
                return res
            res.count('ambiguous-line'); dbg('ambline', diff_lines(want, got)[:2])
            res.inconclusive += 1
        if idx == 1: res.sample = {'signature': desc[0]}
        return res
    ctx.pmap(one, range(ctx.n(480, 4000)))
    probe(ctx, slim, 'x87-control-word', '#include <fenv.h>\n#include <stdio.h>\nvolatile long double a = 1, b = 3, c;\n'
          'int main() { fesetround(FE_UPWARD); c = a / b; printf("%d\\n", fegetround() == FE_UPWARD); }\n', libs=('-lm',), msg='x87 control word is not preserved by long double code')


if __name__ == '__main__':
    main('C06', check, min_events=10000, min_distinct=1000)
