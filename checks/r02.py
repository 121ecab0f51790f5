"""R02: the output depends on the input only.  Every program of the corpus is compiled by several builds of the compiler (gcc -O0/-O2/-O3, clang, the compiler built by itself once
and twice, address+UB-sanitised) and in perturbed processes (randomised and fixed address space, an allocator that fills, pads and poisons memory at random, token and arena
reclamation forced on, stdout, pipes and other output names, another environment); all texts have to be equal byte for byte, the preprocessed output and diagnostics included."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import core, corpus

core.FLAVORS['O3'] = ('gcc', ['-O3'], [])

SHIM = r'''
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/resource.h>
#include <malloc.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
static unsigned long long s; static int mode = -1; static unsigned long nreclaim, nalloc;
static unsigned rnd(void) { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 33; }
static void init(void) { mode = 0; char *e = getenv("SHIM"); if (e) { s = strtoull(e, 0, 10) * 2 + 1; mode = s & 1; } }
static unsigned char pat(void) { return rnd(); }
void *malloc(size_t n) {
  if (mode < 0) init();
  nalloc++;
  if (!mode) return __libc_malloc(n);
  size_t m = n + (rnd() & 7) * 16; unsigned char *p = __libc_malloc(m);
  if (p) memset(p, pat(), n);
  if (!(rnd() & 31)) __libc_malloc(rnd() & 4095);        /* lost blocks move what follows */
  return p;
}
void *realloc(void *q, size_t n) { if (!q) return malloc(n); size_t o = malloc_usable_size(q); if (!mode) return __libc_realloc(q, n);
  unsigned char *p = malloc(n); if (p) { memcpy(p, q, o < n ? o : n); free(q); } return p; }
void free(void *q) { if (q && mode > 0) { memset(q, pat(), malloc_usable_size(q)); if (rnd() & 1) return; } __libc_free(q); }
int getrusage(__rusage_who_t w, struct rusage *u) {
  memset(u, 0, sizeof *u);
  nreclaim++;
  /* everything from "always" to "from the k-th question on" */
  char *e = getenv("SHIM_RSS"); long k = e ? atol(e) : 0;
  u->ru_maxrss = nreclaim > k ? 1L << 40 : 0;
  return 0;
}
'''


def variants(r, ctx, slims, shim):
    pl = slims['plain']
    V = [(n, [s], {}, 'file') for n, s in slims.items() if n != 'plain']
    V.append(('again', [pl], {}, 'file'))
    V.append(('fixed-address-space', ['setarch', '-R', pl], {}, 'file'))
    V.append(('stdout', [pl], {}, 'stdout'))
    V.append(('other-name', [pl], {}, 'name'))
    V.append(('environment', [pl], {'PADDING' + 'x' * r.randint(1, 3000): 'y' * r.randint(0, 9000), 'LC_ALL': 'C', 'TZ': 'Asia/Tokyo', 'COLUMNS': '40'}, 'file'))
    V.append(('perturb', [pl], {'MALLOC_PERTURB_': str(r.randint(1, 255)), 'MALLOC_ARENA_TEST': '1', 'MALLOC_TOP_PAD_': str(r.randint(0, 1 << 20))}, 'file'))
    for i in range(2): V.append((f'allocator{i}', [pl], {'LD_PRELOAD': shim, 'SHIM': str(r.randint(1, 1 << 40)), 'SHIM_RSS': '1000000000'}, 'file'))
    V.append(('reclaim', [pl], {'LD_PRELOAD': shim}, 'file'))
    V.append(('reclaim-allocator', [pl], {'LD_PRELOAD': shim, 'SHIM': str(r.randint(1, 1 << 40))}, r.choice(('file', 'stdout'))))
    V.append(('reclaim-from', [pl], {'LD_PRELOAD': shim, 'SHIM': str(r.randint(1, 1 << 40)), 'SHIM_RSS': str(r.randint(1, 60))}, 'file'))
    V.append(('stage2-reclaim', [slims['stage2']], {'LD_PRELOAD': shim, 'SHIM': str(r.randint(1, 1 << 40))}, 'file'))
    return V


def break_it(r, t):
    """a likely ill-formed variant: the diagnostic is part of the output"""
    L = t.split('\n'); i = r.randrange(len(L))
    k = r.randrange(5)
    if k == 0: L[i] += ' )'
    elif k == 1: L.insert(i, 'int oops = undeclared_thing;')
    elif k == 2: L[i] = L[i].replace(';', '', 1)
    elif k == 3: L.insert(i, '_Static_assert(sizeof(int) == 3, "m");')
    else: L = L[:i]
    return '\n'.join(L)


def work(ctx, item, slims, shim):
    kind, arg = item
    r = ctx.rng('p', kind, arg)
    res = Res()
    d = os.path.join(ctx.work, f'w{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    opts = []
    if kind == 'file':
        src = open(arg, encoding='utf-8', errors='surrogateescape').read()
        if re.search(r'__(DATE|TIME|TIMESTAMP)__', src): src = re.sub(r'__(DATE|TIME|TIMESTAMP)__', '"x"', src)
        opts = ['-I', os.path.dirname(arg), '-std=c23']
    elif kind == 'macro':
        src = corpus.mod('p01').case(r, True)
    else:
        k, src, opts, _ = corpus.program(r, corpus.KINDS[arg % len(corpus.KINDS)])
        opts = list(opts)
        if r.random() < .3:
            from vlib import macroize
            src2 = None
            try: src2 = macroize.macroize(r, src)
            except Exception: pass
            src = src2 or src
    kk = r.random()
    if kk < .12 and kind != 'file': src = break_it(r, src)
    name = 't.c'
    with open(os.path.join(d, name), 'w', encoding='utf-8', errors='surrogateescape') as f: f.write(src)
    act = ['-E'] if kind == 'macro' or kk > .85 else ['-S']
    opts += r.choice(([], [], ['-O0'], ['-O1'], ['-fPIC'], ['-g'], ['-fno-pic'], ['-ffunction-sections'], ['-fdefer-ts'], ['-fcommon']))
    sub = [(os.path.dirname(s), '<build>') for s in slims.values()]

    def go(cmd, env, how, tag):
        out = {'file': 'o.s', 'name': f'dir {tag}/other.name', 'stdout': '-'}[how]
        if how == 'name': os.makedirs(os.path.join(d, os.path.dirname(out)), exist_ok=True)
        p = os.path.join(d, out)
        if how != 'stdout' and os.path.exists(p): os.unlink(p)
        e = dict(os.environ); e.update(env)
        if 'asan' in cmd[-1]: e.update(SAN_ENV)
        x = run([*cmd, *act, *opts, '-o', out, name], cwd=d, env=e, timeout=60)
        t = x.out if how == 'stdout' else open(p, encoding='utf-8', errors='surrogateescape').read() if os.path.exists(p) else None
        er = x.err
        if how == 'stdout' and x.rc: t = None
        for a, b in sub:
            if t: t = t.replace(a, b)
            er = er.replace(a, b)
        return x, (x.rc, t, er)
    x0, ref = go([slims['plain']], {}, 'file', 'r')
    if x0.to: res.genfail += 1; return res
    res.evals += 1
    res.count('diagnosed' if ref[0] else 'compiled'); res.distinct.add(h(repr(ref)))
    for n, cmd, env, how in variants(r, ctx, slims, shim):
        x, got = go(cmd, env, how, n)
        if x.to: res.inconclusive += 1; continue
        res.events += len(ref[1] or '') + len(ref[2]); res.count('v-' + n)
        if got == ref: continue
        if ref[1] is None and got[0] and got[2] == ref[2]: continue
        what = 'exit status' if got[0] != ref[0] else 'diagnostics' if got[2] != ref[2] else 'output'
        a, b = ((ref[1] or ''), (got[1] or '')) if what == 'output' else (ref[2], got[2])
        k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
        res.violation(f'{kind}:{n}:{h(src)}', f'{what} of variant {n} differs ({" ".join(act + opts)}): {ref[0]} {a[max(0, k - 60):k + 100]!r} / {got[0]} {b[max(0, k - 60):k + 100]!r}', {'t.c': src}, f'slimcc {" ".join(act + opts)} -o o.s t.c, variant {n} {" ".join(cmd)} {env if len(str(env)) < 400 else ""}')
        return res
    res.sample = res.sample or dict(case=str(item), bytes=len(ref[1] or ''))
    return res


def check(ctx):
    names = ['plain', 'fast', 'O3', 'clang', 'stage2', 'stage3', 'asan']
    slims = {n: ctx.build(n) for n in names}
    shim = os.path.join(ctx.work, 'shim.so')
    open(os.path.join(ctx.work, 'shim.c'), 'w').write(SHIM)
    x = run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-fno-builtin', '-o', shim, os.path.join(ctx.work, 'shim.c')])
    if x.rc: raise HarnessError(x.err)
    ctx.rule = 'distinct = distinct reference outputs'
    ctx.assumptions = ['the corpus of vlib/corpus.py, the test programs and the compiler\'s own sources are the inputs']
    src = os.path.dirname(slims['plain'])
    files = sorted(os.path.join(REPO, 'test', f) for f in os.listdir(os.path.join(REPO, 'test')) if f.endswith('.c')) if os.path.isdir(os.path.join(REPO, 'test')) else []
    own = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith('.c')]
    items = [('file', f) for f in own + files] + [('prog', i) for i in range(ctx.n(420, 8000))] + [('macro', i) for i in range(ctx.n(60, 1000))]
    ctx.pmap(lambda it: work(ctx, it, slims, shim), items)


if __name__ == '__main__':
    main('R02', check, min_events=1000000, min_distinct=300)
