"""C16: code generation options.  The same program is built under many option sets (optimisation, debug info, position independence, stack reuse, emulated TLS, sections,
common, link mode, and mixes of them over translation units) and the event logs of the programs have to be equal."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.diff import obs, diff_lines
from vlib import corpus

BASE = ['-O0', '-fno-pic', '-no-pie', '-fstack-reuse=none']


def tu_opts(r, pic):
    """options of one translation unit; pic: 'any' | 'pie' | 'pic'"""
    o = [r.choice(('-O0', '-O0', '-O1', '-O2', '-Os', '-O'))]
    if r.random() < .4: o.append(r.choice(('-g', '-g', '-g0', '-g3', '-ggdb')))
    o += {'any': r.choice(([], ['-fno-pic'], ['-fno-pie'], ['-fPIC'], ['-fpic'], ['-fPIE'], ['-fpie'], ['-fPIC', '-fno-PIC'], ['-fno-pic', '-fPIE'])),
          'pie': r.choice(([], ['-fPIE'], ['-fpie'], ['-fPIC'], ['-fpic'])), 'pic': r.choice((['-fPIC'], ['-fpic']))}[pic]
    if r.random() < .45: o.append(r.choice(('-fstack-reuse=none', '-fstack-reuse=all', '-fstack-reuse=named_vars')))
    if r.random() < .25: o.append('-ffunction-sections')
    if r.random() < .25: o.append('-fdata-sections')
    if r.random() < .15: o.append(r.choice(('-fno-omit-frame-pointer', '-fwrapv', '-fno-strict-aliasing', '-mno-red-zone', '-march=x86-64', '-fno-stack-protector')))
    r.shuffle(o) if pic == 'x' else None
    return o


def link_mode(r):
    return r.choice(((['-no-pie'], 'any'), (['-no-pie'], 'any'), ([], 'pie'), (['-pie'], 'pie'), (['-static'], 'any'), (['-static-pie'], 'pie')))


# --- multi-unit programs -------------------------------------------------------------------------------------------------------------
def units(r, shared):
    """-> {name: text}; objects and functions of every linkage referenced from every unit; t0 has main.  With shared, l*.c go into a library."""
    nu = r.randint(2, 4)
    names = ['t%d.c' % i for i in range(nu)] + (['l%d.c' % i for i in range(r.randint(1, 2))] if shared else [])
    hdr, defs = [], {n: [] for n in names}
    objs = []    # (name, kind, unit, static, n)
    for i in range(r.randint(6, 14)):
        u = r.choice(names)
        kind = r.choice(('int', 'int', 'arr', 'arr', 'st', 'ptr', 'fp', 'const', 'char', 'big'))
        link = r.choice(('ext', 'ext', 'ext', 'static', 'hidden', 'weak', 'tent', 'tls', 'tlsstatic', 'tlstent', 'fnstatic', 'align', 'section'))
        v = f'g{i}'
        if kind in ('ptr', 'fp') and not [o for o in objs if o[1] in ('int', 'arr')]: kind = 'int'
        if kind in ('ptr', 'fp') and link in ('tent', 'tlstent'): link = 'ext'
        if kind == 'const' and link in ('tent', 'tlstent'): link = 'static'
        base = {'int': 'long', 'arr': 'int', 'st': 'struct S', 'ptr': 'int *', 'fp': 'fn_t *', 'const': 'const int', 'char': 'char', 'big': 'long'}[kind]
        dim = {'arr': '[7]', 'big': '[300]', 'char': '[5]'}.get(kind, '')
        tls = '_Thread_local ' if link.startswith('tls') else ''
        static = link in ('static', 'tlsstatic', 'fnstatic')
        if kind == 'int': ini = f'{r.randint(-10**12, 10**12)}'
        elif kind == 'arr': ini = '{%s}' % ', '.join(str(r.randint(-10**6, 10**6)) for _ in range(r.randint(1, 7)))
        elif kind == 'big': ini = '{[%d] = %d, [299] = %d}' % (r.randrange(298), r.randint(1, 10**9), r.randint(1, 10**9))
        elif kind == 'st': ini = '{%d, %d.5, "s%d"}' % (r.randint(-99, 99), r.randint(0, 99), i)
        elif kind == 'char': ini = '"abcd"'
        elif kind == 'const': ini = str(r.randint(1, 10**6))
        elif kind == 'ptr':
            c = [o for o in objs if o[1] == 'arr' and not o[5] and (not o[3] or o[2] == u) and o[6] != 'fnstatic' and not (o[6] == 'hidden' and o[2][0] != u[0])]
            if not c: kind, base, ini, dim = 'int', 'long', '1', ''
            else:
                t = r.choice(c); ini = f'&{t[0]}[{r.randrange(7)}]' if r.random() < .6 else f'{t[0]} + {r.randrange(7)}'
        else:
            ini = f'fn_{r.choice(names)[:2]}'
        vis = link == 'hidden'
        attr = {'hidden': '__attribute__((visibility("hidden"))) ', 'weak': '__attribute__((weak)) ', 'align': f'_Alignas({r.choice((16, 32, 64, 128))}) ',
                'section': f'__attribute__((section(".data.x{i}"))) '}.get(link, '')
        if kind == 'const' and link == 'section': attr = ''
        if link in ('tent', 'tlstent'): ini = None
        d = f'{"static " if static else ""}{tls}{attr}{base} {v}{dim}' + (f' = {ini}' if ini is not None else '') + ';'
        if link == 'tent' and kind in ('int', 'arr') and r.random() < .5:
            d = f'{base} {v}{dim};\n{d}\nextern {base} {v}{dim};'
        vv = '__attribute__((visibility("hidden"))) ' if vis else ''
        if link == 'fnstatic':
            defs[u].append(f'static {base} *acc_{v}(void) {{ {d} return ({base} *){"" if dim else "&"}{v}; }}')
        else:
            defs[u].append(d)
        if not static: hdr.append(f'extern {vv}{tls}{base} {v}{dim};')
        objs.append((v, kind, u, static, dim, bool(tls), link))
    for n in names:
        hdr.append(f'int fn_{n[:2]}(int);')
    H = ['extern int printf(const char *, ...);', 'typedef int fn_t(int);', 'struct S { int a; double d; const char *s; };'] + hdr
    out = {}
    for n in names:
        L = ['#include "h.h"'] + defs[n]
        b = []
        vis = [o for o in objs if (o[2] == n or not o[3]) and not (o[6] == 'hidden' and o[2][0] != n[0])]
        k = 0
        for o in r.sample(vis, min(len(vis), r.randint(4, 10))):
            v, kind, u, st, dim, tls, link = o
            k += 1
            e = f'{n[:2]}.{k}.{v}'
            A = f'(*acc_{v}())' if link == 'fnstatic' and not dim else f'acc_{v}()' if link == 'fnstatic' else v
            j = r.randrange(7)
            if kind == 'int': b.append(f'printf("{e} %ld\\n", {A}); {A} {r.choice(("+=", "^=", "-="))} x + {j};')
            elif kind in ('arr',): b.append(f'printf("{e} %d %d\\n", {A}[{j}], {A}[x & 3]); {A}[{j}] += x; {A}[x & 3]++;')
            elif kind == 'big': b.append(f'{{ long s = 0; for (int i = 0; i < 300; i++) s += {A}[i] * i; printf("{e} %ld\\n", s); }} {A}[{j * 40}] = x;')
            elif kind == 'st': b.append(f'printf("{e} %d %g %s\\n", {A}.a, {A}.d, {A}.s ? {A}.s : "(null)"); {A}.a += x; {A}.d += 1; {{ struct S t = {A}; printf("{e}.c %d\\n", t.a); }}')
            elif kind == 'char': b.append(f'printf("{e} %d %d\\n", {A}[1], {A}[4]); {A}[{j % 5}] = (char)x;')
            elif kind == 'const': b.append(f'printf("{e} %d\\n", {A});')
            elif kind == 'ptr': b.append(f'printf("{e} %d\\n", *{A}); *{A} += 3;')
            elif kind == 'fp': b.append(f'if (x > 0) printf("{e} %d\\n", {A}(x - 2 - {j}));')
            if r.random() < .3 and kind in ('int', 'arr', 'char', 'big') and link != 'fnstatic': b.append(f'{{ void *p = &{v}; printf("{e}.eq %d\\n", p == (void *)&{v}); }}')
        o2 = r.choice(names)
        b.append(f'if (x > 3) return fn_{o2[:2]}(x - 3) + x;')
        b.append(f'{{ fn_t *f = x & 1 ? fn_{r.choice(names)[:2]} : &fn_{n[:2]}; if (x == 3) return f(0); }}')
        L.append(f'int fn_{n[:2]}(int x) {{\n' + '\n'.join('  ' + s for s in b) + f'\n  return x * {r.randint(2, 9)};\n}}')
        if n == 't0.c': L.append('int main(void) { int s = 0; for (int i = 0; i < 9; i++) { %s } printf("sum %%d\\n", s); return 0; }' % ' '.join(f's += fn_{m[:2]}(i);' for m in names))
        out[n] = '\n'.join(L) + '\n'
    out['h.h'] = '\n'.join(H) + '\n'
    return out


def build(cc, files, plan, link, d, tag, std):
    """plan: {file: options} compiled separately; lib: files starting with l go into a library"""
    objs, lobjs, cmds = [], [], []
    for f, o in plan.items():
        ob = f'{tag}_{f[:-2]}.o'
        c = [cc, *std, '-w', *o, '-c', '-o', ob, f]
        cmds.append(' '.join(c))
        x = run(c, cwd=d, timeout=60)
        if x.rc: return x, None, cmds
        (lobjs if f[0] == 'l' else objs).append(ob)
    if lobjs:
        c = [cc, '-shared', '-o', f'lib{tag}.so', *lobjs]; cmds.append(' '.join(c))
        x = run(c, cwd=d, timeout=60)
        if x.rc: return x, None, cmds
        objs += [f'./lib{tag}.so']
    c = [cc, *link, '-o', f'{tag}.exe', *objs, '-lm', '-lpthread']; cmds.append(' '.join(c))
    x = run(c, cwd=d, timeout=60)
    if x.rc: return x, None, cmds
    return x, run([f'./{tag}.exe'], cwd=d, timeout=30), cmds


def work(ctx, slim, cid):
    r = ctx.rng('p', cid)
    res = Res()
    d = os.path.join(ctx.work, f'w{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    multi = cid % 3 == 0
    shared = multi and r.random() < .35
    if multi:
        kind = 'units-shared' if shared else 'units'
        src = units(r, shared); std, gstd = [], 'gnu17'
    else:
        kind, t, std, gstd = corpus.program(r, r.choice(corpus.RUNNABLE), small=r.random() < .5)
        src = {'p.c': t}
    for f, t in src.items(): open(os.path.join(d, f), 'w', encoding='utf-8', errors='surrogateescape').write(t)
    cf = [f for f in src if f.endswith('.c')]
    logs = []
    res.count(kind)
    for k in range(5 if multi else 6):
        link, pic = link_mode(r)
        emu = r.random() < .15
        com = r.random() < .2
        if shared:
            link, pic = r.choice(((['-no-pie', '-fno-pic'], 'any'), ([], 'pie'), (['-pie', '-rdynamic'], 'pie')))
        if k == 0: plan = {f: BASE if f[0] != 'l' else ['-O0', '-fPIC'] for f in cf}; link = ['-no-pie']
        else:
            common = (['-femulated-tls'] if emu else []) + (['-fcommon'] if com else []) + (['-fvisibility=hidden'] if r.random() < .15 and not shared else [])
            plan = {f: tu_opts(r, 'pic' if f[0] == 'l' else pic) + common for f in cf}
            # non-PIC code that takes the address of a function/object of the library needs copy relocations: only with the plain executable
            link = link + (r.choice(([], [], ['-s'], ['-Wl,--gc-sections'])))
            if '-s' in link and kind == 'asm': link.remove('-s')
        x, o, cmds = build(slim, src, plan, link, d, f's{k}', std)
        if x.rc:
            gs = [a for a in link if a not in ('-nopie',)] + (['-no-pie'] if '-nopie' in link else [])
            res.violation(f'reject:{h(repr((src, plan, link)))}', f'{kind}: build fails with {cmds[-1]}: {x.err[:400]}', {**src}, '\n'.join(cmds))
            return res
        logs.append((obs(o), cmds))
        res.evals += 1
        res.events += len(logs[-1][0])
        res.distinct.add(h(repr((sorted(set(sum(plan.values(), []))), link, kind))))
    dif = {}
    for k, (l, c) in enumerate(logs[1:], 1):
        if l != logs[0][0]:
            for e, a, b in diff_lines(logs[0][0], l): dif.setdefault(e, (k, a, b))
    if dif:
        refs = []
        for cc, o in (('gcc', '-O0'), ('clang', '-O0'), ('gcc', '-O2')):
            plan = {f: [o, '-fPIC', '-fcommon', '-fno-strict-aliasing', '-ffp-contract=off', '-fno-builtin'] for f in cf}
            x, y, _ = build(cc, src, plan, [], d, 'r', [f'-std={gstd}'])
            if x.rc == 0: refs.append(obs(y))
        if len(refs) >= 2:
            bad = set()
            for q in refs[1:]: bad |= {e for e, _, _ in diff_lines(refs[0], q, 10**9)}
            agree = {}
            for l in refs[0]: agree.setdefault(l.split(' ', 1)[0], []).append(l)
            real = {e: v for e, v in dif.items() if e not in bad and (e in agree or e == 'order')}
        else: real = {}
        if real or len(refs) < 2 and kind == 'asm':
            e, (k, a, b) = next(iter((real or dif).items()))
            res.violation(f'differs:{h(repr(src))}', f'{kind}: event {e}: {a[:200]!r} with the base options, {b[:200]!r} with {" && ".join(logs[k][1])}', src, 'base: ' + ' && '.join(logs[0][1]) + '\nvariant: ' + ' && '.join(logs[k][1]))
        else:
            res.count('ambiguous')
            if os.environ.get('VERIF_DEBUG'): print(kind, cid, len(refs), list(dif.items())[:2], flush=True)
    if not res.sample: res.sample = dict(kind=kind, events=len(logs[0][0]), variants=[c[-1][:160] for _, c in logs[1:3]])
    return res


def check(ctx):
    slim = ctx.build('plain')
    ctx.rule = 'distinct = distinct (set of options, link mode, program family) combinations executed'
    ctx.assumptions = ['a difference counts only for events on which gcc -O0, gcc -O2 and clang agree']
    ctx.pmap(lambda c: work(ctx, slim, c), range(ctx.n(420, 5000)))


if __name__ == '__main__':
    main('C16', check, min_events=100000, min_distinct=300)
