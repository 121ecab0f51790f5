"""D02: dependency output.  Random include graphs (odd file names, system directories, repeated, conditional, guarded and forced inclusions) x dependency options.  The rule
slimcc writes is compared with gcc's (targets, where it is written, set of files by identity), no file may be listed twice, and the rule is given to make: the target has to
be rebuilt when and only when a file that was included is touched, and with -MP also when a header is gone."""
import os, sys, shlex
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *

ODD = ['h h.h', 'c$d.h', 'e#f.h', 'x$$y.h', "q'q.h", 'a&b.h', 't(1).h', 'z~.h', 'semi,.h', 'plus+.h', 'w  w.h', '$(x).h', '@a.h', 'x[1].h', 'q!.h']


class G:
    def __init__(s, r):
        s.r = r; s.files = {}
        odd = r.random() < .5
        n = r.randint(2, 7)
        s.hn = [r.choice(ODD) if odd and r.random() < .5 else f'h{i}.h' for i in range(n)]
        if r.random() < .4: s.hn[r.randrange(n)] = r.choice(('main0.h', 'mn0.h', 'main0', 'main1.h', 'm.x0.h', 'main0.c.h'))
        s.hn = list(dict.fromkeys(s.hn))
        s.dirs = ['inc', r.choice(('sp ace', 'd#r', 'i$', 'i2', 'i2')) if odd else 'i2', 'sys', 'sys/bits', 'sub'] + r.choice(([], ['sysx'], ['system/in']))
        r.shuffle(s.dirs)
        for i, n in reversed(list(enumerate(s.hn))):
            for d in {x for x in ['.'] + s.dirs if r.random() < .3} | {r.choice(s.dirs)}:
                s.files[os.path.normpath(f'{d}/{n}')] = s.hdr(i, f'{d}/{n}')
        s.opt = []
        for d in s.dirs:
            if d == 'sub': continue
            s.opt += ['-isystem', d] if d in ('sys', 'sys/bits') else ['-I', d] if r.random() < .5 else ['-I' + d]
        s.main = []
        if r.random() < .3: s.opt += ['-include', 'forced file.h' if r.random() < .3 else 'forced.h']; s.files[s.opt[-1]] = '\n'.join(s.body(0)) + '\n'
        for m in range(r.choice((1, 1, 1, 2))):
            f = r.choice(('', 'sub/', '')) + r.choice(('main', 'main', 'm.x', 'm n' if odd else 'mn', 'a$b' if odd else 'ab', 'c#' if odd else 'cc')) + str(m) + '.c'
            s.main.append(f)
            s.files[f] = '\n'.join(s.body(-1) + s.body(-1) + ['int x;']) + '\n'

    def inc(s, lvl):
        r = s.r
        c = s.hn[lvl + 1:] if lvl >= 0 else s.hn
        if not c: return ['#define Z']
        n = r.choice(c)
        f = r.choice((f'"{n}"', f'<{n}>', f'"./{n}"', f'"sub/{n}"', f'<../sub/{n}>', f'<sub/../{n}>', f'"../inc/{n}"', f'"{n}"', f'<{n}>', f'<bits/{n}>'))
        return [f'#if __has_include({f})', f'#include {f}', '#endif']

    def body(s, lvl):
        r = s.r; L = []
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < .6: L += s.inc(lvl)
            elif k < .65: L += ['#if 0', *s.inc(lvl)[1:2], '#endif']
            elif k < .7: L += s.inc(lvl)[:1] + ['#define Y', '#endif']         # probed, not included
            elif k < .75: L += [f'#line 7 "{r.choice(s.hn)}"']
            elif k < .8: L += ['#line 9 "ghost.h"']
            elif k < .85: L += [f'#ifdef {r.choice("PQ")}', *s.inc(lvl), '#else', *s.inc(lvl), '#endif']
            elif k < .9: L += ['#define ' + r.choice('PQ')]
            else: L += s.inc(lvl) * 2
        return L

    def hdr(s, i, p):
        r = s.r; L = s.body(i); g = 'G_' + re.sub(r'\W', '_', p) + str(len(p))
        k = r.random()
        if k < .4: L = [f'#ifndef {g}', f'#define {g}', *L, '#endif']
        elif k < .6: L = ['#pragma once', *L]
        return f'// {p}\n' + '\n'.join(L) + '\n'


def parse(t):
    """-> list of (targets, prerequisites) with make's quoting undone"""
    t = t.replace('\\\n', ' ')
    rules = []
    for ln in t.split('\n'):
        if not ln.strip(): continue
        w, cur, i, tg, sp = [], '', 0, None, False
        while i < len(ln):
            c = ln[i]
            if c == '\\':
                j = i
                while j < len(ln) and ln[j] == '\\': j += 1
                n = j - i
                if j < len(ln) and ln[j] in ' \t#':
                    cur += '\\' * (n // 2)
                    if n % 2: cur += ln[j]; i = j + 1; continue
                    i = j; continue
                cur += '\\' * n; i = j; continue
            if c == '$' and ln[i + 1:i + 2] == '$': cur += '$'; i += 2; continue
            if c == '#': break
            if c in ' \t':
                if cur: w.append(cur)
                cur = ''; i += 1; continue
            if c == ':' and tg is None and (i + 1 == len(ln) or ln[i + 1] in ' \t'):
                if cur: w.append(cur)
                cur = ''; tg = w; w = []; i += 1; continue
            cur += c; i += 1
        if cur: w.append(cur)
        rules.append((tg, w))
    return rules


def tree(d):
    return {os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs}


def work(ctx, slim, cid):
    r = ctx.rng('p', cid)
    res = Res()
    g = G(r)
    base = os.path.join(ctx.work, f'w{os.getpid()}')
    shutil.rmtree(base, ignore_errors=True)
    mm = r.random() < .5
    multi = len(g.main) > 1
    kind = r.choice(('M', 'MD')) if not multi else 'MD'
    opt = ['-M' + ('M' if mm else '')] if kind == 'M' else ['-M' + ('MD' if mm else 'D'), r.choice(('-c', '-c', '-c', '-S', '-E'))]
    o = None
    odd = r.random() < .3
    outs = ['out.o', 'obj/out.o', 'obj/a.b.o', 'noext', 'obj/noext', './o.obj', 'sub/o.o', 'd.dir/noext'] + (['obj/o p.o', 'x$y.o', 'ob#j.o'] if odd else [])
    if not multi and r.random() < .6: o = r.choice(outs); opt += ['-o', o] if r.random() < .5 else ['-o' + o]
    mf = None
    if not multi and r.random() < .4 and not (kind == 'M' and o): mf = r.choice(('dep.d', 'obj/x y.d', 'obj/dep', 'deps')); opt += ['-MF', mf]
    mt = []
    if not multi and r.random() < .4:
        for _ in range(r.choice((1, 1, 2))):
            q = r.random() < .5
            t = r.choice(('tgt', 'a/b.o', 'obj/x.o', './rel.o') + (('t t', 'q$q', 'p#p', 'b\\ b') if q else ()))
            if t in [x for _, x in mt]: continue
            mt.append((q, t)); opt += ['-MQ' if q else '-MT', t]
    mp = r.random() < .5
    if mp: opt.append('-MP')
    parts = [opt, g.opt, g.main]; r.shuffle(parts)
    if '-x' in opt: pass
    args = sum(parts, [])
    D = {}
    for who in ('g', 's'):
        d = D[who] = os.path.join(base, who)
        for x in g.dirs + ['obj', 'd.dir', 'sub']: os.makedirs(os.path.join(d, x), exist_ok=True)
        for f, t in g.files.items(): open(os.path.join(d, f), 'w').write(t)
    before = tree(D['g'])
    a = run(['gcc', '-w', '-std=gnu17', '-nostdinc', '-fno-working-directory', *args], cwd=D['g'])
    if a.rc: res.count('discard'); return res
    res.evals += 1
    b = run([slim, '-w', '-nostdinc', *args], cwd=D['s'])
    files = {f: t for f, t in g.files.items()}
    desc = f'slimcc -nostdinc {shlex.join(args)}'

    def viol(k, m): res.violation(f'{k}:{h(repr((g.files, args)))}', f'{k}: {m}\n{desc}', files, desc)
    if b.rc or b.to: viol('reject', b.err[:400]); return res
    na, nb = tree(D['g']) - before, tree(D['s']) - before
    if na != nb: viol('outputs', f'files created: expected {sorted(na)}, slimcc {sorted(nb)}'); return res
    dep = [x for x in na if open(os.path.join(D['g'], x), 'rb').read(4) != b'\x7fELF' and (x == mf or x.endswith('.d') and not mf)] if kind == 'MD' or mf else [o] if o else [None]
    dep = [os.path.normpath(x) if x else x for x in dep]
    if kind == 'MD' and not dep: raise HarnessError(f'no dependency file found: {na}')
    for f in dep:
        ta, tb = ((open(os.path.join(D[w], f)).read() for w in 'gs') if f else (a.out, b.out))
        ra, rb = parse(ta), parse(tb)
        if not rb: viol('empty', f'{f}: no rule'); return res
        nd = lambda l: sorted(re.sub(r'^(\./)+', '', x) for x in l or [])
        if nd(ra[0][0]) != nd(rb[0][0]): viol('target', f'{f}: targets {ra[0][0]} expected, slimcc {rb[0][0]}'); return res
        ident = lambda w, x: os.path.realpath(os.path.join(D[w], x))[len(D[w]) + 1:]
        pa, pb = {ident('g', x) for x in ra[0][1]}, {ident('s', x) for x in rb[0][1]}
        if pa != pb and mm:
            # gcc flags a directory as a system directory when a system header was the first to use it
            m = next((m for m in g.main if os.path.normpath(m) in pb), g.main[0])
            c = run(['clang', '-w', '-std=gnu17', '-nostdinc', '-MM', *g.opt, m], cwd=D['g'])
            pc = {ident('g', x) for x in parse(c.out)[0][1]} if not c.rc else None
            # a file entered from a system header first and then from a user file is listed or not depending on the order: gcc's own answer depends on the directory spelling
            e = run(['gcc', '-w', '-std=gnu17', '-nostdinc', '-E', *g.opt, m], cwd=D['g'])
            ent = {}
            for nm, fl in re.findall(r'^# \d+ "((?:[^"\\]|\\.)*)" 1( 3)?', e.out, re.M): ent.setdefault(ident('g', re.sub(r'\\(.)', r'\1', nm)), []).append(bool(fl))
            amb = {k for k, v in ent.items() if v[0] and not all(v)} | ((pc or set()) - pa)
            if (pa ^ pb) <= amb: res.count('mixed-system-user', len(pa ^ pb)); pa = pb
        if pa != pb: viol('set', f'{f}: missing {sorted(pa - pb)}, extra {sorted(pb - pa)}; the rule is {tb[:500]!r}'); return res
        if len(set(rb[0][1])) != len(rb[0][1]): viol('twice', f'{f}: a file is listed twice: {rb[0][1]}'); return res
        res.events += len(pb); res.count('rules'); res.count('prerequisites', len(pb)); res.distinct.add(h(repr((sorted(pb), args))))
        mains = {ident('s', m) for m in g.main}
        ph = {ident('s', t) for tg, pr in rb[1:] for t in tg or []}
        if mp and ph != pb - mains or not mp and ph: viol('phony', f'{f}: phony targets {sorted(ph)}, expected {sorted(pb - mains) if mp else []}'); return res
        # make reads it
        if cid % 2 == 0:
            d = D['s']
            mkf = 'rule.mk'
            open(os.path.join(d, mkf), 'w').write(tb + '\n' + re.split(r':(?=\s)', tb.replace('\\\n', ''))[0] + ':\n\t@true\n')
            tg = [t for t in rb[0][0]]
            tf = os.path.join(d, tg[0])
            if tg[0] in files: continue
            os.makedirs(os.path.dirname(tf) or d, exist_ok=True)
            if not os.path.exists(tf): open(tf, 'w').write('')
            for x in files: os.utime(os.path.join(d, x), (1000, 1000))
            os.utime(tf, (2000, 2000))
            mk = lambda: run(['make', '-rRq', '-f', mkf, '--', tg[0]], cwd=d)
            m = mk()
            if m.rc: viol('make', f'make does not find the target {tg[0]!r} up to date: rc {m.rc} {m.err[:300]} {m.out[:200]}; rule {tb[:500]!r}'); return res
            for x in sorted(files):
                p = os.path.join(d, x)
                os.utime(p, (3000, 3000)); m = mk(); os.utime(p, (1000, 1000))
                res.events += 1; res.count('make-runs')
                want = 1 if ident('s', x) in pa else 0
                if m.rc != want: viol('make', f'touching {x!r} ({"included" if want else "not included"}): make -q returns {m.rc}: {m.err[:300]}; rule {tb[:500]!r}'); return res
            if mp:
                for x in sorted(pb - mains)[:3]:
                    p = os.path.join(d, x); os.rename(p, p + '~gone'); m = mk(); os.rename(p + '~gone', p)
                    res.events += 1; res.count('make-runs')
                    if m.rc != 1: viol('make', f'-MP, {x!r} removed: make -q returns {m.rc}: {m.err[:300]}'); return res
    res.sample = res.sample or dict(args=args, rule=tb[:200])
    return res


def check(ctx):
    slim = ctx.build('plain')
    ctx.rule = 'distinct = distinct (set of files, command line)'
    ctx.assumptions = ['gcc -M* as the reference for targets, file names and the set of included files; GNU make as the reader']
    ctx.pmap(lambda c: work(ctx, slim, c), range(ctx.n(1600, 20000)))


if __name__ == '__main__':
    main('D02', check, min_events=5000, min_distinct=300)
