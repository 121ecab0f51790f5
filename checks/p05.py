"""P05: compiling -E output is equivalent to compiling the source.  For programs from every generator, rewritten so that the same tokens arrive through
macros, arguments, pastes, includes, splices and comments, the assembly of the direct route, of the -E route and of the -E -P route is compared byte for byte
(with debug line records compared too), and -E is applied to its own output."""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import corpus
from vlib.macroize import macroize, lines
from vlib.pptok import toks, strip_markers, RX


def split_include(r, text, d):
    """move a run of complete top-level lines into a header"""
    L, depth, cuts = text.split('\n'), 0, []
    cont = False
    ifd = 0
    for i, (isd, l) in enumerate(lines(text)): pass
    com = False
    for i, l in enumerate(L):
        if depth == 0 and ifd == 0 and not cont and not com and not L[i - 1].endswith('\\'): cuts.append(i)
        s = re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|/\*.*?\*/|//.*', '', l)
        if '/*' in s: com = True
        if '*/' in l and com: com = False
        q = re.match(r'\s*#\s*(if|endif)', l)
        if q: ifd += 1 if q.group(1) == 'if' else -1
        if not l.lstrip().startswith('#'): depth += s.count('{') + s.count('(') - s.count('}') - s.count(')')
        cont = l.endswith('\\')
    if len(cuts) < 4: return {'t.c': text}
    a, b = sorted(r.sample(cuts, 2))
    return {'t.c': '\n'.join(L[:a] + [r.choice(('#include "h 1.h"', '#include "./h 1.h"'))] + L[b:]), 'h 1.h': '\n'.join(L[a:b]) + '\n'}


def locs(asm):
    names, out = {}, []
    for l in asm.split('\n'):
        m = re.match(r'\s*\.file (\d+) "(.*)"', l)
        if m: names[m.group(1)] = os.path.normpath(m.group(2)); continue
        m = re.match(r'\s*\.loc (\d+) (\d+)', l)
        if m: out.append(f'.loc {names.get(m.group(1))}:{m.group(2)}'); continue
        out.append(l)
    return out


PRAG = ['#pragma foo bar', '#pragma omp parallel for', '_Pragma("foo") ', '_Pragma("a \\"b\\" \\\\ c")', '#pragma STDC FP_CONTRACT OFF', 'PRAG(x y)', '#  pragma x /* c */ y']


def work(ctx, slim, cid):
    r = ctx.rng('p', cid)
    res = Res()
    d = ctx.dir(f'w{os.getpid()}')
    run(['sh', '-c', f'rm -f {d}/*'])
    kind, text, opts, std = corpus.program(r, corpus.KINDS[cid % len(corpus.KINDS)], small=True)
    text = text.replace('\r\n', '\n').replace('\ufeff', '')
    plain = text
    prags = 0
    # literals contain spliced lines of their own: leave that generator's text alone
    mode = cid // len(corpus.KINDS) % 4
    if mode and kind not in ('literal',) and not re.search(r'\\\n(?!.*#)', re.sub(r'(?m)^#(?:.*\\\n)*.*$', '', text)):
        text = macroize(r, text, rate=r.choice((.05, .2, .5)))
    if r.random() < .5:
        # pragmas between top-level lines
        L, depth, out = text.split('\n'), 0, []
        text2 = ['#define PRAG(x) _Pragma(#x)']
        for i, l in enumerate(L):
            if depth == 0 and r.random() < .15 and re.match(r'\s*(static|int|extern|typedef|struct|void|long|char)\b', l) and (i == 0 or re.search(r'[;}]\s*$', L[i - 1]) and not L[i - 1].lstrip().startswith('#')):
                text2.append(r.choice(PRAG)); prags += 1
            s = re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', '', l)
            if not (l.lstrip().startswith('#') or i and L[i - 1].endswith('\\')): depth += s.count('{') - s.count('}')
            text2.append(l)
        text = '\n'.join(text2)
    files = {'t.c': text}
    if r.random() < .5 and mode != 2 and '/* c\n' not in text: files = split_include(r, text, d)
    if r.random() < .3: files['t.c'] = files['t.c'].replace('\n', r.choice(('\n\n\n\n\n\n\n\n\n\n\n', f'\n#line {r.randint(1, 5000)}\n', f'\n#line {r.randint(1, 5000)} "other \\"x\\\\y.c"\n')), 1)
    for f, t in files.items(): open(os.path.join(d, f), 'wb').write(t.encode('utf-8', 'surrogateescape'))
    open(os.path.join(d, 'plain.c'), 'wb').write(plain.encode('utf-8', 'surrogateescape'))
    S = [slim, '-w', *opts]
    if r.random() < .3: S += [r.choice(('-O0', '-fPIC', '-ffunction-sections'))]

    def go(*a, to=60):
        x = run([*S, *a], cwd=d, timeout=to)
        return x

    def bad(what, a, b):
        la, lb = a.split('\n') if isinstance(a, str) else a, b.split('\n') if isinstance(b, str) else b
        i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
        res.violation(f'{what}:{kind}:{h(repr(files))}', f'{what}: differs at line {i + 1}: direct {la[i:i + 2]!r} vs {lb[i:i + 2]!r} ({kind} program, options {S[2:]})', files, f'slimcc {" ".join(S[2:])} -S t.c   versus   slimcc -E t.c -o e.c; slimcc -S e.c')
        return res
    a = go('-S', '-o', 'a.s', 't.c')
    if a.rc or a.to:
        p = go('-S', '-o', 'p.s', 'plain.c')
        if p.rc == 0: res.violation(f'reject:{h(repr(files))}', f'slimcc accepts the program but not the same tokens produced through the preprocessor: {a.err[:400]}', {**files, 'plain.c': plain}, 'slimcc -S t.c')
        else: res.genfail += 1; res.genfail_msgs.append(a.err[:200])
        return res
    A = open(os.path.join(d, 'a.s'), encoding='latin1').read()
    res.evals += 1
    res.distinct.add(h(A))
    # the macro rewrite must not have changed the program
    p = go('-S', '-o', 'p.s', 'plain.c')
    if p.rc == 0:
        P = open(os.path.join(d, 'p.s'), encoding='latin1').read()
        res.count('rewrites')
        if P != A and '__LINE__' not in plain and '__FILE__' not in plain: return bad('macro-route', P, A)
    for e in ([], ['-P']):
        x = go('-E', *e, '-o', 'e.c', 't.c')
        if x.rc: res.violation(f'E-fail:{h(repr(files))}', f'-E fails: {x.err[:300]}', files); return res
        y = go('-S', '-o', 'b.s', 'e.c')
        if y.rc: res.violation(f'E-reject:{h(repr(files))}', f'slimcc compiles the source but not its own -E {" ".join(e)} output: {y.err[:400]}', {**files, 'e.c': open(os.path.join(d, 'e.c'), 'rb').read()}); return res
        B = open(os.path.join(d, 'b.s'), encoding='latin1').read()
        res.events += A.count('\n')
        if A != B: return bad('E' + ''.join(e), A, B)
        # pragma lines kept
        E = open(os.path.join(d, 'e.c'), encoding='utf-8', errors='surrogateescape').read()
        if prags:
            pr = [toks(l) for l in E.split('\n') if re.match(r'\s*#\s*pragma', l)]
            gx = run(['gcc', '-E', '-P', '-w', '-std=' + std, *[o for o in opts if o.startswith('-D')], 't.c'], cwd=d)
            gp = [toks(l) for l in gx.out.split('\n') if re.match(r'\s*#\s*pragma', l)]
            res.count('pragmas', len(gp))
            if gx.rc == 0 and pr != gp:
                return bad('pragmas', [' '.join(q) for q in gp], [' '.join(q) for q in pr])
        z = go('-E', '-P', '-o', 'f.c', 'e.c')
        F = open(os.path.join(d, 'f.c'), encoding='utf-8', errors='surrogateescape').read()
        if z.rc or toks(strip_markers(E)) != toks(strip_markers(F)): return bad('idempotence', toks(strip_markers(E)), toks(F))
        res.count('routes')
        if not e and cid % 2:
            # debug line records survive the route through line markers
            go('-g', '-S', '-o', 'ag.s', 't.c'); go('-g', '-S', '-o', 'bg.s', 'e.c')
            la, lb = (locs(open(os.path.join(d, f), encoding='latin1').read()) for f in ('ag.s', 'bg.s'))
            res.count('loc-records', sum('.loc' in x for x in la))
            if la != lb: return bad('g-loc', la, lb)
    if not res.sample: res.sample = dict(kind=kind, source_head=files['t.c'][-200:], asm_lines=A.count('\n'))
    return res


def check(ctx):
    slim = ctx.build('plain')
    ctx.rule = 'distinct = distinct assembly outputs compared over the routes'
    ctx.pmap(lambda c: work(ctx, slim, c), range(ctx.n(700, 10000)))


if __name__ == '__main__':
    main('P05', check, min_events=100000, min_distinct=200)
