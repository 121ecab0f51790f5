"""C01: integer expressions evaluate to the values C defines.
Oracle: an exact value model (vlib/cint.py) used while generating; confirmed against gcc/clang before any alarm."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.cint import *
from vlib.prog import *
from vlib.diff import Diff, diff_lines

FUNCS = 60


def make_function(r, uid, ids, expected, kinds):
    fb = FnBuilder(r, uid)
    body = []
    for _ in range(r.randrange(2, 6)):
        fb.add()
    leaf = leaf_picker(fb, r)
    g = Gen(r, leaf, assign_leaf=fb.assign_leaf)

    def emit(i, s, v):
        body.append(f'E({i}, {s});')
        expected.append(f'{i} {v & 0xffffffffffffffff:x}')
        kinds[i] = s

    for _ in range(r.randrange(5, 12)):
        i = len(ids); ids.append(uid)
        k = r.random()
        if k < .12:
            # right-leaning deep tree: register pressure and spills
            e = g.expr(1)
            for _ in range(r.randrange(5, 14)):
                b = g.expr(r.randrange(0, 2))
                op = r.choice(['+', '-', '^', '|', '&', '*', '<', '=='])
                x = binop(op, b, e)
                if x is None:
                    op = '^'; x = binop(op, b, e)
                e = N(f'({b.s} {op} {e.s})', *x)
        else:
            e = g.expr(r.choice((1, 1, 2, 2, 3, 3, 4, 5)))
        v64 = conv(e.v, ULL)
        c = r.random()
        if c < .4:
            emit(i, e.s, e.v)
        elif c < .6:
            t = r.choice(ALL)
            n = fb.name('r')
            fb.decls.append(f'{t.name} {n};')
            body.append(f'{n} = {e.s};')
            emit(i, n, conv(e.v, t))
        elif c < .7:
            body.append(f'if ({e.s}) E({i}, 1); else E({i}, 0);'); expected.append(f'{i} {1 if e.v else 0:x}'); kinds[i] = 'if ' + e.s
        elif c < .76:
            body.append(f'if (!{e.s}) E({i}, 1); else E({i}, 0);'); expected.append(f'{i} {0 if e.v else 1:x}'); kinds[i] = 'if ! ' + e.s
        elif c < .81:
            emit(i, f'!{e.s}', 0 if e.v else 1)
        elif c < .86:
            emit(i, f'({e.s} ? {3} : {-7})', 3 if e.v else -7)
        elif c < .9:
            t = r.choice(ALL)
            fb.glob.append(f'static {t.name} g{uid}_{i}({t.name} a) {{ return a; }}')
            emit(i, f'g{uid}_{i}({e.s})', conv(e.v, t))
        elif c < .94:
            t = r.choice(ALL)
            fb.glob.append(f'static {t.name} g{uid}_{i}({", ".join(p for p in [])}{"void"}) ;')
            # returned from a function whose return type converts
            lv = [x for x in [e]]
            n = fb.name('r')
            fb.glob.pop()
            body.append(f'{{ {t.name} {n} = {e.s}; E({i}, {n}); }}'); expected.append(f'{i} {conv(e.v, t) & 0xffffffffffffffff:x}'); kinds[i] = e.s
        else:
            body.append(f'switch ((unsigned long long){e.s}) {{ case {hex(v64)}ull: E({i}, 1); break; default: E({i}, 0); }}')
            expected.append(f'{i} 1'); kinds[i] = 'switch ' + e.s
    decl = '\n'.join(fb.glob)
    ps = ', '.join(fb.params) or 'void'
    txt = f'{decl}\nvoid t{uid}({ps}) {{\n  ' + '\n  '.join(fb.decls) + '\n  ' + '\n  '.join(body) + '\n}\n'
    call = f't{uid}({", ".join(fb.args)});'
    return txt, call


def make_program(r, nf=FUNCS):
    ids, expected, kinds = [], [], {}
    parts, calls = [PRELUDE], []
    for u in range(nf):
        t, c = make_function(r, u, ids, expected, kinds)
        parts.append(t); calls.append(c)
    parts.append('int main(void) {\n  ' + '\n  '.join(calls) + '\n  return 0;\n}\n')
    return '\n'.join(parts), expected + ['exit 0'], kinds


VARIANTS = [[], ['-O0'], ['-fno-pie', '-no-pie'], ['-fPIC', '-O1'], ['-O0', '-fno-pic', '-no-pie', '-fstack-reuse=none'], ['-g', '-O2']]


def check(ctx):
    ctx.rule = ('random integer expression trees (depth 1-5, or right-leaning up to 14) over 12 types and 30 operand storage forms, boundary-biased '
                'values, undefined behaviour excluded by construction; non-trivial: distinct event logs')
    slim = ctx.build('plain')
    D = Diff(ctx, slim)

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        src, exp, kinds = make_program(r)
        vs = [[], ['-O0']] if idx % 2 == 0 else [r.choice(VARIANTS)]
        D.go(res, f'expr', {'t.c': src}, vs, expected=exp, describe=lambda k: 'expression: ' + kinds.get(int(k), '?')[:800])
        res.distinct = {h(k) for k in kinds.values()}
        res.count('expressions', len(kinds))
        if idx == 0:
            i = sorted(kinds)[3]
            res.sample = {'expression': kinds[i], 'expected_event': exp[i]}
        return res
    ctx.pmap(one, range(ctx.n(800, 6000)))


if __name__ == '__main__':
    main('C01', check, min_events=10000, min_distinct=5000)
