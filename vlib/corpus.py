"""Whole programs from every generator of the framework, as workload for properties about the compiler as a whole.
program(r, kind=None) -> (kind, text, slimcc options it needs, gcc -std)"""
import importlib

KINDS = ['expr', 'const', 'fp', 'flow', 'layout', 'call', 'init', 'life', 'defer', 'types', 'literal', 'atomic', 'asm', 'scope', 'object']
RUNNABLE = ['expr', 'const', 'fp', 'flow', 'layout', 'init', 'defer', 'types', 'literal', 'asm', 'scope', 'object']
_m = {}


def mod(n):
    if n not in _m: _m[n] = importlib.import_module('checks.' + n)
    return _m[n]


def program(r, kind=None, small=False):
    k = kind or r.choice(KINDS)
    if k == 'expr': return k, mod('c01').make_program(r, 3 if small else 10)[0], [], 'gnu17'
    if k == 'const':
        m = mod('c02')
        f = r.choice((lambda: m.int_program(r, 3 if small else 6, True), lambda: m.fp_program(r, 3 if small else 6), lambda: m.addr_program(r, 3 if small else 6)))
        return k, f()[0], ['-std=c23'], 'gnu2x'
    if k == 'fp':
        m = mod('c03')
        return k, (m.expr_program if r.random() < .5 else m.matrix_program)(r, 3 if small else 8)[0], [], 'gnu17'
    if k == 'flow':
        from .flow import flow_program
        return k, flow_program(r, 3 if small else 8, maxdepth=r.choice((3, 4, 6)), budget=r.choice((25, 45))), ['-std=c23', '-DSLIM'], 'gnu2x'
    if k == 'layout': return k, mod('c05').program(r, 2 if small else 5)[0], [], 'gnu2x'
    if k == 'call':
        f = mod('c06').program(r, 3 if small else 6, False)
        f = f[0] if isinstance(f, tuple) else f
        return k, f['a.c'].replace('#include "h.h"', f['h.h']) if isinstance(f, dict) else f, [], 'gnu2x'
    if k == 'init': return k, mod('c07').program(r, 3 if small else 8)[0], ['-std=c23'], 'gnu2x'
    if k == 'life': return k, mod('c08').Prog(r, 3).text, [], 'gnu17'
    if k == 'defer': return k, mod('c09').Prog(r, True).text, ['-DSLIM'], 'gnu2x'
    if k == 'types': return k, mod('c10').program(r, 12 if small else 30)[0], ['-std=c23'], 'gnu2x'
    if k == 'literal':
        m = mod('c11'); m.UCN = False
        return k, m.program(r, 20 if small else 40, True)[0].decode('utf-8', 'surrogateescape'), ['-std=c23'], 'gnu2x'
    if k == 'atomic': return k, mod('c12').slim_src(r), [], 'gnu17'
    if k == 'asm': return k, mod('c14').program(r, 3 if small else 6)[0], [], 'gnu17'
    if k == 'scope': return k, mod('c17').program(r)[0], [], 'gnu17'
    if k == 'object': return k, mod('c18').text(r, 1 if small else 3)[0], [], 'gnu17'
    raise KeyError(k)
