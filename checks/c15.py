"""C15: symbols.  Random declaration histories; the object file written by slimcc is read back (binding, visibility, section, alignment, size, aliases, undefined references) and
compared with the declared properties as gcc implements them, and multi-unit programs (weak/strong/hidden/common/inline/alias/constructor mixes, executables and shared
libraries, units compiled by slimcc and gcc in every mixture) are linked and run against the all-gcc build."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.diff import obs, diff_lines
from vlib.elf import symtab


class Hist:
    """one name with its declarations"""
    def __init__(s, r, i):
        s.r, s.name, s.sym = r, f'n{i}', f'n{i}'
        s.decl, s.isfn, s.defd, s.align, s.tls = [], r.random() < .45, False, 1, False
        (s.fn if s.isfn else s.ob)()

    def attrs(s, d):
        """distribute attributes over the declarations; they have to be on one no later than the first definition"""
        r = s.r; out = []
        if not s.static and not (s.isfn and s.inl) and r.random() < .25: out.append('weak')
        if not s.static and r.random() < .3: out.append('visibility("%s")' % r.choice(('hidden', 'protected', 'default', 'hidden')))
        if s.defd and not s.com and r.random() < .15: out.append(f'section("%s")' % (f'.text.s{s.name}' if s.isfn else f'.tsec.s{s.name}' if s.tls else '.rosec.s' + s.name if s.ro else ('.data.s' + s.name, '.data.shared', 'shsec')[r.randrange(3)]))
        s.at = out
        for a in out:
            k = r.randrange(d + 1)
            s.decl[k][1].append(a)
            # repeated on another declaration
            if r.random() < .2 and not a.startswith('section'): s.decl[r.randrange(d + 1)][1].append(a)

    def fn(s):
        r = s.r
        s.com = s.ro = False
        k = r.random()
        s.static = k < .25
        s.inl = r.random() < .3
        s.defd = r.random() < .75
        if s.static: s.defd = True
        n = r.randint(0, 3)
        P = []
        T = 'int', f'{s.name}', '(int x)'
        q = (lambda: r.choice(('int %s(int)', 'int %s(int x)', 'int (%s)(int)', '__typeof__(int (int)) %s', 'fn_t %s')) % s.name)
        seen = 0
        for j in range(n):
            if s.static: sp = 'static ' if j == 0 else r.choice(('static ', '', 'extern ', 'static inline ' if s.inl else 'static '))
            else: sp = r.choice(('', 'extern ') + (('inline ', 'extern inline ') if s.inl else ()))
            P.append([sp, [], q()])
        if s.defd:
            sp = ('static ' if s.static and (not n or r.random() < .6) else r.choice(('', '', 'extern ')) if n or not s.static else 'static ') + ('inline ' if s.inl and r.random() < .6 else '')
            P.append([sp, [], f'int {s.name}(int x)', f' {{ return x * {r.randint(2, 99)}; }}'])
            m = r.choice((0, 0, 1, 2))
            for j in range(m): P.append([r.choice(('', 'extern ')) if not s.static else r.choice(('static ', '', 'extern ')), [], q()])
        if not P: P.append([r.choice(('', 'extern ')), [], q()])
        if len(P) == 1 and not s.defd and 'inline' in P[0][0]: P[0][0] = 'extern '
        s.decl = P
        # inline-only: the unit provides no external definition; undefined inline functions are ill-formed
        fs = [p[0] for p in P]
        s.inline_only = not s.static and all('inline' in f and 'extern' not in f for f in fs)
        if not s.defd and any('inline' in f for f in fs):
            for p in P: p[0] = p[0].replace('inline ', '')
            s.inline_only = False
        if s.inline_only and len(P) > 1 and r.random() < .7: P[-1][0] = r.choice(('', 'extern ', 'extern inline ')); s.inline_only = False
        d = next((k for k, p in enumerate(P) if len(p) > 3), len(P) - 1)
        if s.inline_only: s.at = []
        else: s.attrs(0 if s.inl else d)
        if r.random() < .12 and not (s.inl and s.inline_only):
            s.sym = f'asm_{s.name}'
            k = 0
            if len(P[k]) == 3: P[k][2] += f' __asm__("{s.sym}")'
            else:
                P.insert(0, ['static ' if s.static else '', [], f'int {s.name}(int) __asm__("{s.sym}")' + r.choice(('', '', ' __attribute__((weak))' if 'weak' in s.at else ''))])
        s.use = r.random() < .5 or s.inline_only

    def ob(s):
        r = s.r
        s.inline_only = False
        s.static = r.random() < .3
        s.tls = r.random() < .2
        s.ro = r.random() < .15
        s.defd = True if s.static else r.random() < .8
        ty, dim = r.choice((('int', ''), ('char', ''), ('long', ''), ('double', ''), ('char', '[3]'), ('int', '[7]'), ('short', '[40]'), ('char', '[16]'), ('int', '[4]'), ('char', '[17]'), ('double', '[2]'), ('struct S', ''), ('int *', ''), ('long double', ''), ('struct E0', ''), ('int', '[0]')))
        unk = dim and r.random() < .2
        s.align = dict(int=4, short=2, long=8, double=8).get(ty, 16 if ty == 'long double' else 8 if '*' in ty else 1)
        if dim and s.align * int(dim[1:-1]) >= 16 and ty in ('int', 'char', 'long', 'double', 'short'): s.align = 16     # psABI: arrays of 16 bytes and more
        pre = ('static ' if s.static else '') + ('_Thread_local ' if s.tls else '') + ('const ' if s.ro else '')
        if s.ro and ty == 'int *': ty = 'int *const'; pre = pre.replace('const ', '')
        t = f'{ty} {s.name}{dim}'
        ext = ('static ' if s.static and r.random() < .0 else 'extern ') + ('_Thread_local ' if s.tls else '') + ('const ' if s.ro and 'const' not in ty else '')
        zero = r.random() < .25
        init = ' = ' + ('{}' if dim == '[0]' or ty == 'struct E0' else '{0}' if zero else '{1}' if dim or ty == 'struct S' else '&tgt' if '*' in ty else '7')
        s.com = False
        al = r.choice((8, 16, 32, 64, 256)) if r.random() < .15 else 0
        P = []
        first_static = s.static
        if s.static:
            if r.random() < .3 and not s.tls and not (unk): P.append([pre, [], t])
            has = P and True
        else:
            for _ in range(r.choice((0, 0, 1, 2))): P.append([ext, [], f'{ty} {s.name}{"[]" if unk else dim}'])
        if s.defd:
            tent = not s.tls and not s.ro and r.random() < .4
            if tent:
                for _ in range(r.choice((1, 1, 2))): P.append([pre, [], t])
                if r.random() < .4: P.append([pre, [], t + init]); tent = False
            else: P.append([pre if r.random() < .85 or s.static else ext, [], t + init])
            s.com = tent
            if al and s.static is False or al: P[-1 if not tent else 0][0] = f'_Alignas({al}) ' + P[-1 if not tent else 0][0]; s.align = al
            if tent and al:
                for p in P:
                    if not p[0].startswith('_Alignas') and 'extern' not in p[0]: p[0] = f'_Alignas({al}) ' + p[0]
            for _ in range(r.choice((0, 0, 1))): P.append([ext if not s.static or r.random() < .7 else pre.replace('_Alignas', ''), [], t])
        elif not P: P.append([ext, [], t])
        s.decl = P
        d = next((k for k, p in enumerate(P) if 'extern' not in p[0] or '=' in p[2]), len(P) - 1)
        s.attrs(d)
        s.use = r.random() < .6

    def emit(s):
        out = []
        for p in s.decl:
            a = ''
            if p[1]:
                a = '__attribute__((%s))' % ', '.join(p[1]) if s.r.random() < .7 else ' '.join(f'__attribute__(({x}))' for x in p[1])
            body = p[3] if len(p) > 3 else ';'
            if a and len(p) == 3 and '=' not in p[2] and s.r.random() < .4: out.append(f'{p[0]}{p[2]} {a}{body}')
            elif a and p[0].startswith('_Alignas'): out.append(f'{p[0]}{a} {p[2]}{body}')
            else: out.append(f'{a} {p[0]}{p[2]}{body}')
        return out


def tu(r):
    hs = [Hist(r, i) for i in range(r.randint(6, 16))]
    L = ['struct S { int a; double b; };', 'struct E0 {};', 'typedef int fn_t(int);', 'extern int tgt;']
    seqs = [[(h, x) for x in h.emit()] for h in hs]
    # interleave
    while any(seqs):
        s = r.choice([q for q in seqs if q]); L.append(s.pop(0)[1])
    al = []
    for i in range(r.choice((0, 1, 2))):
        c = [h for h in hs if h.defd and not h.inline_only and not h.com and not h.tls and not (h.static and h.isfn and h.inl)]
        if not c: break
        h = r.choice(c)
        at = [f'alias("{h.sym}")'] + (['weak'] if r.random() < .3 else []) + (['visibility("hidden")'] if r.random() < .3 else [])
        an = f'asm_al{i}' if h.isfn and r.random() < .25 else f'al{i}'
        L.append((f'int al{i}(int)' + (f' __asm__("{an}")' if an[1] == 's' else '') if h.isfn else f'extern __typeof__({h.name}) al{i}') + f' __attribute__(({", ".join(at)}));')
        al.append((an, h))
    for i in range(2):
        L.append(f'void *use{i}(int k) {{')
        for h in hs:
            if not h.use: continue
            if r.random() < .15 and not h.static: L.append('  { extern %s; (void)%s; }' % ((f'int {h.name}(int)', f'&{h.name}') if h.isfn else (f'__typeof__({h.name}) {h.name}', f'&{h.name}')) if not h.tls else '')
            f = r.choice((f'  k += {h.name}(k);', f'  if (k == 9) return (void *)&{h.name};', f'  if (k == 8) return (void *){h.name};')) if h.isfn else r.choice((f'  if (k == 7) return (void *)&{h.name};', f'  k += sizeof {h.name} + *(char *)&{h.name};'))
            L.append(f)
        L.append('  return 0; }')
    return hs, al, '\n'.join(L) + '\n'


def objcheck(ctx, slim, cid, r, res, d):
    hs, al, src = tu(r)
    opts = r.choice(([], ['-fPIC'], ['-fpie'], ['-fno-pic'])) + r.choice(([], [], ['-fcommon'], ['-fno-common'])) + r.choice(([], [], ['-fvisibility=hidden'], ['-fvisibility=protected'])) + \
        r.choice(([], [], ['-ffunction-sections'], ['-fdata-sections'])) + r.choice(([], ['-O0'], ['-O1']))
    open(os.path.join(d, 'a.c'), 'w').write(src)
    g = run(['gcc', '-std=gnu17', '-w', *[o for o in opts if o[:2] != '-O'], '-O0', '-c', '-o', 'g.o', 'a.c'], cwd=d)
    if g.rc: res.genfail += 1; dbg(g.err, src); return
    x = run([slim, '-w', *opts, '-c', '-o', 's.o', 'a.c'], cwd=d)
    res.evals += 1
    res.distinct.add(h(src))
    desc = f'slimcc -w {" ".join(opts)} -c a.c; compare with gcc -std=gnu17 -w -c a.c'

    def viol(k, m): res.violation(f'{k}:{h(src)}', f'{k}: {m} (options {opts})', {'a.c': src}, desc)
    if x.rc: return viol('reject', x.err[:400])
    G, S = symtab(os.path.join(d, 'g.o')), symtab(os.path.join(d, 's.o'))
    one = lambda T, n: (T.get(n) or [None])[0]
    for hh in hs + [None] * 0:
        n = hh.sym
        a, b = one(G, n), one(S, n)
        res.events += 1
        if a is None:
            if b is not None and b['bind'] != 'L' and b['sec'] != 'UND' and not hh.inline_only: return viol('extra', f'{n}: slimcc emits {b}, gcc no symbol')
            if b is not None and b['bind'] == 'G' and b['sec'] == 'UND': return viol('extra-undefined', f'{n} is referenced only by slimcc\'s object')
            continue
        if hh.inline_only:
            if b is not None and b['sec'] != 'UND' and b['bind'] == 'G': return viol('inline', f'{n} is an inline definition only, slimcc defines it externally')
            continue
        if b is None:
            if a['bind'] == 'L': continue      # unused static
            if a['sec'] == 'UND' and a['bind'] == 'W': continue
            return viol('missing', f'{n}: gcc has {a}, slimcc no symbol')
        if len(S[n]) > 1: return viol('twice', f'{n} is in the symbol table {len(S[n])} times')
        res.count('symbols')
        if a['bind'] != b['bind']: return viol('binding', f'{n}: {a["bind"]} expected, slimcc {b["bind"]}')
        if (a['sec'] == 'UND') != (b['sec'] == 'UND'): return viol('defined', f'{n}: {a["sec"]} expected, slimcc {b["sec"]}')
        if a['bind'] != 'L' and a['vis'] != b['vis'] and a['sec'] != 'UND': return viol('visibility', f'{n}: {a["vis"]} expected, slimcc {b["vis"]}')
        if a['sec'] == 'UND':
            if a['vis'] == 0 and b['vis'] != 0 and not any(t.startswith('vis') for t in hh.at): return viol('visibility', f'undefined {n}: {a["vis"]} expected, slimcc {b["vis"]}')
            continue
        res.count('defined')
        if (a['sec'] == 'COM') != (b['sec'] == 'COM'):
            return viol('common', f'{n}: {a["sec"]} expected, slimcc {b["sec"]}')
        if any(t.startswith('section') for t in hh.at) and a['sec'] != b['sec']: return viol('section', f'{n}: {a["sec"]} expected, slimcc {b["sec"]}')
        if a['sec'] == 'COM':
            if b['val'] % max(hh.align, 1) or b['size'] != a['size']: return viol('common-size', f'{n}: {a} expected, slimcc {b}')
            continue
        fa = a['flags'] if a['flags'] != '' or not a['sec'].startswith('.data.rel') else 'W'
        if a['flags'] != b['flags']: return viol('section-flags', f'{n}: {a["sec"]} {a["flags"]!r} expected, slimcc {b["sec"]} {b["flags"]!r}')
        if not hh.isfn:
            if a['size'] != b['size']: return viol('size', f'{n}: {a["size"]} expected, slimcc {b["size"]}')
            if b['val'] % hh.align or b['align'] % hh.align: return viol('alignment', f'{n}: _Alignas({hh.align}), at {b["val"]} in a section aligned to {b["align"]}')
            if (a['type'] == 6) != (b['type'] == 6): return viol('tls', f'{n}: type {a["type"]} expected, slimcc {b["type"]}')
            da = a['data'] or bytes(a['size']); db = b['data'] or bytes(b['size'])
            if da != db and 'long double' not in str(hh.decl) : return viol('data', f'{n}: contents {da[:16].hex()} expected, slimcc {db[:16].hex()}')
        elif b['type'] not in (0, 2): return viol('type', f'{n}: type {b["type"]}')
    for n, hh in al:
        a, b = one(G, n), one(S, n)
        t = one(S, hh.sym)
        res.events += 1; res.count('aliases')
        if b is None or t is None or b['sec'] == 'UND': return viol('alias', f'{n} = alias of {hh.sym}: slimcc has {b}, target {t}')
        if (b['shn'], b['val']) != (t['shn'], t['val']): return viol('alias', f'{n} is at {b["sec"]}+{b["val"]}, its target {hh.sym} at {t["sec"]}+{t["val"]}')
        if (a['bind'], a['vis']) != (b['bind'], b['vis']): return viol('alias-binding', f'{n}: {a} expected, slimcc {b}')
    known = {x.sym for x in hs} | {x for x, _ in al} | {'use0', 'use1'}
    for n, es in S.items():
        for e in es:
            if e['bind'] != 'L' and n not in known and n not in G and n not in ('_GLOBAL_OFFSET_TABLE_', '__tls_get_addr'): return viol('stray', f'global symbol {n} {e} is not in the program')
    res.sample = res.sample or dict(symbols={n: (e[0]['bind'], e[0]['vis'], e[0]['sec']) for n, e in list(S.items())[:8]})


# ---- link level -----------------------------------------------------------------------------------------------------------------------
def prog(r):
    """-> {file: text}, files l*.c make a shared library"""
    nt = r.randint(2, 4)
    units = [f't{i}' for i in range(nt)] + (['l0'] + (['l1'] if r.random() < .4 else []) if r.random() < .5 else [])
    D = {u: [] for u in units}; C = {u: [] for u in units}
    plaincd = set()       # unprioritised constructors of one unit run in an unspecified order: one per unit
    hidden_ok = lambda u, d: u[0] == d[0]
    for i in range(r.randint(8, 18)):
        n = f'x{i}'
        k = r.choice(('strong', 'weakstrong', 'static', 'weakundef', 'weakdef', 'common', 'hidden', 'inline', 'inlext', 'alias', 'walias', 'blockext', 'tent', 'protected', 'asm', 'staticfn', 'localstatic', 'ctor', 'fnptr'))
        fn = r.random() < .5
        def decl(u, at=''):
            a = f' __attribute__(({at}))' if at else ''
            return f'extern int {n}(int){a};' if fn else f'extern int {n}{a};'
        def defn(u, v, at='', sp=''):
            a = f'__attribute__(({at})) ' if at else ''
            return f'{a}{sp}int {n}(int x) {{ return x + {v}; }}' if fn else f'{a}{sp}int {n} = {v};'
        def use(u, g=''):
            v = f'{n}(y)' if fn else n
            if g: C[u].append(f'printf("{u}.{n} %d\\n", &{n} ? 1 : 0); if (&{n}) printf("{u}.{n}.v %d\\n", {v});')
            else: C[u].append(f'printf("{u}.{n} %d\\n", {v});' + (f' {n} += y;' if not fn and r.random() < .4 else '') + (f' {{ int (*volatile p)(int) = {r.choice(("", "&"))}{n}; printf("{u}.{n}.p %d %d\\n", p(y + 1), p == {n}); }}' if fn and r.random() < .4 else ''))
        us = r.sample(units, min(len(units), r.randint(1, 4)))
        o = r.choice(units)
        v = lambda: r.randint(1, 10**6)
        if k in ('strong', 'blockext', 'asm'):
            at = ''
            D[o].append(defn(o, v()))
            for u in us:
                if u != o:
                    if k == 'blockext': C[u].append('{ ' + decl(u)); use(u); C[u].append('}')
                    else: D[u].append(decl(u)); use(u)
                else: use(u)
        elif k == 'weakstrong':
            # strong and weak definitions in units of the same module
            m = [u for u in units if u[0] == o[0]]
            for u in m:
                if u == o: D[u].append(defn(u, v()))
                elif r.random() < .6: D[u].append(defn(u, v(), 'weak'))
                else: D[u].append(decl(u, r.choice(('', 'weak'))))
                use(u)
        elif k == 'weakdef':
            D[o].append(defn(o, v(), 'weak'))
            for u in us:
                if u != o: D[u].append(decl(u, r.choice(('', 'weak'))))
                use(u)
        elif k == 'weakundef':
            df = r.random() < .4
            for u in set(us) | {o}:
                if u == o and df: D[u].append(defn(u, v()))
                else: D[u].append(decl(u, 'weak'))
                use(u, 'g')
        elif k == 'static':
            for u in us:
                if fn and r.random() < .5: D[u].append(f'static int {n}(int);'); D[u].append(defn(u, v(), '', r.choice(('', 'static ', 'extern '))))
                else: D[u].append(defn(u, v(), '', 'static '))
                if r.random() < .3 and not fn: D[u].append(f'extern int {n};')
                use(u)
        elif k == 'staticfn':
            fn = True
            for u in us: D[u].append(defn(u, v(), '', r.choice(('static inline ', 'inline static ', 'static ')))); use(u)
        elif k == 'common':
            fn = False
            for u in [u for u in us if u[0] == us[0][0]]:
                D[u].append(f'int {n};' * r.choice((1, 1, 2)) + (f' extern int {n};' if r.random() < .3 else '')); use(u)
        elif k == 'tent':
            fn = False
            D[o].append(f'int {n}; ' + (f'int {n} = {v()};' if r.random() < .5 else '') + f' extern int {n};')
            for u in us:
                if u != o: D[u].append(decl(u))
                use(u)
        elif k in ('hidden', 'protected'):
            m = [u for u in units if u[0] == o[0]]
            for u in m:
                if u == o: D[u].append(defn(u, v(), f'visibility("{k}")'))
                else: D[u].append(decl(u, f'visibility("{k}")'))
                use(u)
            # the other module has its own definition of the same name
            om = [u for u in units if u[0] != o[0]]
            if om and k == 'hidden': u = r.choice(om); D[u].append(defn(u, v())); use(u)
        elif k == 'inline':
            # same inline definition everywhere, one unit makes it external
            fn = True; val = v()
            m = [u for u in units if u[0] == o[0]]
            for u in m:
                D[u].append(f'inline int {n}(int x) {{ return x * 3 + {val}; }}'); use(u)
            D[o].insert(r.choice((0, len(D[o]))), r.choice((f'extern int {n}(int);', f'int {n}(int);', f'extern inline int {n}(int);')))
        elif k == 'inlext':
            fn = True; val = v()
            D[o].append(f'extern inline int {n}(int x) {{ return x ^ {val}; }}')
            for u in us:
                if u != o: D[u].append(decl(u))
                use(u)
        elif k in ('alias', 'walias'):
            t = f'{n}_t'
            st = r.random() < .4
            D[o].append((f'static ' if st else '') + (f'int {t}(int x) {{ return x - {v()}; }}' if fn else f'int {t} = {v()};'))
            D[o].append(decl(o, f'alias("{t}")' + (', weak' if k == 'walias' else '')))
            if k == 'walias' and r.random() < .5:
                m = [u for u in units if u[0] == o[0] and u != o]
                if m: u = r.choice(m); D[u].append(defn(u, v())); use(u); us = [x for x in us if x != u]
            for u in us:
                if u != o: D[u].append(decl(u))
                use(u)
        elif k == 'localstatic':
            fn = True
            for u in us: D[u].append(f'static int {n}(int x) {{ static int c = {v()}, d; extern int printf(const char *, ...); return c += x + d++; }}'); use(u); use(u)
        elif k == 'ctor':
            for u in us:
                a = r.choice(('constructor', 'destructor', 'constructor(1)', 'destructor(1)'))
                pr = re.search(r'\d+', a)
                if not pr:
                    if (u, a) in plaincd: continue
                    plaincd.add((u, a))
                # unprioritised ones of several units run in link order; prioritised ones need unique priorities
                if pr: k = i * 40 + units.index(u); a = a.replace(pr.group(), str(r.choice((101 + k, 101 + k, 65534 - k, 65534 - k, 32000 + k))))
                sp = r.choice(('static ', '', ''))
                D[u].append(f'{sp}void {n}_{u}(void) __attribute__(({a})); {sp}void {n}_{u}(void) {{ printf("{u}.{n} {a}\\n"); }}' if r.random() < .5 else f'__attribute__(({a})) {sp}void {n}_{u}(void) {{ printf("{u}.{n} {a}\\n"); }}')
        elif k == 'fnptr':
            fn = True
            D[o].append(defn(o, v()))
            for u in us:
                if u != o: D[u].append(decl(u))
                st = r.choice(('static ', ''))
                D[u].append(f'{st}int (*{r.choice(("const ", ""))}p{n}_{u}[2])(int) = {{ {n}, &{n} }};')
                C[u].append(f'printf("{u}.{n} %d %d\\n", p{n}_{u}[0](y), p{n}_{u}[0] == p{n}_{u}[1] && p{n}_{u}[1] == {n});')
    out = {}
    for u in units:
        t = 'extern int printf(const char *, ...);\n' + '\n'.join(D[u]) + f'\nvoid run_{u}(int y) {{\n' + '\n'.join('  ' + c for c in C[u]) + '\n}\n'
        if u == 't0': t += ''.join(f'void run_{x}(int);' for x in units) + '\nint main(void) { for (int y = 1; y < 4; y++) { %s } return 0; }\n' % ' '.join(f'run_{x}(y);' for x in units)
        out[u + '.c'] = t
    return out


def linkcheck(ctx, slim, cid, r, res, d):
    src = prog(r)
    for f, t in src.items(): open(os.path.join(d, f), 'w').write(t)
    shared = any(f[0] == 'l' for f in src)
    mode = r.choice(('pie', 'nopie', 'pic', 'static') if not shared else ('pie', 'nopie', 'pic'))
    com = r.choice(('-fcommon', '-fcommon'))
    gc = r.random() < .3
    po = {'pie': ['-fpie'], 'nopie': ['-fno-pic'], 'pic': ['-fPIC'], 'static': ['-fno-pic']}[mode]
    link = {'pie': ['-pie'], 'nopie': ['-no-pie'], 'pic': ['-pie'], 'static': ['-static']}[mode] + (['-Wl,--gc-sections'] if gc else [])
    sec = ['-ffunction-sections', '-fdata-sections'] if gc else []

    def build(tag, who, linker):
        ob, lo, cmds = [], [], []
        for f in sorted(src):
            cc = who[f]
            o = ['-fPIC'] if f[0] == 'l' else po
            c = [cc, '-w', *(['-std=gnu17', '-O0', '-fno-builtin'] if cc == 'gcc' else []), com, *o, *sec, '-c', '-o', f'{tag}{f}.o', f]
            cmds.append(' '.join(c)); x = run(c, cwd=d)
            if x.rc: return x, None, cmds
            (lo if f[0] == 'l' else ob).append(f'{tag}{f}.o')
        if lo:
            c = [linker, '-shared', '-o', f'lib{tag}.so', *lo]; cmds.append(' '.join(c)); x = run(c, cwd=d)
            if x.rc: return x, None, cmds
            ob.append(f'./lib{tag}.so')
        c = [linker, *link, '-o', f'{tag}.exe', *ob]; cmds.append(' '.join(c)); x = run(c, cwd=d)
        if x.rc: return x, None, cmds
        return x, run([f'./{tag}.exe'], cwd=d), cmds
    x, ref, _ = build('g', {f: 'gcc' for f in src}, 'gcc')
    if x.rc: res.genfail += 1; dbg(x.err); return
    want = obs(ref)
    res.distinct.add(h(repr(src)))
    for k in range(3):
        who = {f: slim if k == 0 or r.random() < .5 else 'gcc' for f in src}
        if all(w == 'gcc' for w in who.values()): continue
        x, y, cmds = build(f's{k}', who, slim if r.random() < .7 else 'gcc')
        res.evals += 1
        if x.rc:
            res.violation(f'link:{h(repr(src))}', f'{mode}: {cmds[-1]}: {x.err[:500]}', src, '\n'.join(cmds)); return
        got = obs(y)
        res.events += len(got); res.count('link-events', len(got))
        if got != want:
            e = diff_lines(want, got)[0]
            res.violation(f'run:{h(repr(src))}', f'{mode}: event {e[0]}: all-gcc build says {e[1][:200]!r}, with slimcc units {e[2][:200]!r}', src, '\n'.join(cmds)); return
    res.count('programs'); res.count('mode-' + mode + ('-shared' if shared else ''))


def dbg(*a):
    if os.environ.get('VERIF_DEBUG'): print(*a, file=sys.stderr, flush=True)


def work(ctx, slim, cid):
    r = ctx.rng('p', cid)
    res = Res()
    d = os.path.join(ctx.work, f'w{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    (linkcheck if cid % 3 == 0 else objcheck)(ctx, slim, cid, r, res, d)
    return res


def check(ctx):
    slim = ctx.build('plain')
    ctx.rule = 'distinct = distinct translation units (object level) and programs (link level)'
    ctx.assumptions = ['gcc implements the declared linkage, binding, section and visibility']
    ctx.pmap(lambda c: work(ctx, slim, c), range(ctx.n(2400, 40000)))


if __name__ == '__main__':
    main('C15', check, min_events=10000, min_distinct=500)
