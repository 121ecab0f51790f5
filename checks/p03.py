"""P03: #embed and __has_embed.  Random resource files and directives; the bytes that arrive in the object file (and in the -E output compiled by gcc) are compared with the
bytes of the files, the parameters being interpreted by a model written from the C23 text."""
import os, sys, shlex
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.elf import symtab


def content(r):
    k = r.random()
    if k < .15: return b''
    if k < .25: return bytes([r.choice((0, 10, 13, 26, 255, 0x80, 0x2c, 65))])
    if k < .35: return bytes(range(256)) * r.choice((1, 1, 2))
    if k < .45: return r.choice((b'\r\n', b'\n', b'\\\n', b'\x1a', b'\xef\xbb\xbf', b'??/\n', b'/*', b'"\n#endif\n', b'\0\0')) * r.randint(1, 9) + b'tail'
    n = r.choice((2, 3, 7, 16, 100, 255, 256, 257, 1000, 4095, 4096, 4097, r.randint(1, 20000)))
    return r.randbytes(n)


class G:
    def __init__(s, r):
        s.r = r
        s.files = {}; s.text = {'t.c': []}
        s.want = {}      # symbol -> list of ints
        s.n = 0

    def limit(s, size):
        """-> text, value"""
        r = s.r
        v = r.choice((0, 1, 2, 3, size - 1, size, size + 1, size * 2, r.randint(0, 50), 1 << 40))
        v = max(v, 0)
        t = r.choice((lambda: str(v), lambda: hex(v), lambda: f'{v}u', lambda: f'({v})', lambda: f'1 ? {v} : 9', lambda: f'{v} + 0', lambda: f'LIM({v})', lambda: f'ONE * {v}', lambda: f'{v}L', lambda: f'{v}ull | 0', lambda: f'{v + 5} - 5', lambda: f'(ONE == 1) * {v}', lambda: f'undefd + {v}'))()
        if r.random() < .04: t, v = "'\\7'", 7
        return t, v

    def toks(s):
        """-> text, ints; a comma-separated list of constants to be placed in a prefix, suffix or if_empty clause"""
        r = s.r
        out, val = [], []
        for _ in range(r.choice((1, 1, 2, 3))):
            v = r.randint(0, 99)
            out.append(r.choice((f'{v}', f'{v}', f'({v})', f'LIM({v})', f'sizeof("{")" * (v % 4)}")', f'((({v})))', f'M_{v % 3}', f"'\\{v % 8}'", f'(char[]){{ {v}, 2 }}[0]'[:0] or f'{v}')))
            t = out[-1]
            val.append(v % 4 + 1 if t.startswith('sizeof') else 500 + v % 3 if t.startswith('M_') else v % 8 if t.startswith("'") else v)
        return ', '.join(out), val

    def resource(s, base):
        """-> spelled resource, bytes or None, as seen from a file in directory base"""
        r = s.r
        if r.random() < .08: return r.choice(('"none.bin"', '<none/x.bin>')), None
        f = r.choice(list(s.files))
        d, n = os.path.split(f)
        where = {'.': '.', 'inc': 'inc', 'i2': 'i2'}
        q = r.random() < .5
        if q:
            # the includer's directory first, then the path inc:i2
            for p in (os.path.normpath(os.path.join(base, n)), f'inc/{n}', f'i2/{n}'):
                if p in s.files: return f'"{n}"', s.files[p]
            return f'"{os.path.relpath(f, base)}"', s.files[f]
        for p in (f'inc/{n}', f'i2/{n}'):
            if p in s.files: return f'<{n}>', s.files[p]
        return f'"{os.path.relpath(f, base)}"', s.files[f]

    def sep(s): return s.r.choice((' ', ' ', '  ', ' \\\n', ' /* c */ ', '\t', ' /* \n */ '))

    def params(s, b, comma):
        """-> text, list of ints the directive expands to; comma: the surroundings need a comma before and after a non-empty expansion"""
        r = s.r
        ps = []; size = len(b)
        data = list(b)
        if r.random() < .6 or size > 3000 and r.random() < .8:
            t, v = s.limit(size)
            if r.random() < .7 and size > 40: t, v = str(x := r.randint(0, 40)), x
            ps.append(f'limit({t})'); data = data[:v]
        empty = not data
        out = data
        if r.random() < .6 or comma:
            t, v = s.toks()
            if comma: ps.append(f'prefix(, {t},)' if (pv := r.random() < .6) else 'prefix(,)')
            else: ps.append(f'prefix({t},)'); pv = True
            if not empty and pv: out = v + out
        elif r.random() < .2: ps.append('prefix()')
        if r.random() < .5:
            t, v = s.toks()
            ps.append(f'suffix(, {t})')
            if not empty: out = out + v
        elif r.random() < .2: ps.append('suffix()')
        if r.random() < .5 or empty and not comma:
            t, v = s.toks()
            ps.append(f'if_empty({", " if comma else ""}{t})')
            if empty: out = v
        elif r.random() < .1: ps.append('if_empty()')
        r.shuffle(ps)
        return ''.join(s.sep() + p.replace('(', s.r.choice(('(', '(', '( ')), 1) for p in ps), out, empty

    def one(s, fn, base):
        r = s.r
        res, b = s.resource(base)
        L = s.text[fn]
        sym = f'v{s.n}'; s.n += 1
        k = r.random()
        if k < .3 or b is None:
            # __has_embed
            t, lim, unk = '', None, False
            if r.random() < .5: t, lim = s.limit(len(b or b'')); t = f' limit({t})'
            if r.random() < .3: t += ' prefix(1,)' + (' if_empty(x)' if r.random() < .5 else '')
            if r.random() < .15: t += r.choice((' nosuch(1)', ' vnd::x', ' foo::bar(2, (3))', ' nosuch')); unk = True
            v = 0 if b is None or unk else 2 if not b or lim == 0 else 1
            c = r.choice(('__has_embed({})', '__has_embed( {} )', 'defined __has_embed && __has_embed({})'))
            he = c.format(res + t)
            if c.startswith('def') and v > 1: v = 1
            if c.startswith('def') and v: v = 1
            nm = {0: '__STDC_EMBED_NOT_FOUND__', 1: '__STDC_EMBED_FOUND__', 2: '__STDC_EMBED_EMPTY__'}[v]
            L.append(f'#if ({he}) == {r.choice((v, nm))}\nint {sym} = {v};\n#else\nint {sym} = 77;\n#endif')
            s.want[sym] = (4, [v])
            return
        d = r.choice(('#embed', '#embed', '# embed', '  #embed', '#embed /* x */', '#em\\\nbed'))
        if r.random() < .15 and not (res[0] == '<' and ' ' in res):      # spaces in a macro-expanded <> name: implementation-defined
            L.append(f'#undef FN\n#define FN {res}'); res = 'FN' if r.random() < .7 else 'ID(FN)'
        form = r.choice(('plain', 'mid', 'gen', 'two', 'skip', 'nest', 'macro', 'call'))
        ty, sz = r.choice((('unsigned char', 1), ('unsigned char', 1), ('short', 2), ('int', 4), ('long', 8)))
        if form == 'gen':
            t, out, e = s.params(b[:1], False)
            L.append(f'int {sym} = _Generic((\n{d} {res} limit(1) if_empty(0)\n), int: 1, default: 0);')
            s.want[sym] = (4, [1])
        elif form == 'mid' or form == 'two':
            t, out, e = s.params(b, True)
            val = [7] + out
            L.append(f'int {sym}[] = {{ 7\n{d} {res}{t}')
            if form == 'two':
                res2, b2 = s.resource(base)
                if b2 is not None:
                    t2, out2, e2 = s.params(b2, True)
                    L.append(f'{d} {res2}{t2}'); val += out2
            L.append(', 8 };'); val.append(8)
            s.want[sym] = (4, val)
        elif form == 'skip':
            L.append(f'#if 0\n#embed\n#embed <\n#embed "nope" what(\n{d} {res}\n#endif\nint {sym} = __LINE__ > 1;')
            s.want[sym] = (4, [1])
        elif form == 'call':
            t, out, e = s.params(b[:0], False)
            n = min(len(b), r.randint(1, 4))
            if not n: return s.one(fn, base)
            L.append(f'int {sym} = (\n{d} {res} limit({n})\n) + 0;')      # comma operator: the last byte
            s.want[sym] = (4, [b[n - 1]])
            if n > 1: L[-1] = L[-1].replace(f'int {sym} = (', f'int {sym} = PICK(').replace(') + 0;', ') + 0;'); s.want[sym] = (4, [n])
        else:
            t, out, e = s.params(b, False)
            if not out: out, t = [3], t.replace('if_empty()', '') + ' if_empty(3)' if 'if_empty' not in t.replace('if_empty()', '') else t
            if form == 'macro': L.append(f'#define OPEN_{sym} {ty} {sym}[] = {{\nOPEN_{sym}\n{d} {res}{t}\n}};')
            elif form == 'nest': L.append(f'#if 1\nstruct {{ {ty} a[{len(out)}]; int z; }} {sym} = {{ {{\n{d} {res}{t}\n}}, 9 }};\n#endif')
            else: L.append(f'{ty} {sym}[] = {{\n{d} {res}{t}\n}};')
            if form == 'nest': s.want[sym] = ('nest', sz, out)
            else: s.want[sym] = (sz, out)

    def gen(s):
        r = s.r
        for i in range(r.randint(2, 6)):
            n = r.choice((f'r{i}.bin', f'r{i}.bin', f'r {i}.dat', f'r{i}', f'r{i // 2}.bin'))
            s.files[os.path.normpath(r.choice(('.', 'inc', 'i2', 'sub')) + '/' + n)] = content(r)
        hdr = r.random() < .5
        s.text['sub/h.h'] = []
        pre = ['#define LIM(x) x', '#define ONE 1', '#define ID(x) x', '#define PICK(...) PICK_(__VA_ARGS__, 4, 3, 2, 1, 0)', '#define PICK_(a, b, c, d, n, ...) n'] + [f'#define M_{i} {500 + i}' for i in range(3)]
        s.text['t.c'] += pre
        if hdr: s.text['t.c'].append('#include "sub/h.h"')
        for _ in range(r.randint(3, 10)):
            if hdr and r.random() < .3: s.one('sub/h.h', 'sub')
            else: s.one('t.c', '.')
        s.text['sub/h.h'].append('')
        s.text['t.c'].append('int last = 12345;' + ('' if r.random() < .5 else '\n'))
        s.want['last'] = (4, [12345])
        s.src = {f: '\n'.join(t) for f, t in s.text.items()}


def image(want):
    if want[0] == 'nest':
        sz, v = want[1:]
        b = b''.join((x & (1 << 8 * sz) - 1).to_bytes(sz, 'little') for x in v)
        al = max(sz, 4)
        b += bytes(-len(b) % 4) + (9).to_bytes(4, 'little')
        return b + bytes(-len(b) % al)
    sz, v = want
    return b''.join((x & (1 << 8 * sz) - 1).to_bytes(sz, 'little') for x in v)


def work(ctx, slim, cid):
    r = ctx.rng('p', cid)
    res = Res()
    g = G(r); g.gen()
    d = os.path.join(ctx.work, f'w{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for x in ('inc', 'i2', 'sub'): os.makedirs(os.path.join(d, x))
    for f, t in g.src.items(): open(os.path.join(d, f), 'w').write(t)
    for f, b in g.files.items(): open(os.path.join(d, f), 'wb').write(b)
    res.evals += 1
    res.distinct.add(h(repr(g.src)))
    opt = ['-std=c23', '-Iinc', '-Ii2']
    # -E output compiled by gcc; -E white space as printed
    for route in ('object', 'text'):
        if route == 'object':
            c = [slim, *opt, '-c', '-o', 't.o', 't.c']; o = run(c, cwd=d)
        else:
            if cid % 2: break
            c = [slim, *opt, '-E', *(['-P'] if cid % 4 else []), '-o', 't.i', 't.c']; o = run(c, cwd=d)
            if not o.rc:
                o2 = run(['gcc', '-std=gnu2x', '-w', '-c', '-o', 't.o', 't.i'], cwd=d)
                if o2.rc: o = o2
        desc = ' '.join(c)
        files = {**g.src, **g.files}
        if o.rc or o.to:
            res.violation(f'reject-{route}:{h(repr(g.src))}', f'{route}: {o.err[:500]}', files, desc); return res
        T = symtab(os.path.join(d, 't.o'))
        for sym, w in g.want.items():
            b = image(w)
            e = (T.get(sym) or [None])[0]
            res.events += max(1, len(b)); res.count('symbols-' + route); res.count('bytes', len(b))
            got = None if e is None else e['data'] if e['data'] is not None else bytes(e['size'])
            if got != b:
                k = next((i for i, (x, y) in enumerate(zip(got or b'', b)) if x != y), min(len(got or b''), len(b)))
                L = [x for t in g.src.values() for x in t.split('\n')]
                i = next((i for i, x in enumerate(L) if sym in x), 0)
                res.violation(f'{route}:{h(repr(g.src))}', f'{sym}: object {"lacks it" if got is None else f"has {len(got)} bytes"}, {len(b)} expected; first difference at byte {k}: {(got or b"")[k:k + 8].hex()} instead of {b[k:k + 8].hex()}\n' + '\n'.join(L[max(0, i - 1):i + 5])[:600], files, desc)
                return res
    res.sample = res.sample or dict(case=cid, files={f: len(b) for f, b in g.files.items()}, symbols=len(g.want))
    return res


def check(ctx):
    slim = ctx.build('plain')
    ctx.rule = 'distinct = distinct sources'
    ctx.assumptions = ['the model of #embed parameters in checks/p03.py (C23 6.10.4); resources are searched like headers']
    ctx.pmap(lambda c: work(ctx, slim, c), range(ctx.n(5000, 40000)))


if __name__ == '__main__':
    main('P03', check, min_events=50000, min_distinct=500)
