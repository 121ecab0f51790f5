"""P02: which text is compiled.  Random directory trees, headers (guarded, nearly guarded, #pragma once, #include_next chains), inclusion histories, search-path options and
nested conditionals around numbered markers, with junk in the groups that must be skipped.  The sequence of markers that reaches the output of -E and the sequence that
reaches the object file are compared with the one gcc and clang select."""
import os, sys, shlex
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.elf import symtab

NAMES = ['A', 'B', 'C', 'D', 'E', 'F']
JUNK = ['#error no', '#include "nonexistent.h"', '#include', '#include <', '#bogus directive 1 2', "it's lone", "don't 'x", '"unterminated', "''' \"", '#if', '#if (((', '#if 1 +\n#endif', '#ifdef\n#endif', '#ifndef +\n#endif',
        '#if 1\n#elif )(\n#else\n#error x\n#endif', '#if 0\n#else junk\n#endif extra', '#define', '#define 3', '#define A(', '#define B 99', '#undef A', '#undef', '#line', '#line x', '#pragma once', '#', '# non', '0x1g 08 1.e+ ..', '@ ` $ \\',
        '/* #endif */', '/*\n#endif\n#else\n*/', '// #endif \\\n#endif', '"#endif"', '/* " */ /* \' */', '_Pragma("once")', '#embed <nope>', '#if 1/0\n#endif', '#pragma STDC X', '#elif_ 1', '#include_next <zz.h>', '#ident', '#sccs',
        "#if 'ab\n#endif", '__has_include(', 'defined', '??=define A 9', '#assert x', 'L"a\nb"', '#if 1 // "\n#endif', '#warning w', '#ifdef A B C\n#endif', '#if 08\n#endif', '#if 1.0\n#endif', '#if "s"\n#endif', '#if =\n#endif']
# these open a conditional without closing it
OPEN = {'#if', '#if ((('}


class G:
    def __init__(s, r):
        s.r, s.mk = r, 0
        s.files = {}
        s.guards = []

    def m(s):
        s.mk += 1
        return f'{s.mk},'

    def expr(s, d=0):
        r = s.r; k = r.random()
        n = lambda: r.choice(NAMES)
        if d > 3 or k < .25:
            return r.choice((str(r.choice((0, 1, 2, 3, 7, 42, 255, 65536, 2147483647, 2147483648, 9223372036854775807))), f'{r.randint(0, 9)}u', f'{r.randint(0, 200)}L', '0x' + '%x' % r.randint(0, 2**63 - 1), '0%o' % r.randint(0, 999), '0xffffffffffffffff', '18446744073709551615u', f"'{r.choice('aZ0 ')}'", "'\\n'", "'\\0'", "'\\377'", n(), n(),
                             '__LINE__', 'undefd', 'int', 'Z9', '0b101', "L'a'", 'true', 'false', 'bool', 'nullptr', 'thread_local', 'static_assert', 'typeof', '-1', '-1', '0x%x' % r.randint(2**31, 2**32 - 1), '0xffffffff', '037777777777', '4294967295', '4294967296', '-2147483648', '0x80000000'))
        if k < .42: return r.choice((f'defined {n()}', f'defined({n()})', f'!defined {n()}', f'defined ( {n()} )'))
        if k < .47: return '(' + s.expr(d + 1) + ')'
        if k < .55: return r.choice('!~-+') + ' ' + s.expr(d + 1)
        if k < .63: return f'{s.expr(d + 1)} ? {s.expr(d + 1)} : {s.expr(d + 1)}'
        if k < .68: return f'{s.expr(d + 1)} {r.choice(("&&", "||"))} 1 / {r.choice(("0", "1", n()))}'
        if k < .75: return f'(({s.expr(d + 1)}) {r.choice(("<<", ">>"))} {r.choice((0, 1, 3, 31, 63))})'
        if k < .79: return f'F1({s.expr(d + 1)})'
        if k < .81: return f'CAT({r.choice("ABCDEF")},)'
        if k < .86: return f'__has_include({r.choice(s.incforms())})'
        op = r.choice(('+', '-', '*', '/', '%', '&', '|', '^', '==', '!=', '<', '>', '<=', '>=', '&&', '||', '&&', '||'))
        a, b = s.expr(d + 1), s.expr(d + 1)
        if r.random() < .4: a = f'({a})'
        if r.random() < .4: b = f'({b})'
        return f'{a} {op} {b}'

    def incforms(s):
        n = s.r.choice(s.hn)
        return [f'"{n}"', f'<{n}>', f'"nope.h"', '<nope/x.h>', f'"a/{n}"', f'<sub/{n}>']

    def cond(s):
        r = s.r
        e = s.expr()
        if r.random() < .1 and '__LINE__' not in e: e = e.replace(' ', ' /* \n */ ', 1) if r.random() < .5 else e.replace(' ', ' \\\n', 1)
        return e

    def dir(s, t):
        """decorate a directive"""
        r = s.r
        if r.random() < .85: return '#' + t
        k = r.randrange(7)
        if k == 0: return '  #  ' + t
        if k == 1: return '# /* x */ ' + t
        if k == 2: return '/* y */ #' + t
        if k == 3: return '\t#' + t
        if k == 4: return '#\\\n' + t
        if k == 5: return '#' + t[0] + '\\\n' + t[1:]
        return '#\t' + t + r.choice((' // end', ' /* end */', '  ', '/*\n*/'))

    def skip(s):
        """text of a group that may be skipped: only used in groups known not to be taken"""
        r = s.r; out = []
        for _ in range(r.randint(1, 3)):
            j = r.choice(JUNK)
            out.append(j if j not in OPEN else j + '\n#endif')
        return out

    def block(s, d, lvl):
        """lines; lvl = header rank (may include only larger)"""
        r = s.r; out = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < .3: out.append(s.m())
            elif k < .38: out.append(s.dir(r.choice((f'define {r.choice(NAMES)} {r.randint(0, 5)}', f'undef {r.choice(NAMES)}', f'define {r.choice(NAMES)}\n'[:-1] + f' {r.randint(0, 9)}u'))))
            elif k < .385 and r.random() < .6: out.append(f'#line {r.randint(1, 9999)} "{r.choice(("a/q.c", "sub/q.h", "c d/x.h", "none/z.c", "h0.h", "a/h1.h", "../t.c"))}"')   # a presumed name changes no lookup
            elif k < .40: out.append('#')
            elif k < .62 and d < 4: out += s.ifs(d, lvl)
            elif k < .70 and d < 4: out += ['#if 0'] + s.skip() + (['#else', s.m()] if r.random() < .4 else ['#elif 1', s.m(), '#elif ((', *s.skip()] if r.random() < .3 else []) + [s.dir('endif')]
            elif k < .74 and d < 4: out += ['#if 1', s.m(), r.choice(('#elif ((', '#elif 1/0', '#elif', '#else', '#elifdef', '#elifndef A B'))] + s.skip() + [s.dir('endif')]
            elif k < .78 and s.guards: out.append(f'#undef {r.choice(s.guards)}')
            else: out += s.inc(lvl)
        # redefinitions with another value are accepted with a warning by both references
        return out

    def ifs(s, d, lvl):
        r = s.r
        n = lambda: r.choice(NAMES + s.guards[:3])
        o = r.choice((lambda: f'if {s.cond()}', lambda: f'if {s.cond()}', lambda: f'ifdef {n()}', lambda: f'ifndef {n()}'))()
        out = [s.dir(o)] + s.block(d + 1, lvl)
        for _ in range(r.choice((0, 0, 1, 2))):
            out.append(s.dir(r.choice((lambda: f'elif {s.cond()}', lambda: f'elifdef {n()}', lambda: f'elifndef {n()}'))()))
            out += s.block(d + 1, lvl)
        if r.random() < .5: out += [s.dir('else')] + s.block(d + 1, lvl)
        return out + [s.dir('endif')]

    def inc(s, lvl):
        r = s.r
        c = [n for i, n in enumerate(s.hn) if i > lvl]
        if not c: return [s.m()]
        n = r.choice(c)
        nx = n in s.nextset
        f = r.choice((f'"{n}"', f'"{n}"', f'<{n}>', f'<{n}>', f'"./{n}"', f'"../a/{n}"', f'"a/{n}"', f'"a/../a/{n}"', f'"sub/{n}"', f'<sub/{n}>', f'"sub/../{n}"', f'HDR'))
        if nx: f = f'<{n}>'
        if f == 'HDR': return [f'#if __has_include(<{n}>)', '#undef HDR', r.choice((f'#define HDR <{n}>', f'#define HDR "{n}"', f'#define HDR STR({n})')) if not nx else f'#define HDR <{n}>', s.dir('include HDR'), '#endif']
        return [f'#if __has_include({f})', s.dir(f'include {f}' if r.random() < .9 else f'include{f}'), *([s.dir(f'include {f}')] if r.random() < .3 else []), '#endif']

    def header(s, path, lvl):
        r = s.r
        n = os.path.basename(path)
        g = 'G_' + re.sub(r'\W', '_', path)
        body = s.block(2, lvl)
        if n in s.nextset:
            tgt = r.choice([x for i, x in enumerate(s.hn) if i > lvl and x in s.nextset] + [n, n])
            f = r.choice((f'<{tgt}>', f'"{tgt}"'))
            body.append(s.dir(f'include_next {f}'))
        k = r.random()
        top = s.m()
        if k < .2: L = [top, *body]
        elif k < .38: L = [f'#ifndef {g}', f'#define {g}', top, *body, '#endif']
        elif k < .43: L = ['// c', '/* d\n */', f'#ifndef {g} // g', f'#define {g} 1', top, *body, f'#endif /* {g} */', '// end']
        elif k < .48: L = [f'#if !defined({g})', f'#define {g}', top, *body, '#endif']
        elif k < .60: L = ['#pragma once', top, *body]
        elif k < .63: L = [top, '_Pragma("once")', *body]
        elif k < .67: L = [f'#ifndef {g}', f'#define {g}', top, *body, '#else', s.m(), '#endif']              # not a guard
        elif k < .70: L = [f'#ifndef {g}', f'#define {g}', top, *body, '#elif A', s.m(), '#endif']
        elif k < .73: L = [f'#ifndef {g}', f'#define {g}', top, *body, '#elifdef B', s.m(), '#endif']
        elif k < .77: L = [f'#ifndef {g}', f'#define {g}', top, *body, '#endif', s.m()]
        elif k < .80: L = [s.m(), f'#ifndef {g}', f'#define {g}', top, *body, '#endif']
        elif k < .84: L = [f'#ifndef {g}', f'#define {g}', top, '#endif', f'#ifndef {g}2', *body, '#endif']
        elif k < .87: L = [f'#ifndef {g}', top, *body, '#endif']                                             # nobody defines the macro
        elif k < .90: L = [f'#ifndef {g}', f'#define {g}', top, *body, f'#undef {g}', '#endif']
        elif k < .93: L = [f'#ifndef {g}', f'#define {g}', '#ifndef Q', top, '#endif', *body, '#endif']
        elif k < .95: L = ['#if 0', '#pragma once', '#endif', top]
        elif k < .97: L = [f'#ifndef {g}', f'#define {g}', '#endif', '#ifdef ' + g, top, *body, '#endif']
        else: L = ['#if 0', *s.skip(), '#endif']
        if k < .97 and k >= .2: s.guards.append(g)
        return '\n'.join(L) + r.choice(('\n', '\n', '\n\n', ''))

    def gen(s):
        r = s.r
        s.hn = [f'h{i}.h' for i in range(r.randint(3, 6))]
        s.nextset = {n for n in s.hn if r.random() < .3}
        path = r.sample(['a', 'b', 'a/sub', 'sys', 'after', 'c d', 'none'], r.randint(2, 6))
        dirs = [d for d in path if d != 'none']
        every = ['.', 'sub', 'a', 'a/sub'] + dirs
        # quote lookups start in the includer's directory, so chains of #include_next live only in path directories and are included with <>
        for i, n in reversed(list(enumerate(s.hn))):
            for d in ({d for d in (dirs if n in s.nextset else every) if r.random() < .45} | {r.choice(dirs)} if dirs else {'.'}):
                p = os.path.normpath(f'{d}/{n}')
                if p not in s.files: s.files[p] = s.header(p, i)
        # every chain ends
        for n in s.nextset: s.files[f'last/{n}'] = s.m() + '\n'
        opt = []
        for d in path:
            o = {'sys': '-isystem', 'after': '-idirafter'}.get(d, r.choice(('-I', '-I', '-I', '-isystem', '-idirafter')))
            opt += [o, d] if r.random() < .5 or o == '-isystem' and r.random() < .2 else [o + d] if o != '-isystem' and o != '-idirafter' else [o, d]
            if r.random() < .1: opt += [o, d]
        s.special = {}
        for d in every:
            for n in s.hn:
                p = os.path.normpath(f'{d}/{n}')
                if p in s.files or r.random() > .15: continue
                if r.random() < .4: s.special[p] = None           # a directory of that name is not a header
                elif n not in s.nextset:
                    t = [q for q in s.files if os.path.basename(q) == n]
                    if t: s.special[p] = os.path.relpath(r.choice(t), os.path.dirname(p) or '.')
        opt += ['-idirafter', 'last']
        for n in NAMES:
            k = r.random()
            if k < .25: opt += [f'-D{n}' + r.choice(('', '=0', '=2', '=7u'))]
            elif k < .3: opt += ['-D', f'{n}=3', '-U', n]
            elif k < .33: opt += [f'-U{n}', f'-D{n}=4']
        L = s.block(0, -1)
        while len(L) < 25: L += s.block(0, -1)
        pre = ['#define F1(x) ((x) + 1)', '#define CAT(a, b) a##b', '#define STR(x) STR_(x)', '#define STR_(x) #x']
        s.files['pre.h'] = '\n'.join(pre) + '\n#ifndef SEQ\n#define SEQ\n#endif\n'
        s.files['t.c'] = '#include "pre.h"\nint seq[] = {\n' + '\n'.join(L) + '\n-1 };\n'
        if r.random() < .3:
            s.files['forced.h'] = '#define FORCED\n' + '\n'.join(x for x in (f'#define {n} {r.randint(0, 9)}' for n in r.sample(NAMES, 2)))  + '\n'
            opt += ['-include', 'forced.h']
        return opt


def seqof(t):
    """the marker sequence in preprocessed output"""
    t = re.sub(r'^\s*#[^\n]*$', '', t, flags=re.M)
    m = re.search(r'seq\s*\[\s*\]\s*=\s*\{(.*)\}\s*;', t, re.S)
    return re.sub(r'\s+', '', m.group(1)) if m else None


def work(ctx, slim, cid):
    r = ctx.rng('p', cid)
    res = Res()
    g = G(r)
    opt = g.gen()
    d = os.path.join(ctx.work, f'w{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for x in ('a/sub', 'b', 'sub', 'sys', 'after', 'c d', 'last'): os.makedirs(os.path.join(d, x), exist_ok=True)

    def wr():
        for f, t in g.files.items(): open(os.path.join(d, f), 'w').write(t)
    wr()
    for p, t in g.special.items():
        if t is None: os.mkdir(os.path.join(d, p))
        else: os.symlink(t, os.path.join(d, p))
        res.count('directories' if t is None else 'symlinks')
    gstd, sstd = r.choice((('gnu2x', 'c23'),) * 5 + (('gnu17', 'c17'), ('gnu17', 'gnu17'), ('gnu11', 'c11'), ('gnu11', 'gnu11')))
    for att in range(12):
        o1 = run(['gcc', '-std=' + gstd, '-w', '-E', '-P', *opt, 't.c'], cwd=d)
        o2 = run(['clang', '-std=' + gstd, '-w', '-E', '-P', *opt, 't.c'], cwd=d)
        if not o1.rc and not o2.rc: break
        # ill-formed conditions: replace the conditions the references complain about
        e = {(m[0], int(m[1])) for o in (o1, o2) for m in re.findall(r'^([^:\n]+):(\d+):\d+: (?:fatal )?error', o.err, re.M)}
        hit = False
        for f, ln in e:
            f = os.path.normpath(f)
            if f not in g.files: continue
            L = g.files[f].split('\n')
            for k in range(ln - 1, max(ln - 4, -1), -1):
                if k < len(L) and re.search(r'\b(el)?if\b', L[k].replace('\\', '')) or k < len(L) and L[k].startswith('f '):
                    q = 'elif' if 'elif' in L[k] else 'if'
                    while L[k].endswith('\\') and k + 1 < len(L): L.pop(k + 1); L[k] = L[k][:-1]
                    if '/* ' in L[k] and '*/' not in L[k] and k + 1 < len(L): L.pop(k + 1)
                    L[k] = f'#{q} {r.randint(0, 1)}'; hit = True
                    if k and L[k - 1].endswith('#\\'): L.pop(k - 1)
                    break
            g.files[f] = '\n'.join(L)
        if not hit: dbg(o1.err[:300], o2.err[:300]); break
        wr()
    if o1.rc or o2.rc: res.genfail += 1; return res
    w1, w2 = seqof(o1.out), seqof(o2.out)
    if w1 is None or w2 is None: res.genfail += 1; return res
    if w1 != w2: res.count('references-disagree'); dbg('disagree', w1[-60:], w2[-60:]); return res
    if not re.fullmatch(r'[\d,]+-1', w1): res.count('discard-junk-active'); return res
    res.evals += 1
    res.distinct.add(h(w1))
    ids = w1.split(',')
    res.events += len(ids); res.count('markers-selected', len(ids)); res.count('markers-skipped', g.mk - len(set(ids)) + 1); res.count('files', len(g.files))
    spec = '; '.join(f'ln -s {t} "{p}"' if t else f'mkdir "{p}"' for p, t in g.special.items())
    desc = f'{spec}; slimcc -std={sstd} -w -E -P {shlex.join(opt)} t.c; gcc -std={gstd} -w -E -P {shlex.join(opt)} t.c'
    o = run([slim, '-std=' + sstd, '-w', '-E', '-P', *opt, 't.c'], cwd=d)

    def viol(k, m): res.violation(f'{k}:{h(repr(g.files))}', m, g.files, desc)
    if o.rc or o.to:
        viol('reject', f'rejected: {o.err[:500]}'); return res
    s = seqof(o.out)
    if s != w1:
        a, b = w1.split(','), (s or '').split(',')
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        viol('text', f'markers selected differ at position {k}: expected ...{",".join(a[max(0, k - 3):k + 4])}..., slimcc ...{",".join(b[max(0, k - 3):k + 4])}...'); return res
    o = run([slim, '-std=' + sstd, '-w', '-c', '-o', 't.o', *opt, 't.c'], cwd=d)
    if o.rc or o.to:
        if any(run([c, '-std=' + gstd, '-w', '-fsyntax-only', *opt, 't.c'], cwd=d).rc for c in ('gcc', 'clang')): res.count('not-a-program'); return res
        viol('reject-compile', f'-c rejected: {o.err[:500]}'); return res
    e = symtab(os.path.join(d, 't.o'))['seq'][0]
    v = [int.from_bytes(e['data'][i:i + 4], 'little', signed=True) for i in range(0, e['size'], 4)]
    if ','.join(map(str, v)) != w1:
        viol('object', f'the object file holds {v[:40]}..., selected text {w1[:200]}'); return res
    res.count('objects')
    res.sample = res.sample or dict(case=cid, options=opt, files=sorted(g.files), markers=w1[:120])
    return res


def dbg(*a):
    if os.environ.get('VERIF_DEBUG'): print(*a, file=sys.stderr, flush=True)


def check(ctx):
    slim = ctx.build('plain')
    ctx.rule = 'distinct = distinct selected marker sequences on which gcc and clang agree'
    ctx.assumptions = ['gcc and clang agreeing on the selected text is the oracle']
    ctx.pmap(lambda c: work(ctx, slim, c), range(ctx.n(3200, 40000)))


if __name__ == '__main__':
    main('P02', check, min_events=5000, min_distinct=500, max_genfail_frac=.3)
