"""D03: options reach the tool they address, in order, with their effect.  Random command lines, each judged by what it does, not by the arguments passed on:
 pp     -D/-U/-I/-isystem/-idirafter/-include sequences: values of the macros in the preprocessed text, against gcc
 mode   -fPIC/-fpie/-fno-*/-f[un]signed-char/-std/-ansi/-pthread sequences: predefined macros and char signedness, against gcc
 stage  -E/-S/-c together: the kind of output written
 as     -Wa options on .s/.S/.c inputs: bytes of the section they define, against gcc
 link   inputs, archives, -l/-L/-Wl/-Xlinker/-s and link modes in random order: ELF type, interpreter, needed libraries, run paths, exported symbols, which definitions were chosen, output of the run, against gcc
 ign    options documented as ignored: same bytes with and without
 unk    unknown or incomplete options: rejected, no output"""
import os, sys, shlex
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import corpus


# ---- pp
def gen_pp(r, d):
    names = ['X', 'Y', 'Z', 'F', 'G', 'LONGER_NAME', 'linux', '__linux__', '__x86_64__']
    vals = ['1', '2', 'X', 'Y', 'Z', 'a b', '"s"', "'c'", '(1+2)', 'F(1)', '', '0x10', 'X Y', '/* c */3', '-1', 'f=g', '=', '==1', '1.5e+3']
    files = {}
    dirs = ['i1', 'i2', 'i3', 'i4']
    for dd in dirs + ['.']:
        for f in ('h.h', 'k.h', 'inc.h', 'fo.h'):
            if r.random() < .55: files[os.path.normpath(f'{dd}/{f}')] = '\n'.join(r.choice((f'from_{dd.replace(".", "cwd")}_{f[0]}', f'val X in {dd.replace(".", "cwd")}', f'#undef {r.choice(names[:5])}', f'#define L{r.randint(0, 3)} {r.randint(0, 99)} {r.choice(names[:4])}', f'#ifndef {r.choice(names[:5])}\n#define {r.choice(names[:5])} in_{f[0]}{dd.replace(".", "c")}\n#endif')) for _ in range(r.randint(1, 3))) + '\n'
    opts = []
    for _ in range(r.randint(2, 12)):
        k = r.random(); j = r.random() < .5
        if k < .4:
            n = r.choice(names)
            if n in 'FG' and r.random() < .7: n += r.choice(('(x)', '(x,y)', '(...)', '()', '(x,...)'))
            v = r.choice(('', '=' + r.choice(vals), '=' + r.choice(vals), '=' + r.choice(vals)))
            if '(' in n and v: v = r.choice(('=x+1', '=#x', '=<x>', v)) if 'x' in n else v
            o = ('-D', n + v)
        elif k < .6: o = ('-U', r.choice(names))
        elif k < .8: o = (r.choice(('-I', '-I', '-isystem', '-idirafter')), r.choice(dirs) + r.choice(('', '', '/', '//')))
        elif k < .9: o = ('-include', r.choice(('h.h', 'k.h', 'inc.h', 'i1/h.h', 'i2/k.h')))
        else: o = ('-D', r.choice(('P', 'Q')) + r.choice(('', '=1')))
        opts += [''.join(o)] if j and o[0] != '-include' else list(o)
    src = ''.join(f'#if __has_include(<{f}>)\n#include <{f}>\n#endif\n#if __has_include("{f}")\n#include "{f}"\n#endif\n' for f in ('h.h', 'fo.h', 'k.h') if r.random() < .7)
    for n in names + ['P', 'Q', 'L0', 'L1', 'L2', 'L3']:
        src += f'{{{n}}} {n} | {n}(7) | {n}(8,9) |\n#ifdef {n}\n  {{{n}}} is defined\n#endif\n'.replace('{' + n + '}', 'x_' + n)
    files['m.c'] = '#line 1\n' + src
    return opts, files


def norm_pp(t):
    t = '\n'.join(x for x in t.split('\n') if not x.startswith('#'))
    return re.sub(r'\s+', ' ', re.sub(r'([^\w\s])', r' \1 ', t)).strip()


def do_pp(ctx, slim, r, d, res, viol):
    opts, files = gen_pp(r, d)
    put(d, files)
    pos = r.random() < .5
    args = ['-E', '-P'] + (opts + ['m.c'] if pos else ['m.c'] + opts)
    a = run(['gcc', '-w', '-std=gnu17', *args], cwd=d)
    # macros whose expansion is invalid (wrong argument count) make gcc fail: not judged
    b = run([slim, *args], cwd=d)
    cmd = 'slimcc ' + shlex.join(args)
    if a.rc:
        if b.rc == 0 and 'No such file' in a.err: viol('pp-accept', f'accepted, gcc: {a.err[:300]}', files, cmd)
        res.count('pp-invalid'); return
    if b.rc: return viol('pp-reject', b.err[:400], files, cmd)
    x, y = norm_pp(a.out), norm_pp(b.out)
    if x != y:
        i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
        return viol('pp', f'preprocessed text differs: gcc ...{x[max(0, i - 60):i + 80]!r} slimcc ...{y[max(0, i - 60):i + 80]!r}', files, cmd)
    res.count('pp'); res.events += x.count('|'); res.distinct.add(h(x))


def put(d, files):
    for f, t in files.items():
        p = os.path.join(d, f); os.makedirs(os.path.dirname(p) or d, exist_ok=True)
        open(p, 'w').write(t)


# ---- mode
MODE_SRC = '''#include <stdio.h>
#define S_(x) #x
#define S(x) S_(x)
int main(void) {
  printf("pic %s PIC %s pie %s PIE %s re %s\\n", S(__pic__), S(__PIC__), S(__pie__), S(__PIE__), S(_REENTRANT));
#ifdef __STDC_VERSION__
  printf("std %ld\\n", __STDC_VERSION__ > 201710L ? 999L : (long)__STDC_VERSION__);
#else
  printf("nostd\\n");
#endif
#ifdef __STRICT_ANSI__
  printf("strict\\n");
#endif
  printf("%d %d %d %d\\n", (char)-1 < 0, (int)(char)200, '\\xff' < 0, "\\xff"[0] < 0);
  { char c = 127; c++; printf("%d\\n", c < 0); }
  return 0;
}
'''


def do_mode(ctx, slim, r, d, res, viol):
    put(d, {'m.c': MODE_SRC})
    opts = []
    for _ in range(r.randint(1, 6)):
        opts.append(r.choice(('-fPIC', '-fpic', '-fpie', '-fPIE', '-fno-pic', '-fno-PIC', '-fno-pie', '-fno-PIE', '-funsigned-char', '-fsigned-char', '-pthread', '-std=c99', '-std=c11', '-std=c17', '-std=c89', '-std=c18', '-std=c90', '-std=c23',
                              '--std=c11', '--std=c99', '-ansi', '-O2', '-O0', '-g', '-g0', '-D_REENTRANT=1', '-w')))
    g = [x.replace('c23', 'c2x') for x in opts]
    # slimcc does not define __STRICT_ANSI__ for -std=cXX, only -ansi: ask gcc without the strictness unless -ansi was given
    g = [re.sub(r'^--?std=c', '-std=gnu', x) if x != '-ansi' else '-std=gnu89' for x in g] + (['-D__STRICT_ANSI__'] if '-ansi' in opts else [])
    if '-std=gnu18' in g: pass
    k = r.choice(('-no-pie',)) if any('no-p' in x or 'no-P' in x for x in opts) else '-w'
    a = run(['gcc', '-w', *g, k, '-o', 'g', 'm.c'], cwd=d)
    if a.rc: raise HarnessError(a.err)
    cmd = 'slimcc ' + shlex.join([*opts, k, 'm.c'])
    b = run([slim, *opts, k, '-o', 's', 'm.c'], cwd=d)
    if b.rc: return viol('mode-reject', b.err[:300], {'m.c': MODE_SRC}, cmd)
    x, y = run(['./g'], cwd=d), run(['./s'], cwd=d)
    if (x.rc, x.out) != (y.rc, y.out): return viol('mode', f'expected {x.out!r}, got {y.rc} {y.out!r}', {'m.c': MODE_SRC}, cmd)
    res.count('mode'); res.events += 6; res.distinct.add(h(repr(opts)))


# ---- stage
def do_stage(ctx, slim, r, d, res, viol):
    put(d, {'m.c': '#define N main\nint N(void) { return 0; }\n'})
    fl = [r.choice(('-E', '-S', '-c')) for _ in range(r.randint(1, 3))]
    o = ['-o', 'out'] if r.random() < .7 else []
    args = [*fl, *o, 'm.c']; r.shuffle(fl)
    kinds = []
    for n, cc in (('g', ['gcc', '-w']), ('s', [slim])):
        dd = os.path.join(d, n); os.makedirs(dd); put(dd, {'m.c': open(os.path.join(d, 'm.c')).read()})
        a = run([*cc, *args], cwd=dd)
        k = [a.rc, 'text' if 'main' in a.out else '']
        for f in sorted(os.listdir(dd)):
            t = open(os.path.join(dd, f), 'rb').read()
            k.append((f, 'elf' if t[:4] == b'\x7fELF' else 'asm' if b'.globl' in t else 'c'))
        kinds.append(k)
    if kinds[0] != kinds[1]: return viol('stage', f'gcc {kinds[0]}, slimcc {kinds[1]}', {}, 'slimcc ' + shlex.join(args))
    res.count('stage'); res.events += 1; res.distinct.add(h(repr(args)))


# ---- as
def do_as(ctx, slim, r, d, res, viol):
    files = {'a1/x.inc': '\t.byte 0x11\n', 'a2/x.inc': '\t.byte 0x22\n', 'a2/y.inc': '\t.byte 0x33\n', 'a1/bin': 'AB', 'a2/bin': 'CD'}
    body = '\t.section mine,"a"\n' + ''.join(f'\t.ifdef {n}\n\t.long {n}\n\t.endif\n' for n in ('FOO', 'BAR', 'BAZ'))
    body += ''.join(f'\t.ifdef {n}I\n\t.include "{f}"\n\t.endif\n' for n, f in (('X', 'x.inc'), ('Y', 'y.inc')))
    opts, defs = [], []
    for _ in range(r.randint(1, 6)):
        k = r.random()
        if k < .6:
            n = r.choice(('FOO', 'BAR', 'BAZ', 'FOO'))
            defs.append(n); v = str(r.randint(0, 500)) if r.random() < .6 else r.choice(('FOO', 'BAR')) + '+1'
            opts.append(r.choice((['--defsym', f'{n}={v}'], ['--defsym', f'{n}={v}'])))
        elif k < .9: opts.append(r.choice((['-I', 'a1'], ['-Ia2'], ['-I', 'a2'])))
        else: opts.append(r.choice((['--noexecstack'], ['-W'], ['--warn'], ['-L'])))
    if any('a2' in ' '.join(o) for o in opts): opts.append(['--defsym', 'YI=1'])
    if any('-I' in ' '.join(o) for o in opts): opts.append(['--defsym', 'XI=1'])
    flat = []
    while opts:
        n = r.randint(1, 3); o = sum(opts[:n], []); opts = opts[n:]
        if r.random() < .3: flat += ['-Wa,' + x for x in o]
        else: flat.append('-Wa,' + ','.join(o))
    k = r.choice(('s', 'S', 'c', 'two'))
    if k == 's': files['m.s'] = body; inp = ['m.s']
    elif k == 'S': files['m.S'] = '#define LONG .long\n' + body.replace('.long', 'LONG') + '// comment\n'; inp = ['m.S']
    else: files['m.c'] = '__asm__(' + '\n'.join('"' + x.replace('\t', '\\t').replace('"', '\\"') + '\\n"' for x in body.split('\n')) + '"\\n.text\\n");\nint main(void) { return 0; }\n'; inp = ['m.c']
    if k == 'two': files['n.s'] = body; inp.append('n.s')
    put(d, files)
    args = [flat, inp]; r.shuffle(args); args = ['-c'] + sum(args, [])
    got = []
    for n, cc in (('g', ['gcc', '-w']), ('s', [slim])):
        a = run([*cc, *args], cwd=d)
        k = [a.rc == 0]
        for f in inp:
            o = os.path.join(d, f[0] + '.o')
            if a.rc == 0:
                q = run(['objcopy', '-O', 'binary', '-j', 'mine', '--set-section-flags', 'mine=alloc', o, o + '.bin'], cwd=d)
                k.append(open(o + '.bin', 'rb').read() if os.path.exists(o + '.bin') else None)
                for x in (o, o + '.bin'):
                    if os.path.exists(x): os.unlink(x)
        got.append(k)
    if got[0] != got[1]: return viol('as', f'gcc {got[0]}, slimcc {got[1]} {a.err[:200]}', files, 'slimcc ' + shlex.join(args))
    res.count('as-ok' if got[0][0] else 'as-invalid'); res.events += 1; res.distinct.add(h(repr(got[0])))


# ---- ignored / unknown
IGNORED = ['-Wall', '-Wextra', '-Wno-unused', '-Wstrict-prototypes', '-Wfoo', '-Werror=foo', '-std=gnu11', '-std=gnu17', '-std=gnu99', '-march=native', '-march=x86-64', '-ffreestanding', '-fno-builtin', '-fno-lto', '-fno-asynchronous-unwind-tables',
           '-fno-delete-null-pointer-checks', '-fno-omit-frame-pointer', '-fno-stack-protector', '-fno-strict-aliasing', '-fno-strict-overflow', '-fwrapv', '-m64', '-mfpmath=sse', '-mno-red-zone', '-pedantic', '-w', '-Wno-error', '-g0', '-fsigned-char', '']
UNKNOWN = ['-fopenmp', '-m32', '-mx32', '-flto', '-save-temps', '-fsyntax-only', '-foo', '--bar', '-fpcc-struct-return', '-fpack-struct', '-fshort-enums', '-sharedd', '-staticc', '-fPICx', '-Xfoo', '-fwrapvv', '-m64x', '-mcmodel=large', '-fshort-wchar', '-zfoo',
           '-nostdlibb', '-pthreads', '-rdynamics', '-ansi-c', '-fdefer', '-fno-such-thing', '-EE', '-SS', '-cc', '-PP', '-MX', '-q', '--', '---', '-fleading-underscore', '-fms-extensions-x', '-k8', '-nostdincc', '-Sx', '-cfoo', '-###x', '-ffreestandingg', '-wx', '-pedantic-foo']
NEEDARG = ['-o', '-I', '-D', '-U', '-include', '-x', '-L', '-l', '-Xlinker', '-MF', '-MT', '-MQ', '-isystem', '-idirafter', '--std']
BADVAL = [['-x', 'fortran'], ['-xc++'], ['-std=c42'], ['-std=c'], ['--std', 'c42'], ['--std', 'foo'], ['--std=c77']]


def do_ign(ctx, slim, r, d, res, viol):
    _, src, base, _ = corpus.program(r, small=True)
    base = list(base)
    with open(os.path.join(d, 'm.c'), 'w', encoding='utf-8', errors='surrogateescape') as f: f.write(src)
    kind = r.choice(('-S', '-c', '-E'))
    ig = [r.choice(IGNORED) for _ in range(r.randint(1, 5))]
    a = run([slim, *base, kind, '-o', 'a', 'm.c'], cwd=d)
    mix = [*base, kind]
    for x in ig: mix.insert(r.choice([0, len(mix)]), x)
    b = run([slim, *mix, '-o', 'b', 'm.c'] if r.random() < .5 else [slim, 'm.c', '-o', 'b', *mix], cwd=d)
    rd = lambda f: open(os.path.join(d, f), 'rb').read() if os.path.exists(os.path.join(d, f)) else None
    if a.rc != b.rc or rd('a') != rd('b'): return viol('ignored', f'ignored options change the outcome: rc {a.rc} -> {b.rc} {b.err[:200]}', {'m.c': src}, 'slimcc ' + shlex.join(mix))
    res.count('ign'); res.events += 1; res.distinct.add(h(repr((ig, kind, len(src)))))


def do_unk(ctx, slim, r, d, res, viol):
    put(d, {'m.c': 'int main(void) { return 0; }\n'})
    k = r.random()
    args = [r.choice(('-c', '-S', '-E', '-w', '-O1')), 'm.c']
    if k < .6: args.insert(r.randint(0, len(args)), r.choice(UNKNOWN))
    elif k < .8: args.append(r.choice(NEEDARG))
    else: args[0:0] = r.choice(BADVAL)
    b = run([slim, *args], cwd=d)
    left = [f for f in os.listdir(d) if f != 'm.c']
    if b.rc <= 0 or not b.err.strip() or left or b.out: return viol('unknown', f'exit status {b.rc}, message {b.err[:200]!r}, output {left} {b.out[:100]!r}', {}, 'slimcc ' + shlex.join(args))
    res.count('unk'); res.events += 1; res.distinct.add(h(repr(args)))


# ---- link
def fixtures(d):
    """archives, libraries and objects in d, built with gcc"""
    def cc(*a, **k):
        x = run(['gcc', '-w', '-fPIC', *a], cwd=d)
        if x.rc: raise HarnessError(x.err)
    for s in ('L1', 'L2', 'L3'): os.makedirs(os.path.join(d, s))
    S = {}
    for n in 'abcd': S[n] = f'#include <stdio.h>\nint who_{n}(void) {{ return {ord(n)}; }}\n__attribute__((constructor)) static void ct(void) {{ printf("ctor {n}\\n"); }}\n'
    S['a2'] = S['a'].replace('return 97', 'return 1097').replace('ctor a', 'ctor a2')
    S['b2'] = S['b'].replace('return 98', 'return 1098').replace('ctor b', 'ctor b2')
    S['e'] = 'int who_b(void);\nint who_e(void) { return who_b() + 10000; }\n'         # needs b
    S['f'] = 'int who_c(void);\nint who_f(void) { return who_c() + 20000; }\nint who_g(void) { return 7; }\n'
    S['h'] = 'int who_g(void);\nint who_h(void) { return who_g() + 5; }\n'
    for n, t in S.items():
        open(os.path.join(d, n + '.c'), 'w').write(t); cc('-c', n + '.c', '-o', n + '.o')
    ar = lambda o, *m: run(['ar', 'rcs', o, *[x + '.o' for x in m]], cwd=d)
    ar('libA.a', 'a', 'b', 'c'); ar('libB.a', 'a2', 'b2', 'd'); ar('libE.a', 'e', 'h'); ar('L1/libq.a', 'a', 'd'); ar('L2/libq.a', 'a2', 'd'); ar('L3/libz.a', 'f'); ar('L2/libr.a', 'e'); ar('L2/libboth.a', 'b')
    for L, v in (('L1', 1), ('L2', 2), ('L3', 3)):
        t = f'int shared_p(void) {{ return {v}; }}\nint who_c(void) {{ return {v} * 100; }}\n'; open(os.path.join(d, 'p.c'), 'w').write(t); cc('-shared', f'-Wl,-soname,libp{v}.so', 'p.c', '-o', f'{L}/libp.so')
        os.symlink('libp.so', os.path.join(d, L, f'libp{v}.so'))
    open(os.path.join(d, 'p.c'), 'w').write('int who_b(void) { return 555; }\nint unused_thing(void) { return 1; }\n'); cc('-shared', 'p.c', '-o', 'L1/libboth.so'); cc('-shared', 'p.c', '-o', 'L3/libboth.so')
    ar('L3/libboth.a', 'b2')
    for L in ('L1', 'L3'): pass


WEAK = ['who_' + c for c in 'abcdefgh'] + ['shared_p', 'my_sym', 'extra']


def gen_link(r):
    """-> (mode options, items in order, main source)"""
    mode = r.choice(('exe',) * 6 + ('shared', 'shared', 'static', 'static', 'no-pie', 'pie', 'static-pie', 'r', 'nostdlib', 'nostartfiles', 'nodefaultlibs', 'rdynamic', 'rdynamic'))
    items = []
    strong = r.sample(['who_a', 'who_b', 'who_c', 'who_e', 'who_h', 'shared_p', 'who_d'], r.randint(0, 3))
    st = mode in ('static', 'static-pie')
    if st or mode in ('nostdlib',): strong = [x for x in strong if x != 'shared_p'] if mode != 'nostdlib' else []
    lib = lambda: r.choice((['libA.a'], ['libB.a'], ['libE.a'], ['-lq'], ['-lr'], ['-lz'], ['L3/libz.a'], ['-l', 'q'], *([] if st else [['-lp'], ['-lp'], ['-lboth'], ['L1/libp.so'], ['-l', 'both']]), ['-lboth'] if 0 else ['-lq'], ['-l:libq.a'], ['a.o'], ['d.o']))
    def wl(*a):
        k = r.random()
        if a[0].startswith('--defsym='): return r.choice((['-Wl,--defsym,' + a[0][9:]], ['-Xlinker', '--defsym', '-Xlinker', a[0][9:]], ['-Xlinker', a[0]], ['-Wl,' + a[0]]))
        if k < .5: return ['-Wl,' + ','.join(a)]
        if k < .75: return ['-Wl,' + x for x in a]
        return sum((['-Xlinker', x] for x in a), [])
    for _ in range(r.randint(0, 5)):
        k = r.random()
        if k < .45: items.append(lib())
        elif k < .6: items.append(wl('--whole-archive') + sum((x for x in (lib() for _ in range(r.randint(1, 2))) if x[0] not in ('a.o', 'd.o')), []) + wl('--no-whole-archive'))
        elif k < .7: items.append(wl('--start-group') + sum((lib() for _ in range(r.randint(1, 3))), []) + wl('--end-group'))
        elif k < .8 and not st: items.append(wl('--as-needed') + lib() + (wl('--no-as-needed') if r.random() < .7 else []))
        elif k < .9 and not st: items.append(wl('-Bstatic') + r.choice((['-lboth'], ['-lq'], ['-l', 'both'])) + wl('-Bdynamic'))
        else: items.append(lib())
    main = ['m.c'] if r.random() < .8 else ['-x', 'c', 'm.cc', '-x', 'none']
    src = [main, ['x.c'], ['y.s']] if r.random() < .4 else [main, ['x.c']] if r.random() < .5 else [main]
    for s in src: items.insert(r.choice([0, 0, r.randint(0, len(items))]), s)
    ex = []
    for _ in range(r.randint(0, 3)):
        ex.append(r.choice((wl('--defsym=my_sym=77'), ['-Wl,--defsym,my_sym=78'], wl('-u', 'who_d'), wl('-u', 'who_a'), wl('-rpath', '/opt/zzz'), wl('-rpath', '$ORIGIN/L1'), wl('-z', 'now'), wl('-z', 'lazy'), wl('--wrap=wrapped'), ['-s'],
                            wl('-soname', 'nm.so'), wl('--hash-style=sysv'), wl('-z', 'nodelete'), wl('--export-dynamic-symbol=extra') if 0 else wl('-z', 'origin'), wl('--enable-new-dtags'), wl('--disable-new-dtags'), wl('-e', 'alt_entry') if 0 else ['-pthread'], wl('-Map=map.txt'))))
    full = r.random() < .6
    for L in r.sample(('L1', 'L2', 'L3'), 3):
        if full or r.random() < .7: ex.append(r.choice(([f'-L{L}'], ['-L', L], [f'-L{L}/'])))
    for x in ex: items.insert(r.randint(0, len(items)), x)
    mo = {'exe': [], 'shared': ['-shared', '-fPIC'], 'static': ['-static'], 'no-pie': ['-no-pie'] + r.choice(([], ['-fno-pie'])), 'pie': ['-pie', '-fPIE'], 'static-pie': ['-static-pie'], 'r': ['-r'], 'nostdlib': ['-nostdlib'],
          'nostartfiles': ['-nostartfiles'], 'nodefaultlibs': ['-nodefaultlibs'], 'rdynamic': ['-rdynamic']}[mode]
    if mode == 'exe' and r.random() < .3: mo = r.choice((['-pie', '-no-pie'], ['-no-pie', '-pie', '-fPIE'], ['-static-libgcc'], ['-no-pie', '-rdynamic'], ['-pthread'], ['-no-pie', '-pthread', '-fno-pic'], ['-static', '-pthread'], ['-nodefaultlibs', '-lc']))
    if full: items += [[x] for x in ('libE.a', '-lz', '-lq', 'libA.a', *(() if st else ('-lp',)))]
    if mode == 'nodefaultlibs': items.append(['-lc'])
    if mo in (['-pie', '-no-pie'], ['-no-pie', '-pie', '-fPIE']): items.insert(0, mo)
    else:
        for x in mo: items.insert(r.randint(0, len(items)) if x != '-lc' else len(items), [x])
    # a program that says what it was linked with
    t = '' if mode == 'nostdlib' else '#include <stdio.h>\n'
    if mode == 'rdynamic': t = '#define _GNU_SOURCE\n#include <dlfcn.h>\n' + t
    for w in WEAK: t += f'extern int {w}(void){"" if w in strong else " __attribute__((weak))"};\n' if w not in ('my_sym', 'extra') else f'extern char {w}[] __attribute__((weak));\n'
    t += 'int wrapped(int x) { return x; }\nint __real_wrapped(int) __attribute__((weak));\nint __wrap_wrapped(int x) { return x + 1000; }\nint callw(void);\nint *dummy_data = 0; int gvar = 5; __thread int tv = 3;\n'
    if mode == 'nostdlib':
        t += 'static void ex(int n) { __asm__ volatile("syscall" : : "a"(60), "D"(n) : "memory"); }\n__attribute__((used)) void _start(void) { ex(42' + ''.join(f' + ({w} ? {w}() : 0)' for w in strong) + '); }\n'
    else:
        if mode == 'nostartfiles': t += '#include <stdlib.h>\n#include <unistd.h>\nint main(void);\nvoid _start(void) { __asm__ volatile("and $-16, %rsp"); exit(main()); }\n'
        t += 'int dyn_vis(void) { return 31; }\nint report(void) {\n'
        for w in WEAK: t += f'  printf("{w} %d\\n", {w} ? {w}() : -1);\n' if w not in ('my_sym', 'extra') else f'  printf("{w} %d\\n", (int)(long){w} < 1000 && (int)(long){w} > 0 ? (int)(long){w} : -1);\n' if mode in ('no-pie', 'static') else ''
        if mode == 'rdynamic': t += '  printf("dyn %d\\n", dlsym(RTLD_DEFAULT, "dyn_vis") != 0);\n'
        t += '  printf("gv %d %d\\n", gvar, tv); fflush(stdout); return 0;\n}\n'
        if mode != 'shared': t += 'int main(void) { return report(); }\n'
    return mode, mo, sum(items, []), t, 'y.s' in sum(items, [])


def elfinfo(p):
    h_ = run(['readelf', '-hlW', p]).out
    dy = run(['readelf', '-dW', p]).out
    ty = re.search(r'Type:\s+(\w+)', h_)
    i = dict(type=ty.group(1) if ty else None, interp='INTERP' in h_,
             needed=[x for x in re.findall(r'\(NEEDED\).*\[(.*)\]', dy) if not re.match(r'libc\.|libgcc_s|ld-linux|libm\.', x)],
             libc='libc.so.6' in dy, rpath=re.findall(r'\((?:RPATH|RUNPATH)\).*\[(.*)\]', dy), rkind=re.findall(r'\((RPATH|RUNPATH)\)', dy), soname=re.findall(r'\(SONAME\).*\[(.*)\]', dy),
             now='BIND_NOW' in dy or bool(re.search(r'FLAGS_1\).*NOW', dy)), nodelete='NODELETE' in dy, symtab='.symtab' in run(['readelf', '-SW', p]).out, execstack=bool(re.search(r'GNU_STACK.*RWE', h_)))
    nm = run(['nm', '-D', '--defined-only', p]).out
    i['exports'] = sorted(x for x in re.findall(r'\s[A-Za-z]\s(\S+)$', nm, re.M) if re.match(r'who_|shared_p|report$|dyn_vis|gvar|main$|wrapped|callw|my_sym', x))
    nm = run(['nm', '--defined-only', p]).out
    i['defs'] = sorted(x for x in re.findall(r'\s[A-Za-z]\s(\S+)$', nm, re.M) if re.match(r'who_|shared_p|report$|dyn_vis|gvar|main$|_start$|wrapped|callw|my_sym', x))
    return i


LOADER = '''#include <dlfcn.h>
#include <stdio.h>
int main(int c, char **v) { void *h = dlopen(v[1], RTLD_LAZY); if (!h) { printf("%s\\n", dlerror()); return 3; }
 int (*f)(void) = dlsym(h, "report"); if (!f) return 4; return f(); }
'''


def do_link(ctx, slim, r, d, res, viol, fx):
    mode, mo, args, src, hasy = gen_link(r)
    shutil.copytree(fx, d, dirs_exist_ok=True, symlinks=True)
    files = {'m.c': src, 'm.cc': src, 'x.c': 'int wrapped(int); int callw(void) { return wrapped(1); }\nint extra_x = 3;\n', 'y.s': '\t.globl y_sym\n\t.text\ny_sym:\tret\n\t.section .note.GNU-stack,"",@progbits\n'}
    put(d, files)
    out = 'out.so' if mode == 'shared' else 'out'
    o = ['-o', out] if r.random() < .7 else ['-o' + out]
    args = o + args if r.random() < .5 else args + o
    cmd = 'slimcc ' + shlex.join(args)
    # gcc without the distribution's defaults
    neutral = [] if mode == 'r' else ['-Wl,--no-as-needed,-z,lazy']
    a = run(['gcc', '-w', *neutral, *args], cwd=d)
    ga = None
    if a.rc == 0: os.rename(os.path.join(d, out), os.path.join(d, 'g' + out)); ga = elfinfo(os.path.join(d, 'g' + out))
    gm = os.path.exists(os.path.join(d, 'map.txt'))
    if gm: os.unlink(os.path.join(d, 'map.txt'))
    b = run([slim, '-w', *args], cwd=d)
    if (a.rc == 0) != (b.rc == 0): return viol('link-rc', f'gcc rc {a.rc} {a.err[-300:]!r}; slimcc rc {b.rc} {b.err[-300:]!r}', files, cmd)
    if a.rc: res.count('link-fails'); res.events += 1; return
    sb = elfinfo(os.path.join(d, out))
    if mode in ('nodefaultlibs', 'nostdlib', 'nostartfiles', 'static', 'static-pie', 'r'): pass
    for k in ga:
        if ga[k] != sb[k]: return viol('link-elf', f'{mode}: {k}: expected {ga[k]}, got {sb[k]}', files, cmd)
    sm = os.path.exists(os.path.join(d, 'map.txt'))
    if gm != sm: return viol('link-map', f'-Map: expected {gm}, got {sm}', files, cmd)
    res.count('link-' + mode); res.events += len(ga); res.distinct.add(h(repr((mode, ga))))
    env = {'LD_LIBRARY_PATH': 'L1:L2:L3'}
    outs = []
    for p, cc in (('g' + out, 'gcc'), (out, slim)):
        if mode == 'shared':
            if not os.path.exists(os.path.join(d, 'ld')):
                put(d, {'ld.c': LOADER}); q = run(['gcc', '-w', '-rdynamic', '-o', 'ld', 'ld.c'], cwd=d)
            outs.append(run(['./ld', './' + p], cwd=d, env=env))
        elif mode == 'r':
            os.rename(os.path.join(d, p), os.path.join(d, 'part.o'))
            q = run([cc, '-o', 'final', '-Wl,--no-as-needed', 'part.o', '-LL1', '-LL2', '-LL3', '-lp', '-lz', '-lq', 'libA.a', 'libE.a', 'libA.a'], cwd=d)
            outs.append(run(['./final'], cwd=d, env=env) if q.rc == 0 else R(q.rc, '', '', False))
        else: outs.append(run(['./' + p], cwd=d, env=env))
    x, y = outs
    # undefined functions called lazily crash both: compare what was printed
    x.out = x.out.replace('/gout', '/out')
    if (x.rc, x.out) != (y.rc, y.out): return viol('link-run', f'{mode}: expected rc {x.rc} {x.out!r}, got rc {y.rc} {y.out!r} {y.err[:200]}', files, cmd)
    res.count('link-runs'); res.events += x.out.count('\n')
    res.sample = dict(cmd=cmd, elf=ga)


def work(ctx, slim, fx, cid):
    r = ctx.rng('p', cid)
    res = Res()
    d = os.path.join(ctx.work, f'w{os.getpid()}', 'x')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    def viol(k, m, files, cmd): res.violation(f'{k}:{h(repr((files, cmd)))}', f'{k}: {m}\n{cmd}', files, cmd)
    k = r.choice(('pp',) * 5 + ('mode', 'mode', 'stage', 'as', 'as', 'ign', 'ign', 'unk') + ('link',) * 8)
    res.evals += 1
    f = globals()['do_' + k]
    f(ctx, slim, r, d, res, viol, *([fx] if k == 'link' else []))
    return res


def check(ctx):
    slim = ctx.build('plain')
    ctx.rule = 'distinct = distinct observed result (preprocessed text, option sequence, section bytes, ELF properties)'
    ctx.assumptions = ['gcc/GNU as/GNU ld as the reference for the effect of options; the distribution defaults of gcc (--as-needed, -z now) are switched off', 'C library and libgcc entries of the dynamic section are not compared']
    fx = ctx.dir('fx'); fixtures(fx)
    ctx.pmap(lambda c: work(ctx, slim, fx, c), range(ctx.n(4000, 50000)))


if __name__ == '__main__':
    main('D03', check, min_events=5000, min_distinct=300)
