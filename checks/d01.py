"""D01: truthful outcome, no debris.  Random command lines (inputs of every kind, valid and broken; modes; output names) run in a scratch directory, unfaulted and under injected faults:
stand-ins for the assembler and linker that fail, die by a signal, write a partial output or are missing; a file-size limit (a full disk at a chosen byte) inherited by every
step; failing system calls in the driver (strace injection); full or closed standard output; children inherited from the process that exec'd the driver.
Monitors: exit status, snapshot of the directory before and after (created / changed / missing), log of every file any step created (LD_PRELOAD), contents of the outputs."""
import os, sys, shlex
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *

SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void logp(const char *p) {
  const char *l = getenv("D01_LOG"); if (!l || !p) return;
  int fd = (int)syscall(2, l, O_WRONLY|O_APPEND|O_CREAT|O_CLOEXEC, 0666); if (fd < 0) return;
  char b[5000]; if (p[0] != '/') { if (!getcwd(b, 2500)) return; strcat(b, "/"); strncat(b, p, 2000); } else { b[0] = 0; strncat(b, p, 4500); }
  strcat(b, "\n"); if (write(fd, b, strlen(b))) {} close(fd);
}
#define REAL(n) ({ static void *f; if (!f) f = dlsym(RTLD_NEXT, n); f; })
int mkstemp(char *t) { int r = ((int(*)(char*))REAL("mkstemp"))(t); if (r >= 0) logp(t); return r; }
int mkstemp64(char *t) { int r = ((int(*)(char*))REAL("mkstemp64"))(t); if (r >= 0) logp(t); return r; }
int mkstemps(char *t, int n) { int r = ((int(*)(char*,int))REAL("mkstemps"))(t, n); if (r >= 0) logp(t); return r; }
int mkostemp(char *t, int n) { int r = ((int(*)(char*,int))REAL("mkostemp"))(t, n); if (r >= 0) logp(t); return r; }
char *mkdtemp(char *t) { char *r = ((char*(*)(char*))REAL("mkdtemp"))(t); if (r) logp(t); return r; }
/* D01_DIE=n:k:sig:log - the n-th process the driver starts dies of a signal at its k-th file operation */
#include <signal.h>
static int nfork, die = -1, dsig; static char dlog[3000];
static void tick(void) {
  if (die < 0 || die--) return;
  int fd = (int)syscall(2, dlog, O_WRONLY|O_CREAT|O_CLOEXEC, 0666); if (fd >= 0) close(fd);
  signal(dsig, SIG_DFL); kill(getpid(), dsig); for (;;) pause();
}
pid_t fork(void) {
  pid_t r = ((pid_t(*)(void))REAL("fork"))(); const char *e = getenv("D01_DIE"); int n, k, sg, at;
  if (r > 0) nfork++;
  if (r == 0 && e && sscanf(e, "%d:%d:%d:%n", &n, &k, &sg, &at) == 3) { if (nfork == n) { die = k; dsig = sg; strncpy(dlog, e + at, sizeof dlog - 1); } unsetenv("D01_DIE"); tick(); }
  return r;
}
int fclose(FILE *f) { tick(); return ((int(*)(FILE*))REAL("fclose"))(f); }
FILE *open_memstream(char **b, size_t *n) { tick(); return ((FILE*(*)(char**,size_t*))REAL("open_memstream"))(b, n); }
FILE *fopen(const char *p, const char *m) { tick(); FILE *r = ((FILE*(*)(const char*,const char*))REAL("fopen"))(p, m); if (r && *m != 'r') logp(p); return r; }
FILE *fopen64(const char *p, const char *m) { FILE *r = ((FILE*(*)(const char*,const char*))REAL("fopen64"))(p, m); if (r && *m != 'r') logp(p); return r; }
int creat(const char *p, mode_t m) { int r = ((int(*)(const char*,mode_t))REAL("creat"))(p, m); if (r >= 0) logp(p); return r; }
#define OPEN(n) int n(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); \
  int r = ((int(*)(const char*,int,int))REAL(#n))(p, fl, m); if (r >= 0 && (fl & O_CREAT)) logp(p); return r; }
OPEN(open) OPEN(open64)
int rename(const char *a, const char *b) { int r = ((int(*)(const char*,const char*))REAL("rename"))(a, b); if (!r) logp(b); return r; }
'''

# stand-ins: $0 is found next to a file "mode"; the n-th call (counted in "calls") misbehaves
FAKE = r'''#!/bin/sh
d=$(dirname "$0"); echo x >> "$d/calls-TOOL"; n=$(wc -l < "$d/calls-TOOL")
if [ "$n" -ne WHEN ]; then exec TOOL "$@"; fi
o=; p=; for a in "$@"; do [ "$p" = -o ] && o=$a; p=$a; done
case MODE in
exit1) exit 1;; exit2) exit 2;; exit77) exit 77;; exit255) exit 255;;
kill) kill -KILL $$;; segv) kill -SEGV $$;; abrt) kill -ABRT $$;; term) kill -TERM $$;;
partial) printf '\177ELFjunk' > "$o"; exit 1;;
partialkill) printf '\177ELFjunk' > "$o"; kill -BUS $$;;
late) TOOL "$@"; exit 3;;
latekill) TOOL "$@"; kill -PIPE $$;;
slow) sleep 0.08; exec TOOL "$@";;
esac
'''
FAIL_MODES = ['exit1', 'exit2', 'exit77', 'exit255', 'kill', 'segv', 'abrt', 'term', 'partial', 'partialkill', 'late', 'latekill']


def sh_ok(d):
    return run(['strace', '-qq', '-o', '/dev/null', '-e', 'inject=write:error=ENOSPC:when=1', 'sh', '-c', 'echo x'], cwd=d)


class Case:
    """the inputs, the command line and what it should produce"""

    def __init__(s, r, fault):
        s.r = r; s.fault = fault
        s.files = {}                 # path -> text / bytes / ('gcc', src)
        s.mode = r.choice(('link', 'link', 'link', '-c', '-c', '-S', '-E', '-M', 'shared', 'r'))
        n = r.choice((1, 1, 1, 2, 2, 3, 4)) if fault != 'single' else 1
        s.inp = []                   # (path, kind, index, bad)
        s.bad = None
        want_bad = fault is None and r.random() < .4
        for i in range(n):
            k = r.choice(('c', 'c', 'c', 'c', 's', 'S', 'o', 'a', 'so', 'xc'))
            if s.mode == 'r' and k in ('a', 'so') or s.mode == 'shared' and k == 'a': k = 'c'
            if fault is not None and i == 0 and k not in ('c', 's', 'S'): k = 'c'
            s.inp.append([k, i])
        s.inp.sort(key=lambda x: x[0] in ('a', 'so'))
        if s.mode in ('link', 'shared', 'r') or r.random() < .5:
            s.inp.insert(r.randint(0, sum(x[0] not in ('a', 'so') for x in s.inp)), ['main', n])
        s.fns = [i for k, i in s.inp if k != 'main']
        used, out = set(), []
        for j, (k, i) in enumerate(s.inp):
            while 1:
                b = r.choice(('', '', 'sub/', './')) + r.choice((f'f{i}', f'f{i}', f'f{i}.x', f'f {i}' if r.random() < .3 else f'f{i}', f'f{i}.o' if r.random() < .3 else f'g{i}'))
                if os.path.basename(b) not in used: break
            ext = dict(main='.c', xc=r.choice(('.foo', '', '.cc', '.i')), c='.c', s='.s', S='.S', o=r.choice(('.o', '.o', '.lo')), a='.a', so=r.choice(('.so', '.so.1', '.so.1.2')))[k]
            used.add(os.path.basename(b)); stem = os.path.basename(b).rsplit('.', 1)[0] if not ext and '.' in os.path.basename(b) else os.path.basename(b)
            p = b + ext
            bad = None
            if want_bad and s.bad is None and (r.random() < .5 or j == len(s.inp) - 1):
                C = dict(c=['syntax', 'sema', 'cpp', 'noinc', 'asmerr', 'missing', 'dir', 'io', 'loop', 'unresolved', 'codegen'], s=['asmbad', 'missing', 'dir', 'unresolved'],
                         S=['cpp', 'noinc', 'asmbad', 'missing', 'dir', 'unresolved'], o=['garbage', 'missing', 'dir'], a=['garbage', 'missing'], so=['garbage', 'missing'])
                bad = r.choice(C['c' if k in ('main', 'xc') else k]); s.bad = bad
            s.put(p, k, i, bad)
            out.append((p, k, i, bad, stem))
        s.inp = out
        s.args()

    def put(s, p, k, i, bad):
        r = s.r
        if bad == 'missing': return
        if bad == 'dir': s.files[p] = ('dir',); return
        if bad == 'io': s.files[p] = ('link', '/proc/self/mem'); return
        if bad == 'loop': s.files[p] = ('link', os.path.basename(p)); return
        if bad == 'garbage': s.files[p] = b'\x7fELF\2\1\1' + bytes(60) if r.random() < .5 else b'not an object ((\n'; return
        if k in ('c', 'xc', 'main', 'o', 'a', 'so'):
            t = f'int f{i}(void) {{ return {i * 7 + 3}; }}\n'
            if k == 'main':
                t = '#include <stdio.h>\n' + ''.join(f'int f{x}(void);\n' for x in s.fns) + 'int fm(void) { int r = 0; ' + ''.join(f'r = r * 10 + f{x}();' for x in s.fns) + 'return r; }\nint main(void) { printf("%d\\n", fm()); return 0; }\n'
            t += ''.join(f'int pad{i}_{j}(int a, double b) {{ return a * {j} + b; }}\n' for j in range(r.choice((0, 0, 2, 60, 300))))
            if r.random() < .1: t = '#warning w\n' + t
            t += dict(syntax='int x = ;', sema='int g(void) { return undeclared_thing; }', cpp='#error no\n', noinc='#include "no_such.h"\n', asmerr='void q(void) { __asm__("bogus_insn %eax"); }', unresolved='int nowhere(void); int u(void) { return nowhere(); }',
                      codegen='int g2(void) { return sizeof(struct nope); }').get(bad, '') + '\n' if bad else ''
            s.files[p] = (k, t) if k in ('o', 'a', 'so') else t
            return
        t = f'\t.text\n\t.globl f{i}\nf{i}:\n\tmovl ${i * 7 + 3}, %eax\n\tret\n' + '\t.section .note.GNU-stack,"",@progbits\n'
        if k == 'S': t = f'#define R(x) $x\n/* c */\n' + t.replace('$', 'R(').replace(', %eax', '), %eax') + '#ifdef NOPE\n.err\n#endif\n'
        if bad == 'unresolved': t += '\t.text\n\tcall nowhere@PLT\n'
        t += dict(cpp='#error no\n', noinc='#include "no_such.h"\n', asmbad='\tbogus %eax\n').get(bad, '')
        s.files[p] = t

    def args(s):
        r = s.r
        m = s.mode
        single = len(s.inp) == 1
        s.o = None
        s.obad = None
        if r.random() < (.75 if m in ('link', 'shared', 'r') else .5) and (single or m in ('link', 'shared', 'r') or m != '-M' and s.fault is None and r.random() < .3):
            s.o = r.choice(('out', 'out.x', 'sub/out.o', './o.o', 'o p', 'stale', 'sub/stale', 'lnk'))
            if r.random() < .12:
                s.o, s.obad = r.choice((('nodir/out', 'nodir'), ('sub', 'isdir'), ('full', 'full'), ('f0/x', 'notdir'), ('dang', 'dang'), ('same', 'same')))
                if s.obad == 'same': s.o = r.choice([x[0] for x in s.inp]); s.o = r.choice((s.o, './' + s.o))
        s.files.setdefault('stale', 'stale content\n'); s.files.setdefault('sub/stale', 'old\n'); s.files['target-of-lnk'] = 'old\n'
        s.files['lnk'] = ('link', 'target-of-lnk'); s.files['full'] = ('link', '/dev/full'); s.files['dang'] = ('link', 'nowhere/x')
        s.files['bystander.o'] = 'x'; s.files['bystander.s'] = 'y'
        opts = []
        if m == 'shared': opts += ['-shared', '-fPIC']
        elif m == 'r': opts += ['-r']
        elif m != 'link': opts += [m]
        s.md = None
        if m in ('link', '-c', '-S', 'shared') and r.random() < .2:
            opts.append(r.choice(('-MD', '-MMD'))); s.md = 'auto'
            if r.random() < .4: s.md = r.choice(('dep.d', 'sub/dep.d')); opts += ['-MF', s.md]
        if s.o: opts += ['-o', s.o] if r.random() < .6 else ['-o' + s.o]
        if r.random() < .1: opts.append('-###'); s.dry = True
        else: s.dry = False
        if r.random() < .2: opts.append('-w')
        if r.random() < .2 and s.fault is None: opts.append('-g')
        s.opts = opts
        s.inargs = []
        cur = None
        for p, k, i, bad, stem in s.inp:
            want = {'xc': 'c'}.get(k)
            if want != cur or (want and r.random() < .2): s.inargs += ['-x', want or 'none'] if r.random() < .5 else ['-x' + (want or 'none')]
            cur = want
            s.inargs.append(p)

    def expect(s):
        """-> (outputs: path -> (kind, indices), stdout?: bool, fails: True / False / None)"""
        m = s.mode; outs = {}; so = None; fail = False
        lk = m in ('link', 'shared', 'r')

        def f(v):
            nonlocal fail
            if fail is not True: fail = v if v is True or fail is False else fail
        for p, k, i, bad, stem in s.inp:
            isC = k in ('c', 'xc', 'main')
            name = lambda e: s.o or stem + e
            if isC or k == 'S':
                if m in ('-E', '-M') or m == '-S' and k == 'S':
                    if s.o: outs[s.o] = ('text', [i])
                    else: so = (so or []) + [i]
                elif m == '-S': outs[name('.s')] = ('s', [i])
                elif m == '-c': outs[name('.o')] = ('o', [i])
                if s.md:
                    if s.md != 'auto': d = s.md
                    elif s.o: d = os.path.join(os.path.dirname(s.o), (os.path.basename(s.o).rsplit('.', 1)[0]) + '.d')
                    else: d = stem + '.d'
                    outs[os.path.normpath(d)] = ('dep', [i])
            elif k == 's' and m == '-c': outs[name('.o')] = ('o', [i])
            if bad:
                if isC or k == 'S':
                    if bad in ('cpp', 'noinc', 'missing', 'dir', 'io', 'loop'): f(True)
                    elif bad in ('syntax', 'sema', 'codegen'): f(m not in ('-E', '-M'))
                    elif bad in ('asmerr', 'asmbad'): f(lk or m == '-c')
                elif k == 's':
                    if bad in ('missing', 'dir', 'asmbad'): f(True if lk or m == '-c' else None)
                elif bad in ('missing', 'garbage', 'dir'): f(True if lk else None)
                if bad == 'unresolved': f(m == 'link' if lk else False)
        if lk and s.inp: outs[s.o or 'a.out'] = ({'link': 'exe', 'shared': 'so', 'r': 'o'}[m], [x[2] for x in s.inp])
        ins = {os.path.normpath(x[0]) for x in s.inp}
        for p, v in outs.items():  # an output named after an input ('-c f1.c -xc f1.o'): refused, and the input left alone
            if os.path.normpath(p) in ins: f(None if v[0] == 'dep' else True)
        if s.obad:
            uses = s.o in outs
            if s.obad == 'same': f(True if uses else None)
            elif s.obad == 'full': f(True if uses and m in ('-S', '-E', '-M') else None)
            else: f(True if uses else None)
        if s.o and len(s.inp) > 1 and m in ('-c', '-S', '-E'): return {}, None, (True if not s.dry and sum(x[1] in ('c', 'xc', 'main') for x in s.inp) > 1 else None)   # one output name for several outputs
        if s.dry: return {}, None, (None if fail else False)
        return outs, so, fail


def kindof(x):
    return x[0] if isinstance(x, tuple) else None


def materialise(c, d, gccdir):
    os.makedirs(os.path.join(d, 'sub'))
    for p, t in c.files.items():
        q = os.path.join(d, p)
        if isinstance(t, bytes): open(q, 'wb').write(t)
        elif isinstance(t, str): open(q, 'w').write(t)
        elif t[0] == 'dir': os.makedirs(q)
        elif t[0] == 'link': os.symlink(t[1], q)
        else:
            src = os.path.join(gccdir, 'x.c'); open(src, 'w').write(t[1])
            if t[0] == 'o': a = run(['gcc', '-w', '-fPIC', '-c', '-o', q, src])
            elif t[0] == 'so': a = run(['gcc', '-w', '-fPIC', '-shared', '-o', q, src])
            else: a = run(['sh', '-c', 'gcc -w -fPIC -c -o x.o x.c && ar rc "$1" x.o', 'sh', q], cwd=gccdir)
            if a.rc: raise HarnessError(a.err)


def snap(d):
    o = {}
    for a, ds, fs in os.walk(d):
        for f in fs + [x for x in ds if os.path.islink(os.path.join(a, x))]:
            p = os.path.join(a, f); q = os.path.relpath(p, d)
            if os.path.islink(p): o[q] = 'L' + os.readlink(p)
            elif os.path.isfile(p): o[q] = hashlib.md5(open(p, 'rb').read()).hexdigest()
            else: o[q] = 'special'
        for f in ds:
            if not os.path.islink(os.path.join(a, f)): o[os.path.relpath(os.path.join(a, f), d)] = 'D'
    return o


def spawn(cmd, d, env, stdout=None, fsize=None, closed=False):
    e = dict(os.environ); e.update(env)

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN if fsize is not None else signal.SIG_DFL)
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
        if fsize is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if closed: os.close(1)
    p = subprocess.Popen(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=pre, restore_signals=False)
    to = False
    try: out, err = p.communicate(timeout=30)
    except subprocess.TimeoutExpired:
        to = True; os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate()
    return R(p.returncode, (out or b'').decode('utf-8', 'replace'), err.decode('utf-8', 'replace'), to)


class World:
    def __init__(s, ctx, slim):
        s.ctx, s.slim = ctx, slim
        s.base = os.path.join(ctx.work, f'w{os.getpid()}'); shutil.rmtree(s.base, ignore_errors=True); os.makedirs(s.base)
        s.g = os.path.join(s.base, 'g'); os.makedirs(s.g); s.k = 0

    def fresh(s, c):
        s.k += 1
        d = os.path.join(s.base, f'd{s.k}', 'x'); os.makedirs(d); materialise(c, d, s.g)
        return d


def inspect(c, d, path, spec):
    """is the output complete, and made from the inputs it should be made from?  -> None or a complaint"""
    kind, idx = spec; p = os.path.join(d, path)
    if not os.path.exists(p): return 'missing'
    if c.r is None: return None
    fn = {x[2]: ('fm' if x[1] == 'main' else f'f{x[2]}') for x in c.inp}
    cmain = {x[2] for x in c.inp if x[1] == 'main'}
    if kind in ('text', 's'):
        t = open(p, errors='replace').read()
        if c.mode == '-M': return None if '.o' in t and ':' in t else 'no rule in it'
        return None if all(re.search(rf'\b{fn[i]}\b', t) for i in idx[-1:]) else f'does not mention {[fn[i] for i in idx]}'
    if kind == 'dep': return None if ':' in open(p, errors='replace').read() else 'no rule in it'
    if kind in ('o', 'so'):
        a = run(['nm'] + (['-D'] if kind == 'so' else []) + ['--defined-only', p])
        have = set(re.findall(r' T (\w+)$', a.out, re.M))
        want = {fn[x[2]] for x in c.inp if x[2] in idx and not (x[1] in ('a', 'so'))}
        return None if a.rc == 0 and want <= have else f'nm rc {a.rc}, defined {sorted(have)[:8]}, expected {sorted(want)}'
    e = run([p], cwd=d, env={'LD_LIBRARY_PATH': '.:sub'})
    v = 0
    for i in c.fns: v = v * 10 + i * 7 + 3
    return None if (e.rc, e.out) == (0, f'{v}\n') else f'running it: rc {e.rc} {e.out[:80]!r} {e.err[:200]!r}'


def norm(p): return os.path.normpath(p)


def observe(w, c, d, before, b, outs, log, what, res, cmd):
    """the monitors that hold whatever happened"""
    after = snap(d)
    ok = {norm(p) for p in outs}
    real = {norm(os.path.relpath(os.path.realpath(os.path.join(d, p)), d)) for p in outs}
    bad = []
    created = [p for p in after if p not in before]; changed = [p for p in before if after.get(p) != before[p]]
    x = [p for p in created if p not in ok and p not in real]
    if x: bad.append(('extra', f'files created that were not requested: {x}'))
    inputs = {norm(i[0]) for i in c.inp}
    x = [p for p in changed if p in inputs]
    if x: bad.append(('input', f'input files modified: {x}'))
    x = [p for p in changed if p not in inputs and p not in ok and p not in real]
    if x: bad.append(('clobber', f'other files modified: {x}'))
    mk = set(open(log).read().split('\n')) - {''} if os.path.exists(log) else set()
    top = os.path.realpath(d)
    deb = [p for p in mk if os.path.lexists(p) and not os.path.realpath(p).startswith((top, '/dev/', '/proc/')) and not os.path.realpath(p).startswith(os.path.dirname(top))]
    for p in deb:
        try: os.unlink(p)
        except OSError: pass
    if deb: bad.append(('debris', f'temporary files left behind: {deb}'))
    res.count('files-created-observed', len(mk)); res.events += 1 + len(mk)
    if b.to: bad.append(('hang', 'does not terminate'))
    elif b.rc < 0: bad.append(('signal', f'the driver died of signal {-b.rc}'))
    return after, bad


def work(ctx, slim, tools, cid):
    r = ctx.rng('p', cid)
    res = Res()
    fault = r.choice((None,) * 9 + ('as', 'as', 'ld', 'ld', 'missing', 'fsize', 'fsize', 'single', 'single', 'stdout', 'orphan', 'signal'))
    if fault == 'single' and not tools['strace']: fault = 'fsize'
    c = Case(r, fault)
    w = World(ctx, slim)
    shim = tools['shim']
    outs, so, fails = c.expect()
    cmd = [slim, *c.opts, *c.inargs] if r.random() < .5 else [slim, *c.inargs, *(['-x', 'none'] if r.random() < .3 else []), *c.opts]
    env = {'LD_PRELOAD': shim}
    txt = 'slimcc ' + shlex.join(cmd[1:])
    files = {p: t for p, t in c.files.items() if isinstance(t, (str, bytes))}

    def viol(k, m): res.violation(f'{k}:{h(repr((cmd[1:], c.files, fault, what)))}', f'{k} [{what}]: {m}\n{txt}', files, txt)
    # unfaulted
    what = 'no fault'
    d = w.fresh(c); before = snap(d); log = d + '.log'
    b = spawn(cmd, d, {**env, 'D01_LOG': log})
    res.evals += 1
    after, bad = observe(w, c, d, before, b, outs, log, what, res, txt)
    for k, m in bad: viol(k, m); return res
    if fails is True and b.rc == 0: viol('false-success', f'exit status 0 although a step must fail (bad input {c.bad}, output {c.obad}): {b.err[:200]}'); return res
    if fails is False and b.rc != 0: viol('false-failure', f'exit status {b.rc}: {b.err[:400]}'); return res
    if b.rc and not b.err: viol('silent', f'exit status {b.rc} without a message'); return res
    if b.rc == 0 and not c.obad:
        for p, spec in outs.items():
            m = inspect(c, d, p, spec)
            if m: viol('incomplete', f'exit status 0 but output {p!r}: {m}'); return res
            res.count('outputs-' + spec[0]); res.events += 1
        if so is not None and not c.dry:
            for i in so:
                f = 'fm' if any(x[1] == 'main' and x[2] == i for x in c.inp) else f'f{i}'
                if c.mode != '-M' and not re.search(rf'\b{f}\b', b.out): viol('incomplete', f'standard output lacks input {i}'); return res
    res.count('rc0' if b.rc == 0 else 'rc1'); res.distinct.add(h(repr((sorted(outs), c.mode, c.bad, c.obad, [x[1] for x in c.inp], fault))))
    if fault is None or b.rc or c.obad or c.dry: return res
    ref = {norm(p): after.get(norm(os.path.relpath(os.path.realpath(os.path.join(d, p)), os.path.realpath(d)))) for p in outs}
    refout = b.out
    sizes = [os.path.getsize(os.path.join(d, p)) for p in outs if os.path.isfile(os.path.join(d, p))] + [len(refout)]
    lk = c.mode in ('link', 'shared', 'r')
    nas = sum(x[1] in ('c', 'xc', 'main', 's', 'S') for x in c.inp) if lk or c.mode == '-c' else 0
    for rep in range(5):
        d = w.fresh(c); before = snap(d); log = d + '.log'
        e = {**env, 'D01_LOG': log}; must = None; pre = []; kw = {}; extra = []
        if fault in ('as', 'ld'):
            sd = os.path.join(os.path.dirname(d), 't'); os.makedirs(sd); when = r.randint(1, max(1, nas)) if fault == 'as' else 1
            mode = r.choice(FAIL_MODES + ['slow']); p = os.path.join(sd, 'fake'); open(p, 'w').write(FAKE.replace('TOOL', fault).replace('WHEN', str(when)).replace('MODE', mode)); os.chmod(p, 0o755)
            extra = [f'-fuse-{fault}={p}']; what = f'{fault} stand-in: {mode} at call {when}'
            used = nas >= when if fault == 'as' else lk
            must = True if used and mode != 'slow' else False
            if fault == 'as' and r.random() < .3:
                # the tool is found through PATH
                os.rename(p, os.path.join(sd, 'as')); extra = []; q = os.path.join(sd, 'as'); t = re.sub(r'(?<![-/\w])as "', '/usr/bin/as "', open(q).read()); open(q, 'w').write(t); e['PATH'] = sd + ':/usr/bin:/bin'
        elif fault == 'missing':
            k = r.choice(('as', 'ld')); sd = os.path.join(os.path.dirname(d), 't'); os.makedirs(sd); p = os.path.join(sd, 'tool')
            v = r.choice(('absent', 'noexec', 'dir', 'path', 'badfmt')); what = f'{k} missing: {v}'
            if v == 'noexec': open(p, 'w').write('x')
            elif v == 'dir': os.makedirs(p)
            elif v == 'badfmt': open(p, 'wb').write(b'\x7fELF\0\0'); os.chmod(p, 0o755)
            if v == 'path': e['PATH'] = sd; used = nas > 0 or lk
            else: extra = [f'-fuse-{k}={p}']; used = nas > 0 if k == 'as' else lk
            must = bool(used)
        elif fault == 'fsize':
            lim = r.choice([0, 1, r.randint(0, 200), r.randint(0, 5000), max(0, r.choice(sizes) - r.randint(1, 50)), r.randint(0, 2 * max(sizes) + 1), 1 << 20]); kw['fsize'] = lim; what = f'files limited to {lim} bytes'
            e.pop('D01_LOG'); e['LD_PRELOAD'] = ''
            pl = os.path.join(os.path.dirname(d), 'stdout'); kw['stdout'] = open(pl, 'wb')
        elif fault == 'single':
            sc, er = r.choice((('write', 'ENOSPC'), ('write', 'EIO'), ('read', 'EIO'), ('openat', 'EMFILE'), ('openat', 'EACCES'), ('close', 'EIO'), ('clone,clone3,fork,vfork', 'EAGAIN'), ('write', 'EDQUOT'), ('openat', 'ENFILE'),
                              ('execve', 'ENOMEM')))
            when = r.randint(1, 14) if sc != 'write' else r.randint(1, 4)
            if sc == 'execve': when = 2
            P = []
            if sc in ('read', 'openat') and r.random() < .6: P = ['-P', os.path.realpath(os.path.join(d, c.inp[0][0])), '-P', c.inp[0][0]]; when = r.randint(1, 4) if sc == 'read' else 1
            if sc in ('close', 'write') and outs and r.random() < .5: P = sum((['-P', p, '-P', os.path.realpath(os.path.join(d, p))] for p in outs), []); when = r.randint(1, 3)
            slog = os.path.join(os.path.dirname(d), 'st'); pre = ['strace', '-qq', '-o', slog, '-e', f'trace={sc}', '-e', f'inject={sc}:error={er}:when={when}', *P]; what = f'{sc} #{when} fails with {er} {P[1:2]}'
            if c.md is None and so is not None: pl = os.path.join(os.path.dirname(d), 'stdout'); kw['stdout'] = open(pl, 'wb')
        elif fault == 'stdout':
            if r.random() < .5: kw['stdout'] = open('/dev/full', 'wb'); what = 'standard output is full'
            else: kw['closed'] = True; what = 'standard output is closed'
            must = so is not None
            if not must and kw.get('closed'): must = None
        elif fault == 'signal':
            dl = os.path.join(os.path.dirname(d), 'killed'); sg = r.choice((signal.SIGKILL, signal.SIGSEGV, signal.SIGABRT, signal.SIGTERM, signal.SIGBUS, signal.SIGXCPU))
            a, k = r.choice((0, 0, 0, 1, 1, 2, 3)), r.choice((0, 0, 1, 2, 3, 5, 9)); e['D01_DIE'] = f'{a}:{k}:{int(sg)}:{dl}'; what = f'child process {a} dies of {sg.name} at its file operation {k}'
        elif fault == 'orphan':
            st = r.choice((0, 1, 3, 0)); t = r.choice(('0', '0.005', '0.02', '0.06')); what = f'inherited child exits with {st} after {t} s'; must = False
            pre = ['sh', '-c', f'(sleep {t}; exit {st}) & (sleep 0.03; exit {1 - bool(st)}) & exec "$@"', 'sh']
            sd = os.path.join(os.path.dirname(d), 't'); os.makedirs(sd); p = os.path.join(sd, 'fake'); open(p, 'w').write(FAKE.replace('TOOL', 'as').replace('WHEN', '1').replace('MODE', 'slow')); os.chmod(p, 0o755); extra = [f'-fuse-as={p}']
        b = spawn([*pre, slim, *extra, *cmd[1:]], d, e, **kw)
        if 'stdout' in kw: kw['stdout'].close()
        if fault == 'fsize' or (fault == 'single' and 'stdout' in kw): b.out = open(pl, 'rb').read().decode('utf-8', 'replace')
        res.evals += 1; res.count('fault-' + fault)
        inj = True
        if fault == 'single':
            t = open(slog, errors='replace').read() if os.path.exists(slog) else ''
            inj = 'INJECTED' in t
            res.count('injected' if inj else 'not-reached')
            if not inj: must = False
        if fault == 'signal': must = os.path.exists(dl); res.count('killed' if must else 'not-reached')
        after, bad = observe(w, c, d, before, b, outs, log, what, res, txt)
        for k, m in bad: viol(k, m); return res
        if must is True and b.rc == 0: viol('false-success', f'exit status 0 although a step failed: {b.err[:200]}'); return res
        if must is False and b.rc != 0: viol('false-failure', f'exit status {b.rc} although nothing failed: {b.err[:400]}'); return res
        if b.rc == 0:
            for p in outs:
                g = after.get(norm(os.path.relpath(os.path.realpath(os.path.join(d, p)), os.path.realpath(d))))
                if g != ref[norm(p)]: viol('incomplete', f'exit status 0 but output {p!r} is {"missing" if g is None else "not what the unfaulted run writes"}'); return res
            if so is not None and not kw.get('closed') and fault != 'stdout' and b.out != refout: viol('incomplete', f'exit status 0 but standard output has {len(b.out)} of {len(refout)} bytes'); return res
        res.count(f'faulted-rc{min(b.rc, 1)}'); res.distinct.add(h(repr((what, c.mode, b.rc))))
        if must is None and b.rc and fault in ('fsize',) and kw['fsize'] >= 1 << 20: viol('false-failure', f'exit status {b.rc}: {b.err[:300]}'); return res
    shutil.rmtree(w.base, ignore_errors=True)
    res.sample = dict(cmd=txt, fault=what, rc=b.rc)
    return res


def check(ctx):
    slim = ctx.build('plain')
    ctx.rule = 'distinct = distinct (outputs, mode, kind of broken input or output, kinds of inputs, fault and its point)'
    d = ctx.dir('shim'); open(os.path.join(d, 's.c'), 'w').write(SHIM)
    a = run(['gcc', '-w', '-O1', '-shared', '-fPIC', '-o', 's.so', 's.c', '-ldl'], cwd=d)
    if a.rc: raise HarnessError(a.err)
    t = sh_ok(d)
    tools = dict(shim=os.path.join(d, 's.so'), strace=t.rc != 127 and t.out == '')
    ctx.counts['strace-available'] = int(tools['strace'])
    ctx.assumptions = ['the driver itself is not killed (temporary files of a killed driver are not judged)', 'memory exhaustion is not injected', 'as and ld report their own failures']
    ctx.pmap(lambda c: work(ctx, slim, tools, c), range(ctx.n(3000, 40000)))


if __name__ == '__main__':
    main('D01', check, min_events=5000, min_distinct=300)
